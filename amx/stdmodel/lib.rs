// What the iterator adaptors of the standard library do, as plain loops.
// Never executed: compiled to MIR by the fact extractor, so that the interpreter
// can go through them when the number of elements is not known.
pub mod amxstd {
    pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
        let mut i = 0;
        while let Some(x) = it.next() {
            if f(x) {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn rposition<I: DoubleEndedIterator + ExactSizeIterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
        let mut i = it.len();
        while let Some(x) = it.next_back() {
            i -= 1;
            if f(x) {
                return Some(i);
            }
        }
        None
    }
    pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
        while let Some(x) = it.next() {
            if f(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
        while let Some(x) = it.next() {
            let r = f(x);
            if r.is_some() {
                return r;
            }
        }
        None
    }
    pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() {
            if f(x) {
                return true;
            }
        }
        false
    }
    pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() {
            if !f(x) {
                return false;
            }
        }
        true
    }
    pub fn collect<I: Iterator>(mut it: I) -> Vec<I::Item> {
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    }
    pub fn extend<I: Iterator>(v: &mut Vec<I::Item>, mut it: I) {
        while let Some(x) = it.next() {
            v.push(x);
        }
    }
    pub fn collect_string<I: Iterator<Item = char>>(mut it: I) -> String {
        let mut v = String::new();
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    }
    pub fn concat_strings<I: Iterator<Item = String>>(mut it: I) -> String {
        let mut v = String::new();
        while let Some(x) = it.next() {
            v.push_str(&x);
        }
        v
    }
    pub fn collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            match x {
                Ok(y) => v.push(y),
                Err(e) => return Err(e),
            }
        }
        Ok(v)
    }
    pub fn collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            match x {
                Some(y) => v.push(y),
                None => return None,
            }
        }
        Some(v)
    }
    pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
        while let Some(x) = it.next() {
            f(x);
        }
    }
    pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = it.next() {
            acc = f(acc, x);
        }
        acc
    }
    pub fn count<I: Iterator>(mut it: I) -> usize {
        let mut n = 0;
        while let Some(_) = it.next() {
            n += 1;
        }
        n
    }
    pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
        let mut l = None;
        while let Some(x) = it.next() {
            l = Some(x);
        }
        l
    }
    pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, f: &mut F) -> Option<I::Item> {
        while let Some(x) = it.next() {
            if f(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn filter_map_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, f: &mut F) -> Option<B> {
        while let Some(x) = it.next() {
            let r = f(x);
            if r.is_some() {
                return r;
            }
        }
        None
    }
    pub fn retain<T, F: FnMut(&T) -> bool>(v: Vec<T>, mut f: F) -> Vec<T> {
        let mut out = Vec::new();
        let mut it = v.into_iter();
        while let Some(x) = it.next() {
            if f(&x) {
                out.push(x);
            }
        }
        out
    }
    pub fn join(v: &[String], sep: &str) -> String {
        let mut r = String::new();
        let mut i = 0;
        while i < v.len() {
            if i != 0 {
                r.push_str(sep);
            }
            r.push_str(&v[i]);
            i += 1;
        }
        r
    }
    pub fn concat(v: &[String]) -> String {
        let mut r = String::new();
        let mut i = 0;
        while i < v.len() {
            r.push_str(&v[i]);
            i += 1;
        }
        r
    }
}
