From 3fd22b68dc65465707ed046eb4b6e985cd4263a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 01/54] fix: report end of input inside a start tag instead of
 looping forever

---
 src/sax.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sax.rs b/src/sax.rs
index 6c8d53b..f2b778c 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -272,7 +272,9 @@ impl SaxDecoder {
                         }
                     }
                     ch = self.getchar();
-                    if ch == '>' {
+                    if ch == EOF {
+                        return Err(xml_syntax_error!("Unexpected EOF in start tag"));
+                    } else if ch == '>' {
                         break;
                     } else if ch == '/' {       // Standalone Element
                         ch = self.getchar();
-- 
2.43.0


From 92a40003afc5796417d3e7519839ab8f29710670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 02/54] fix: reject a start tag without an element name

---
 src/sax.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index f2b778c..e6425e0 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -246,6 +246,9 @@ impl SaxDecoder {
             } else {                    // Start Element
                 self.ungetchar();
                 let name = self.get_name();
+                if name == "" {
+                    return Err(xml_syntax_error!("No element name after <"));
+                }
                 let mut attr = vec!{};
                 loop {
                     self.skip_spaces();
-- 
2.43.0


From b6bfbd5659fb7080f04c32c9e4d1c73ac48f2b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 03/54] fix: reject a document that leaves an element open

---
 src/dom.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 196d2d4..f20bb04 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -183,6 +183,11 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
     loop {
         match dec.raw_token() {
             Ok(XmlToken::EOF) => {
+                if curr_node.node_type != NodeType::DocumentRoot {
+                    return Err(xml_syntax_error!(
+                        "Unexpected EOF: element {} is not closed",
+                        curr_node.name.as_str()));
+                }
                 break;
             },
             Ok(XmlToken::StartElement{name, attr}) => {
-- 
2.43.0


From e0579f4816091a17879b67afc5bc11e536b57291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 04/54] fix: reject an end tag without an open element

---
 src/dom.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index f20bb04..6438855 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -203,7 +203,8 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
                 }
             },
             Ok(XmlToken::EndElement{name}) => {
-                if curr_node.name.as_str() != name {
+                if curr_node.node_type != NodeType::Element ||
+                   curr_node.name.as_str() != name {
                     return Err(xml_syntax_error!(
                         "Element name mismatch: {} and {}",
                         curr_node.name.as_str(), name));
-- 
2.43.0


From ef5285657c7082b022057c5957193c1be0ad13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 05/54] fix: decode each entity reference once

---
 src/sax.rs | 64 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/sax.rs b/src/sax.rs
index e6425e0..c34d3e3 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -875,49 +875,59 @@ fn char_is_in_ranges(ch: char, ch_ranges: &[(u32, u32)]) -> bool {
 //                | '&#x' [0-9a-fA-F]+ ';'      // キャラクター参照
 // [68] EntityRef ::= '&' Name ';'              // 実体参照
 //
+// 文字列の先頭から1度だけ走査する (復号結果を再度復号しない)。
+//
 fn decode_entity(s: &String) -> String {
+    let mut buf = String::new();
+    for (i, part) in s.split('&').enumerate() {
+        if i == 0 {
+            buf.push_str(part);
+        } else if let Some((ch, tail)) = decode_reference(part) {
+            buf.push(ch);
+            buf.push_str(tail);
+        } else {
+            buf.push('&');
+            buf.push_str(part);
+        }
+    }
+    return buf;
+}
+
+// ---------------------------------------------------------------------
+// '&' の直後から始まる参照を復号し、その文字と ';' より後の文字列を返す。
+//
+fn decode_reference(s: &str) -> Option<(char, &str)> {
 
     // -----------------------------------------------------------------
     //
-    let mut buf = s.clone();
-    for (pattern, radix) in [("&#x", 16), ("&#", 10)].iter() {
-        loop {
-            let ss = buf.clone();
-            let v: Vec<&str> = ss.splitn(2, pattern).collect();
-            if v.len() != 2 {
-                break;
-            }
-
-            let w: Vec<&str> = v[1].splitn(2, ";").collect();
+    for (pattern, radix) in [("#x", 16), ("#", 10)].iter() {
+        if let Some(rest) = s.strip_prefix(pattern) {
+            let w: Vec<&str> = rest.splitn(2, ";").collect();
             if w.len() != 2 {
-                break;
+                return None;
             }
-
-            let head = v[0];
-            let entity = w[0];
-            let tail = w[1];
-
-            let u = u32::from_str_radix(&entity, *radix as u32).unwrap_or(0x3013);
+            let u = u32::from_str_radix(&w[0], *radix as u32).unwrap_or(0x3013);
                                                             // \u3013 = '〓'
-            let ch = char::from_u32(u).unwrap_or('〓');
-            buf = format!("{}{}{}", &head, ch, &tail);
+            return Some((char::from_u32(u).unwrap_or('〓'), w[1]));
         }
     }
 
     // -----------------------------------------------------------------
     //
     let entity_specs = [
-        [ "&gt;", ">" ],
-        [ "&lt;", "<" ],
-        [ "&quot;", "\"" ],
-        [ "&apos;", "'" ],
-        [ "&amp;", "&" ],
+        ( "gt;", '>' ),
+        ( "lt;", '<' ),
+        ( "quot;", '"' ),
+        ( "apos;", '\'' ),
+        ( "amp;", '&' ),
     ];
-    for spec in entity_specs.iter() {
-        buf = buf.replace(spec[0], spec[1]);
+    for &(name, ch) in entity_specs.iter() {
+        if let Some(tail) = s.strip_prefix(name) {
+            return Some((ch, tail));
+        }
     }
 
-    return buf;
+    return None;
 }
 
 
-- 
2.43.0


From 1ad561f2f3329b0a3c634804d7ef2cf3d39cbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 06/54] fix: do not panic on a node whose document has been
 dropped

---
 src/dom.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 6438855..2fc42b1 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -447,7 +447,10 @@ impl NodePtr {
                 return value.clone();
             }
             curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+                Some(ref p) => match p.borrow().upgrade() {
+                    Some(parent) => parent,
+                    None => return String::new(),
+                },
                 None => return String::new(),
             };
         }
@@ -473,7 +476,10 @@ impl NodePtr {
         let mut curr = self.unwrap_rc();
         loop {
             curr = match (*curr).parent {
-                Some(ref p) => p.borrow().upgrade().unwrap(),
+                Some(ref p) => match p.borrow().upgrade() {
+                    Some(parent) => parent,
+                    None => return wrap_rc_clone(&curr),
+                },
                 None => return wrap_rc_clone(&curr),
             };
         }
@@ -507,7 +513,8 @@ impl NodePtr {
 
     // =================================================================
     /// Returns the parent of the 'node', or None
-    /// if 'node' has no parent (i.e. is DocumentRoot).
+    /// if 'node' has no parent (i.e. is DocumentRoot, or the document
+    /// it belongs to has been dropped).
     ///
     /// # Examples
     ///
@@ -523,8 +530,10 @@ impl NodePtr {
     pub fn parent(&self) -> Option<NodePtr> {
         match self.unwrap_rc().parent {
             Some(ref p) => {
-                let parent_node = p.borrow().upgrade().unwrap();
-                return Some(wrap_rc_clone(&parent_node));
+                match p.borrow().upgrade() {
+                    Some(parent_node) => return Some(wrap_rc_clone(&parent_node)),
+                    None => return None,
+                }
             },
             None => return None,
         }
-- 
2.43.0


From 24adc338e2a176533ce81faef6f114a5f986320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 07/54] fix: inserted subtrees link to their new parent

---
 src/dom.rs | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 2fc42b1..0d0ce84 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -246,14 +246,21 @@ pub fn new_document(xml_string: &str) -> Result<NodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
+// 既存のノードを、子孫と属性も含めて複写し、parentを親とする。
+// parentの子としては登録しない。
 //
-fn shallow_copy_rc_rels(target: &mut RcNode, source: &RcNode) {
+fn deep_copy_rc_node(source: &RcNode, parent: &mut RcNode) -> RcNode {
+    let mut node = make_new_rc_node(source.node_type.clone(), Some(parent),
+                        &source.name, &source.value);
     for ch in source.children.borrow().iter() {
-        target.children.borrow_mut().push(Rc::clone(ch));
+        let ch_dup = deep_copy_rc_node(ch, &mut node);
+        node.children.borrow_mut().push(ch_dup);
     }
     for at in source.attributes.borrow().iter() {
-        target.attributes.borrow_mut().push(Rc::clone(at));
+        let at_dup = deep_copy_rc_node(at, &mut node);
+        node.attributes.borrow_mut().push(at_dup);
     }
+    return node;
 }
 
 // =====================================================================
@@ -603,7 +610,7 @@ impl NodePtr {
     }
 
     // =================================================================
-    /// Appends the node tree 'new_child' as the last child of
+    /// Appends a copy of the node tree 'new_child' as the last child of
     /// the element node.
     ///
     /// # Examples
@@ -627,9 +634,9 @@ impl NodePtr {
     /// ```
     ///
     pub fn append_child(&self, new_child: &NodePtr) {
-        let rc_self = self.unwrap_rc();
-        let rc_new_child = new_child.unwrap_rc();
-        rc_self.children.borrow_mut().push(Rc::clone(&rc_new_child));
+        let mut rc_self = self.unwrap_rc();
+        let rc_new_child = deep_copy_rc_node(&new_child.unwrap_rc(), &mut rc_self);
+        rc_self.children.borrow_mut().push(rc_new_child);
         self.clear_document_order();
     }
 
@@ -664,15 +671,8 @@ impl NodePtr {
         let n = parent.find_child_index(self);
         if n != usize::MAX {
             let mut rc_parent = parent.unwrap_rc();
-            let rc_new_node = new_node.unwrap_rc();
-
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node = deep_copy_rc_node(&new_node.unwrap_rc(), &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n, rc_new_node);
         }
         self.clear_document_order();
     }
@@ -708,15 +708,8 @@ impl NodePtr {
         let n = parent.find_child_index(self);
         if n != usize::MAX {
             let mut rc_parent = parent.unwrap_rc();
-            let rc_new_node = new_node.unwrap_rc();
-
-            let mut rc_new_node_dup = make_new_child_rc_node(
-                rc_new_node.node_type.clone(),
-                &mut rc_parent,
-                &rc_new_node.name,
-                &rc_new_node.value,
-                n + 1);
-            shallow_copy_rc_rels(&mut rc_new_node_dup, &rc_new_node);
+            let rc_new_node = deep_copy_rc_node(&new_node.unwrap_rc(), &mut rc_parent);
+            rc_parent.children.borrow_mut().insert(n + 1, rc_new_node);
         }
         self.clear_document_order();
     }
-- 
2.43.0


From 19d400902649dcb1084c4575d52aee8407c78135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 08/54] fix: do not index past the tokens of an empty XPath

---
 src/xpath_impl/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index c37ca3d..ee1d589 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -488,7 +488,7 @@ impl Lexer {
             ( "cast",     "as", TType::CastAs ),
         ];
         let mut i = 1;
-        while self.tokens[i+1].t_type != TType::EOF {
+        while self.tokens[i].t_type != TType::EOF {
             if self.tokens[i].t_type == TType::InnerName &&
                self.tokens[i+1].t_type == TType::InnerName {
                 for (str1, str2, t_type) in operator_pair_words.iter() {
-- 
2.43.0


From e6c35b83cbe0929f16321b805449f1d73b1037ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 09/54] fix: require digits after a signed exponent

---
 src/xpath_impl/lexer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index ee1d589..8275917 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -679,7 +679,9 @@ impl Lexer {
             ch1 = self.read_rune();
             if ch1 == '+' || ch1 == '-' {
                 numeric_after_e.push(ch1);
-            } else if is_digit(ch1) {
+                ch1 = self.read_rune();
+            }
+            if is_digit(ch1) {
                 self.unread_rune();
             } else {
                 return Err(xpath_syntax_error!(
-- 
2.43.0


From cbc283d27160aadf2aa48211934891e7c9aab8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 10/54] fix: require the exact keyword where the grammar has
 one

---
 src/xpath_impl/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 71ad020..0c58ebe 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -224,7 +224,7 @@ macro_rules! error_if_not_ttype {
 //
 macro_rules! error_if_not_name {
     ( $lex: expr, $name: expr, $msg: expr ) => {
-        if $lex.next_token().get_type() != TType::Name &&
+        if $lex.next_token().get_type() != TType::Name ||
            $lex.next_token().get_name() != $name {
             return Err(xpath_syntax_error!($msg,
                 $lex.around_tokens().as_str()));
-- 
2.43.0


From d6179fabe5c1993f30b746e69af76c3be2f20cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 11/54] fix: report a missing operand or type as a syntax error

---
 src/xpath_impl/parser.rs | 54 +++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 0c58ebe..d1c9e6c 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -295,6 +295,7 @@ fn parse_main(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_expr(lex)?;
 
     error_if_not_ttype!(lex, TType::EOF, "{}: 余分な字句が継続。");
+    error_if_nil!(lex, xnode, "{}: 式が必要。");
 
     return Ok(xnode);
 }
@@ -368,11 +369,15 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
                     "{}: namespace 軸は未実装。",
                     lex.around_tokens().as_str()));
             }
-            return parse_node_test(lex, axis);
+            let xnode = parse_node_test(lex, axis)?;
+            error_if_nil!(lex, xnode, "{}: 軸名の次に node test が必要。");
+            return Ok(xnode);
         },
         TType::At => {  // 「@」は「attribute::」の省略形
             lex.get_token();
-            return parse_node_test(lex, &XNodeType::AxisAttribute);
+            let xnode = parse_node_test(lex, &XNodeType::AxisAttribute)?;
+            error_if_nil!(lex, xnode, "{}: @ の次に node test が必要。");
+            return Ok(xnode);
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
@@ -796,6 +801,7 @@ fn parse_predicate(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let xnode = parse_expr(lex)?;
+    error_if_nil!(lex, xnode, "{}: 式が必要。");
 
     error_if_not_ttype!(lex, TType::RightBracket, "{}: 述語を閉じる「]」が必要。");
     lex.get_token();
@@ -864,9 +870,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = for_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_for_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -881,6 +885,7 @@ fn parse_for_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(for_expr_xnode);
@@ -917,9 +922,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = let_expr_xnode.clone();
     loop {
         let var_bind_xnode = parse_simple_let_binding(lex)?;
-        if is_nil_xnode(&var_bind_xnode) {
-            break;
-        }
+        error_if_nil!(lex, var_bind_xnode, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &var_bind_xnode);
         curr_xnode = get_right(&curr_xnode);
 
@@ -934,6 +937,7 @@ fn parse_let_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(let_expr_xnode);
@@ -964,6 +968,7 @@ fn parse_simple_let_binding(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(XNodeType::LetVarBind, &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1006,9 +1011,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let mut curr_xnode = quantified_expr_xnode.clone();
     loop {
         let xnode_var_bind = parse_simple_binding(lex, &xnode_ttype)?;
-        if is_nil_xnode(&xnode_var_bind) {
-            break;
-        }
+        error_if_nil!(lex, xnode_var_bind, "{}: 変数の束縛が必要。");
         assign_as_right(&curr_xnode, &xnode_var_bind);
         curr_xnode = get_right(&curr_xnode);
 
@@ -1023,6 +1026,7 @@ fn parse_quantified_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     assign_as_right(&curr_xnode, &expr_single_xnode);
 
     return Ok(quantified_expr_xnode);
@@ -1054,6 +1058,7 @@ fn parse_simple_binding(lex: &mut Lexer, xnode_type: &XNodeType) -> Result<XNode
     lex.get_token();
 
     let expr_single_xnode = parse_expr_single(lex)?;
+    error_if_nil!(lex, expr_single_xnode, "{}: 式が必要。");
     let var_bind_xnode = new_xnode(xnode_type.clone(), &var_name);
     assign_as_left(&var_bind_xnode, &expr_single_xnode);
 
@@ -1245,6 +1250,7 @@ fn parse_instanceof_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_treat_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::InstanceOf {
+        error_if_nil!(lex, xnode, "{}: 式が必要。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1268,6 +1274,7 @@ fn parse_treat_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_castable_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::TreatAs {
+        error_if_nil!(lex, xnode, "{}: 式が必要。");
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
         if is_nil_xnode(&seq_type_xnode) {
@@ -1408,6 +1415,7 @@ pub fn parse_function_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     lex.get_token();
 
     let sequence_type_xnode = parse_sequence_type(lex)?;
+    error_if_nil!(lex, sequence_type_xnode, "{}: 型が必要。");
     let return_type_xnode = new_xnode(XNodeType::ReturnType, "");
     assign_as_left(&return_type_xnode, &sequence_type_xnode);
     assign_as_right(&return_type_xnode, &sequence_type_list_xnode);
@@ -1427,6 +1435,7 @@ fn parse_sequence_type_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型が必要。");
         let param_xnode = new_xnode(XNodeType::Param, "");
         assign_as_left(&param_xnode, &sequence_type_xnode);
         assign_as_right(&curr, &param_xnode);
@@ -1481,6 +1490,7 @@ fn parse_map_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         lex.get_token();
 
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型が必要。");
         assign_as_right(&xnode, &sequence_type_xnode);
 
     }
@@ -1519,6 +1529,7 @@ fn parse_array_test(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         assign_as_left(&sequence_type_xnode, &item_test_xnode);
     } else {
         let sequence_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, sequence_type_xnode, "{}: 型が必要。");
         assign_as_left(&xnode, &sequence_type_xnode);
     }
 
@@ -1536,6 +1547,7 @@ fn parse_parenthesized_item_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     lex.get_token();
 
     let xnode = parse_item_type(lex)?;
+    error_if_nil!(lex, xnode, "{}: 型が必要。");
 
     error_if_not_ttype!(lex, TType::RightParen, "{}: 閉じ括弧が必要。");
     lex.get_token();
@@ -1558,6 +1570,7 @@ fn parse_castable_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_cast_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastableAs {
+        error_if_nil!(lex, xnode, "{}: 式が必要。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1587,6 +1600,7 @@ fn parse_cast_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_arrow_expr(lex)?;
     let tok = lex.next_token();
     if tok.get_type() == TType::CastAs {
+        error_if_nil!(lex, xnode, "{}: 式が必要。");
         lex.get_token();
         let single_type_xnode = parse_single_type(lex)?;
         if is_nil_xnode(&single_type_xnode) {
@@ -1653,6 +1667,7 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let xnode = parse_unary_expr(lex)?;
     let mut curr_xnode = xnode.clone();
     while lex.next_token().get_type() == TType::Arrow {
+        error_if_nil!(lex, curr_xnode, "{}: 式が必要。");
         lex.get_token();
 
         let func_name = parse_static_func_name(lex)?;
@@ -1701,6 +1716,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Minus => {
             lex.get_token();
             let next_node = parse_value_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1708,6 +1724,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         TType::Plus => {
             lex.get_token();
             let next_node = parse_value_expr(lex)?;
+            error_if_nil!(lex, next_node, "{}: 式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
             return Ok(xnode_op);
@@ -1747,8 +1764,10 @@ fn parse_bin_op_sub(lex: &mut Lexer,
             Some(t) => t,
             None => break,
         };
+        error_if_nil!(lex, xnode, "{}: 式が必要。");
         lex.get_token();
         let next_node = sub_parser(lex)?;
+        error_if_nil!(lex, next_node, "{}: 式が必要。");
 
         let xnode_op = new_xnode(n_type.clone(), tok.get_name());
         assign_as_left(&xnode_op, &xnode);
@@ -1807,9 +1826,8 @@ fn parse_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             assign_as_left(&op_path_xnode_l, &ds_xnode);
 
             let rel_xnode = parse_relative_path_expr(lex)?;
-            if ! is_nil_xnode(&rel_xnode) {
-                assign_as_right(&op_path_xnode_l, &rel_xnode);
-            }
+            error_if_nil!(lex, rel_xnode, "{}: 式が必要。");
+            assign_as_right(&op_path_xnode_l, &rel_xnode);
             return Ok(op_path_xnode_u);
         },
         _ => {
@@ -1847,6 +1865,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::Slash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: 式が必要。");
                 let op_path_xnode = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr Slash");
                 assign_as_left(&op_path_xnode, &step_expr_xnode);
                 assign_as_right(&curr_xnode, &op_path_xnode);
@@ -1855,6 +1874,7 @@ fn parse_relative_path_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             TType::SlashSlash => {
                 lex.get_token();
                 let step_expr_xnode = parse_step_expr(lex)?;
+                error_if_nil!(lex, step_expr_xnode, "{}: 式が必要。");
 
                 let op_path_xnode_u = new_xnode(XNodeType::OperatorPath, "parse_relative_path_expr SlashSlash 1");
                 let ds_xnode = new_xnode(XNodeType::AxisDescendantOrSelf, "node()");
@@ -2210,6 +2230,7 @@ fn parse_inline_function_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, xnode, "{}: 型が必要。");
         assign_as_left(&return_type_xnode, &xnode);
     } else {        // 型の省略時は「item()*」
         assign_as_left(&return_type_xnode, &default_sequence_type());
@@ -2236,6 +2257,7 @@ fn parse_param_list(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let param_xnode = parse_param(lex)?;
+        error_if_nil!(lex, param_xnode, "{}: 引数が必要。");
         assign_as_right(&curr, &param_xnode);
         curr = param_xnode.clone();
     }
@@ -2261,6 +2283,7 @@ fn parse_param(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     if tok.get_type() == TType::Name && tok.get_name() == "as" {
         lex.get_token();
         let seq_type_xnode = parse_sequence_type(lex)?;
+        error_if_nil!(lex, seq_type_xnode, "{}: 型が必要。");
         let param_xnode = new_xnode(XNodeType::Param, &param_name);
         assign_as_left(&param_xnode, &seq_type_xnode);
         return Ok(param_xnode);
@@ -2344,6 +2367,7 @@ fn parse_map_constructor_entries(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let entry_xnode = parse_map_constructor_entry(lex)?;
+        error_if_nil!(lex, entry_xnode, "{}: 式が必要。");
         let entry_list_xnode = new_xnode(XNodeType::MapConstruct, "");
         assign_as_left(&entry_list_xnode, &entry_xnode);
         assign_as_right(&curr_xnode, &entry_list_xnode);
@@ -2448,6 +2472,7 @@ fn parse_expr_in_array(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let expr_xnode = parse_expr_single(lex)?;
+        error_if_nil!(lex, expr_xnode, "{}: 式が必要。");
         let entry_xnode = new_xnode(XNodeType::ArrayEntry, "");
         assign_as_left(&entry_xnode, &expr_xnode);
         assign_as_right(&curr_xnode, &entry_xnode);
@@ -2633,6 +2658,7 @@ fn parse_argument_list_sub(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     while lex.next_token().get_type() == TType::Comma {
         lex.get_token();
         let next_arg_xnode = parse_argument(lex)?;
+        error_if_nil!(lex, next_arg_xnode, "{}: 引数が必要。");
         assign_as_right(&curr, &next_arg_xnode);
         curr = next_arg_xnode.clone();
     }
-- 
2.43.0


From 0368b84d148ed92a036b2fb7399f4c72f8fabbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 12/54] fix: accept an empty function body and an empty curly
 array

---
 src/xpath_impl/eval.rs   | 6 +++++-
 src/xpath_impl/parser.rs | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 7361426..ca5428d 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2450,7 +2450,11 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
             // 配列の実体を取り出す。
             //
             let array_entry_xnode = get_left(&xnode);
-            let val_xseq = evaluate_xnode(context_xseq, &array_entry_xnode, eval_env)?;
+            let val_xseq = if ! is_nil_xnode(&array_entry_xnode) {
+                    evaluate_xnode(context_xseq, &array_entry_xnode, eval_env)?
+                } else {
+                    new_xsequence()
+                };
             let mut vec_item: Vec<XSequence> = vec!{};
             for item in val_xseq.iter() {
                 vec_item.push(new_singleton(item));
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index d1c9e6c..3ae263b 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -2317,6 +2317,9 @@ fn parse_function_body(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     error_if_not_ttype!(lex, TType::RightCurly, "{}: 函数本体を閉じる右波括弧が必要。");
     lex.get_token();
 
+    if is_nil_xnode(&xnode) {       // 「{}」は「()」と同等
+        return Ok(new_xnode(XNodeType::ParenthesizedExpr, ""));
+    }
     return Ok(xnode);
 }
 
-- 
2.43.0


From 39f543f0301ddbf2fb54bb1f2d83487d19f127e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 13/54] fix: unbind the range variable when some/every stops
 early

---
 src/xpath_impl/eval.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index ca5428d..05a1bba 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -594,6 +594,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
                 if rhs.effective_boolean_value()? == true {
+                    eval_env.remove_var(var_name.as_str());
                     return Ok(new_singleton_boolean(true));
                 }
                 eval_env.remove_var(var_name.as_str());
@@ -612,6 +613,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                 eval_env.set_var_item(var_name.as_str(), xitem);
                 let rhs = evaluate_xnode(xseq, &get_right(xnode), eval_env)?;
                 if rhs.effective_boolean_value()? == false {
+                    eval_env.remove_var(var_name.as_str());
                     return Ok(new_singleton_boolean(false));
                 }
                 eval_env.remove_var(var_name.as_str());
-- 
2.43.0


From 8a85225e624ea61d7db67beb628bb49150d33838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 14/54] fix: predicates use the effective boolean value of
 non-integer results

---
 src/xpath_impl/eval.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 05a1bba..58c3b79 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1307,7 +1307,7 @@ fn filter_by_predicate(xseq: &XSequence, xnode: &XNodePtr,
         eval_env.set_position(old_position);
 
         // 評価結果をもとに、このアイテムを残すかどうか判定する。
-        let mut do_push = false;
+        let do_push;
         match val.get_singleton_item() {
             Ok(XItem::XIInteger{value}) => {
                 do_push = value == usize_to_i64(position);
@@ -1318,7 +1318,13 @@ fn filter_by_predicate(xseq: &XSequence, xnode: &XNodePtr,
             Ok(XItem::XIBoolean{value}) => {
                 do_push = value;
             },
-            _ => {},
+            Ok(XItem::XIDecimal{value}) |
+            Ok(XItem::XIDouble{value}) => {
+                do_push = value == position as f64;
+            },
+            _ => {
+                do_push = val.effective_boolean_value()?;
+            },
         }
         if do_push {
             result.push(&xitem.clone());
-- 
2.43.0


From 827b6425baac3df6ddd7c8a377fd7418adfd3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 15/54] fix: set the focus position and size for path and map
 expressions

---
 src/xpath_impl/eval.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 58c3b79..c47ccbf 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -224,9 +224,14 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             let mut atom_exists = false;
             let mut result_seq = new_xsequence();
 
-            for item in lhs.iter() {
+            let last = lhs.len();
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(last);
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
 
                 if val_seq.is_empty() {
                     continue;
@@ -289,9 +294,14 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             //     整列や重複排除はしない。
             //
             let mut result_seq = new_xsequence();
-            for item in lhs.iter() {
+            let last = lhs.len();
+            for (i, item) in lhs.iter().enumerate() {
                 let xseq = new_singleton(&item);
+                let old_position = eval_env.set_position(i + 1);
+                let old_last = eval_env.set_last(last);
                 let val_seq = evaluate_xnode(&xseq, &right_xnode, eval_env)?;
+                eval_env.set_last(old_last);
+                eval_env.set_position(old_position);
                 result_seq.append(&val_seq);
             }
 
-- 
2.43.0


From 5cd124069cee3805b57e12e8108a462bb221d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 16/54] fix: a reference to an unbound variable is an error

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index c47ccbf..3d99cf5 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -762,7 +762,7 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             if let Some(xseq) = eval_env.get_var(var_name.as_str()) {
                 return Ok(xseq);
             } else {
-                return Ok(new_xsequence());
+                return Err(dynamic_error!("変数 ${} が束縛されていない。", var_name));
             }
         },
 
-- 
2.43.0


From 218a0abd5e2be6907a777d10465dbfcce589c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 17/54] fix: intersect and except return nodes in document
 order without duplicates

---
 src/xpath_impl/oper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/oper.rs b/src/xpath_impl/oper.rs
index ca093de..1b06e00 100644
--- a/src/xpath_impl/oper.rs
+++ b/src/xpath_impl/oper.rs
@@ -219,7 +219,7 @@ pub fn op_union(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence,
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_intersect(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -227,11 +227,11 @@ pub fn op_intersect(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSeque
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
+pub fn op_except(args: &Vec<XSequence>, eval_env: &EvalEnv) -> Result<XSequence, Box<Error>> {
     let mut node_array: Vec<NodePtr> = vec!{};
     let rhs = args[1].to_nodeset();
     for n in args[0].to_nodeset().iter() {          // lhs
@@ -239,7 +239,7 @@ pub fn op_except(args: &Vec<XSequence>, _eval_env: &EvalEnv) -> Result<XSequence
             node_array.push(n.rc_clone());
         }
     }
-    // eval_env.sort_by_doc_order(&mut node_array);
+    eval_env.sort_by_doc_order(&mut node_array);
     return Ok(new_xsequence_from_node_array(&node_array));
 }
 
-- 
2.43.0


From 494ab742a34447b9e242c645126c6cbcdda0e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 18/54] fix: check the number of arguments of a dynamic
 function call

---
 src/xpath_impl/eval.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3d99cf5..0183baa 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1385,22 +1385,28 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
     let mut curr_arg_top = arg_xnode.clone();
     while ! is_nil_xnode(&curr_arg_top) {
         let arg_expr = get_left(&curr_arg_top);
+        if is_nil_xnode(&arg_expr) {
+            return Err(type_error!("動的函数呼び出し: 「?」は指定できない。"));
+        }
         let val = evaluate_xnode(xseq, &arg_expr, eval_env)?;
         argument_xseq.push(val);
         curr_arg_top = get_right(&curr_arg_top);
     }
 
     // -----------------------------------------------------------------
-    // インライン函数
+    // インライン函数、名前付き函数参照、部分函数
     //
-    if let Ok(inline_func_xnode) = curr_xseq.get_singleton_xnodeptr() {
-        match get_xnode_type(&inline_func_xnode) {
-            XNodeType::InlineFunction => {
-                return call_inline_func(&inline_func_xnode,
-                            argument_xseq, xseq, eval_env);
-            },
-            _ => {}
-        }
+    if let Ok(func_xnode) = curr_xseq.get_singleton_xnodeptr() {
+        return call_function(&func_xnode, argument_xseq, xseq, eval_env);
+    }
+
+    // -----------------------------------------------------------------
+    // マップ/配列に渡す引数は、ひとつだけ。
+    //
+    if argument_xseq.len() != 1 {
+        return Err(type_error!(
+                "動的函数呼び出し: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
     }
 
     // -----------------------------------------------------------------
@@ -1463,6 +1469,11 @@ fn call_inline_func(inline_func_xnode: &XNodePtr,
     // -----------------------------------------------------------------
     // 実引数の値を変数 (仮引数) に束縛する。
     //
+    if param_names.len() != argument_xseq.len() {
+        return Err(type_error!(
+                "インライン函数: 引数の個数が合致しない: {}。",
+                argument_xseq.len()));
+    }
     for (i, val) in argument_xseq.iter().enumerate() {
         if match_sequence_type(&val, &sequence_types[i])? == false {
             return Err(type_error!(
-- 
2.43.0


From c4d25685d5c1a726972cac65bf90c6ea744e1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 19/54] fix: reject duplicate and non-atomic keys in a map
 constructor

---
 src/xpath_impl/eval.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 0183baa..033e351 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -711,7 +711,9 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             if let Ok(xitem_map) = xseq.get_singleton_map() {
                 let mut result = new_xsequence();
                 for key in xitem_map.map_keys().iter() {
-                    result.append(&xitem_map.map_get(key).unwrap());
+                    if let Some(v) = xitem_map.map_get(key) {
+                        result.append(&v);
+                    }
                 }
                 return Ok(result);
 
@@ -720,7 +722,9 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
                 let mut result = new_xsequence();
                 for i in 1 ..= size {
                     let index = new_xitem_integer(i as i64);
-                    result.append(&xitem_array.array_get(&index).unwrap());
+                    if let Some(v) = xitem_array.array_get(&index) {
+                        result.append(&v);
+                    }
                 }
                 return Ok(result);
 
@@ -2436,6 +2440,12 @@ fn convert_xnode_to_map_array(xnode: &XNodePtr,
 
                 let map_key_xnode = get_left(&map_entry_xnode);
                 let key = evaluate_xnode(context_xseq, &map_key_xnode, eval_env)?.get_singleton_item()?;
+                if ! key.op_same_key(&key) {
+                    return Err(type_error!("マップのキーが原子値でない: {}。", key));
+                }
+                if vec_item.iter().any(|entry| entry.0.op_same_key(&key)) {
+                    return Err(dynamic_error!("マップのキーが重複している: {}。", key));
+                }
 
                 let map_value_xnode = get_right(&map_entry_xnode);
                 let val = evaluate_xnode(context_xseq, &map_value_xnode, eval_env)?;
-- 
2.43.0


From 1d99098b9edd38986ec792fd356e4b6962523445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 20/54] fix: report an integer overflow instead of panicking or
 wrapping

---
 src/xpath_impl/xitem.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 573f0a8..c8335d3 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -813,21 +813,21 @@ pub fn xitem_compare(lhs: &XItem, rhs: &XItem) -> Result<i64, Box<Error>> {
 //
 pub fn xitem_numeric_add(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a + b },
+                |a, b| { a.checked_add(b) },
                 |a, b| { a + b },
                 |a, b| { a + b });
 }
 
 pub fn xitem_numeric_subtract(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a - b },
+                |a, b| { a.checked_sub(b) },
                 |a, b| { a - b },
                 |a, b| { a - b });
 }
 
 pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a * b },
+                |a, b| { a.checked_mul(b) },
                 |a, b| { a * b },
                 |a, b| { a * b });
 }
@@ -853,7 +853,7 @@ pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error
         _ => return Err(cant_occur!("xitem_numeric_divide: rhs_a")),
     };
     return xitem_numeric_operation(lhs, &rhs_a,
-                |a, b| { a / b },
+                |a, b| { a.checked_div(b) },
                 |a, b| { a / b },
                 |a, b| { a / b });
 }
@@ -894,7 +894,11 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
         _ => 0,
     };
     if rhs != 0 {
-        return Ok(new_xitem_integer(lhs / rhs));
+        match lhs.checked_div(rhs) {
+            Some(v) => return Ok(new_xitem_integer(v)),
+            None => return Err(dynamic_error!(
+                            "Numeric operation overflow/underflow.")),
+        }
     } else {
         return Err(dynamic_error!("Division by zero"));
     }
@@ -918,7 +922,7 @@ pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>>
     }
 
     return xitem_numeric_operation(lhs, rhs,
-                |a, b| { a.rem(b) },
+                |a, b| { Some(a.wrapping_rem(b)) },
                 |a, b| { a.rem(b) },
                 |a, b| { a.rem(b) });
 }
@@ -938,7 +942,11 @@ pub fn xitem_numeric_unary_plus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
     match arg {
-        XItem::XIInteger{value} => return Ok(new_xitem_integer(value.neg())),
+        XItem::XIInteger{value} => match value.checked_neg() {
+            Some(v) => return Ok(new_xitem_integer(v)),
+            None => return Err(dynamic_error!(
+                            "Numeric operation overflow/underflow.")),
+        },
         XItem::XIDecimal{value} => return Ok(new_xitem_decimal(value.neg())),
         XItem::XIDouble{value} => return Ok(new_xitem_double(value.neg())),
         _ => return Err(type_error!("xitem_numeric_operation: Not numeric")),
@@ -951,7 +959,7 @@ pub fn xitem_numeric_unary_minus(arg: &XItem) -> Result<XItem, Box<Error>> {
 //
 fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XItem, Box<Error>>
-        where FINT: FnMut(i64, i64) -> i64,
+        where FINT: FnMut(i64, i64) -> Option<i64>,
               FDEC: FnMut(f64, f64) -> f64,
               FDBL: FnMut(f64, f64) -> f64 {
 
@@ -959,7 +967,11 @@ fn xitem_numeric_operation<FINT, FDEC, FDBL>(lhs: &XItem, rhs: &XItem,
         XItem::XIInteger{value: lhs} => {
             match rhs {
                 XItem::XIInteger{value: rhs} => {
-                    return Ok(new_xitem_integer(int_op(*lhs, *rhs)));
+                    match int_op(*lhs, *rhs) {
+                        Some(v) => return Ok(new_xitem_integer(v)),
+                        None => return Err(dynamic_error!(
+                            "Numeric operation overflow/underflow.")),
+                    }
                 },
                 XItem::XIDecimal{value: rhs} => {
                     return Ok(new_xitem_decimal(dec_op(int_to_dec(*lhs), *rhs)));
-- 
2.43.0


From 956ac6a9bb9af8224e5e7cb025ba2cc99f7d376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 21/54] fix: do not overflow on extreme positions and in fn:abs

---
 src/xpath_impl/func.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e7e956d..78a194e 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -436,7 +436,7 @@ fn fn_data(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a.abs() },
+                |a| { a.checked_abs() },
                 |a| { a.abs() },
                 |a| { a.abs() });
 }
@@ -448,7 +448,7 @@ fn fn_abs(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.ceil() },
                 |a| { ceil_x(a) });
 }
@@ -460,7 +460,7 @@ fn fn_ceiling(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { a.floor() },
                 |a| { floor_x(a) });
 }
@@ -472,7 +472,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
-                |a| { a },
+                |a| { Some(a) },
                 |a| { (a + 0.5).floor() },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
@@ -512,13 +512,17 @@ fn round_x(num: f64) -> f64 {
 //
 fn fn_numeric_unary<FINT, FDEC, FDBL>(args: &Vec<&XSequence>,
         mut int_op: FINT, mut dec_op: FDEC, mut dbl_op: FDBL) -> Result<XSequence, Box<Error>>
-        where FINT: FnMut(i64) -> i64,
+        where FINT: FnMut(i64) -> Option<i64>,
               FDEC: FnMut(f64) -> f64,
               FDBL: FnMut(f64) -> f64 {
     if let Ok(arg) = args[0].get_singleton_item() {
         match arg {
             XItem::XIInteger{value: arg} => {
-                return Ok(new_singleton_integer(int_op(arg)));
+                match int_op(arg) {
+                    Some(v) => return Ok(new_singleton_integer(v)),
+                    None => return Err(dynamic_error!(
+                            "Numeric operation overflow/underflow.")),
+                }
             },
             XItem::XIDecimal{value: arg} => {
                 return Ok(new_singleton_decimal(dec_op(arg)));
@@ -1258,7 +1262,7 @@ fn fn_tail(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 //
 fn fn_insert_before(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     let target = args[0];
-    let mut position = args[1].get_singleton_integer()? - 1;
+    let mut position = args[1].get_singleton_integer()?.saturating_sub(1);
     let inserts = args[2];
     if position <= 0 {
         position = 0;
@@ -1703,7 +1707,7 @@ fn subcollection_index_sub(source_length: usize,
         return (0, 0);
     }
     let beg_pos = round_x(starting_loc) as i64;     // 有限値
-    let mut b = beg_pos - 1;                        // 0起点の値に補正
+    let mut b = beg_pos.saturating_sub(1);                        // 0起点の値に補正
     if b < 0 {
         b = 0;
     }
@@ -1723,7 +1727,7 @@ fn subcollection_index_sub(source_length: usize,
             } else {
                 round_x(length) as i64                 // 非負の有限値
             };
-        e = beg_pos + len_str - 1;
+        e = beg_pos.saturating_add(len_str).saturating_sub(1);
         if e < b {
             e = b;
         }
-- 
2.43.0


From 2e2cb9a3cd728d12007322599154d35fd65412e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 22/54] fix: report an integer literal that is out of range

---
 src/xpath_impl/eval.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 033e351..4976dd9 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -682,7 +682,11 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_string(&get_xnode_name(&xnode)));
         },
         XNodeType::IntegerLiteral => {
-            return Ok(new_singleton_integer(atoi(&get_xnode_name(&xnode))));
+            match i64::from_str(get_xnode_name(&xnode).as_str()) {
+                Ok(n) => return Ok(new_singleton_integer(n)),
+                Err(_) => return Err(dynamic_error!(
+                    "整数リテラルが範囲外: {}。", get_xnode_name(&xnode))),
+            }
         },
         XNodeType::DecimalLiteral => {
             return Ok(new_singleton_decimal(atof(&get_xnode_name(&xnode))));
-- 
2.43.0


From 1fe2bb68329097273f30e69e76c2cfdc3d383ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 23/54] fix: reject an integer that is not a code point instead
 of truncating it

---
 src/xpath_impl/func.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 78a194e..7052012 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -568,22 +568,16 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 // fn:codepoints-to-string($arg as xs:integer*) as xs:string
 //
 fn fn_codepoints_to_string(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    let mut v: Vec<u16> = vec!{};
+    let mut s = String::new();
     for item in args[0].iter() {
-        let uni = item.get_as_raw_integer()? as u64;
-        if 0x10000 <= uni {                             // 代用対
-            let hi = (uni - 0x10000) / 0x0400 + 0xD800;
-            let lo = (uni - 0x10000) % 0x0400 + 0xDC00;
-            v.push(hi as u16);
-            v.push(lo as u16);
-        } else {
-            v.push(uni as u16);
+        let uni = item.get_as_raw_integer()?;
+        let code_point = if 0 <= uni && uni <= 0x10FFFF { uni as u32 } else { u32::MAX };
+        match char::from_u32(code_point) {
+            Some(ch) => s.push(ch),
+            None => return Err(dynamic_error!("Code point not valid.")),
         }
     }
-    match String::from_utf16(&v) {
-        Ok(s) => return Ok(new_singleton_string(&s)),
-        Err(_) => return Err(dynamic_error!("Code point not valid.")),
-    }
+    return Ok(new_singleton_string(&s));
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 6704a3a88d6baa363249d9c9d12cde5914ec91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 24/54] fix: check the function name and arity in arrow calls
 and function references

---
 src/xpath_impl/parser.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 3ae263b..fc60559 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1672,13 +1672,11 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 
         let func_name = parse_static_func_name(lex)?;
         if func_name != "" {
-            let fcall_xnode = new_xnode(XNodeType::FunctionCall, &func_name);
             let arglist_xnode = parse_argument_list(lex)?;
             let arg_top_xnode = new_xnode(XNodeType::ArgumentTop, "");
             assign_as_left(&arg_top_xnode, &curr_xnode);
             assign_as_right(&arg_top_xnode, &arglist_xnode);
-            assign_as_right(&fcall_xnode, &arg_top_xnode);
-            curr_xnode = fcall_xnode.clone();
+            curr_xnode = new_function_call_xnode(&func_name, &arg_top_xnode)?;
             continue;
         }
 
@@ -2192,6 +2190,12 @@ fn parse_named_function_ref(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     }
     let arity = tok.get_name();
     lex.get_token();
+    match arity.parse::<usize>() {
+        Ok(n) if func::check_function_spec(&func_name, n) => {},
+        _ => return Err(xpath_syntax_error!(
+            "{}#{}: 函数が未実装、または引数の数が不適切。",
+            func_name, arity)),
+    }
 
     let xnode = new_xnode(XNodeType::NamedFunctionRef,
                     &(func_name + &"#" + &arity));
@@ -2589,6 +2593,13 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     }
 
     let arg_node = parse_argument_list(lex)?;       // 引数が0個ならばNil
+    return new_function_call_xnode(&func_name, &arg_node);
+}
+
+// ---------------------------------------------------------------------
+// 函数名と引数並びから、函数呼び出しの構文木を作る。
+//
+fn new_function_call_xnode(func_name: &str, arg_node: &XNodePtr) -> Result<XNodePtr, Box<Error>> {
 
     // -------------------------------------------------------------
     // 引数の数を調べる。
@@ -2607,7 +2618,7 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     // -------------------------------------------------------------
     // この時点で函数表と照合して、函数の存在や引数の数を検査する。
     //
-    if func::check_function_spec(&func_name, arity) == false {
+    if func::check_function_spec(func_name, arity) == false {
         return Err(xpath_syntax_error!(
             "{}: 函数が未実装、または引数の数 ({}) が不適切。",
             func_name, arity));
@@ -2621,8 +2632,8 @@ fn parse_function_call(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
             } else {
                 XNodeType::FunctionCall
             },
-            &func_name);
-    assign_as_right(&func_node, &arg_node);
+            func_name);
+    assign_as_right(&func_node, arg_node);
 
     return Ok(func_node);
 }
-- 
2.43.0


From f3544a98fc9e73d69e11184265171b62eb8a7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 25/54] fix: evaluate treat as

---
 src/xpath_impl/eval.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 4976dd9..4fcf256 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -638,6 +638,15 @@ fn evaluate_xnode(xseq: &XSequence, xnode: &XNodePtr,
             return Ok(new_singleton_boolean(b));
         },
 
+        XNodeType::OperatorTreatAs => {
+            let value = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
+            if ! match_sequence_type(&value, &get_right(xnode))? {
+                return Err(dynamic_error!("treat as: 型が合致していない: {}。",
+                    value.to_string()));
+            }
+            return Ok(value);
+        },
+
         XNodeType::OperatorCastableAs => {
             let value = evaluate_xnode(xseq, &get_left(xnode), eval_env)?;
             let single_type_xnode = get_right(xnode);
-- 
2.43.0


From d0c4cb03a69484712e57cfc1f26d939203f9730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 26/54] fix: match the name test *:name by local name

---
 src/xpath_impl/eval.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 4fcf256..45e3162 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1121,6 +1121,11 @@ fn match_name_test(node: &NodePtr, xnode: &XNodePtr) -> bool {
             return true;
         }
     }
+    if v.len() == 2 && v[0] == "*" {
+        if node.local_name() == v[1] {
+            return true;
+        }
+    }
 
     return false;
 }
-- 
2.43.0


From 39e7a8de494443687e4e1b8ba33bea3b67835b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 27/54] fix: reject a NUL character instead of taking it for
 the end of the text

---
 src/sax.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sax.rs b/src/sax.rs
index c34d3e3..c663e84 100644
--- a/src/sax.rs
+++ b/src/sax.rs
@@ -150,6 +150,9 @@ impl SaxDecoder {
     /// Creates a new XML parser reading from String.
     ///
     pub fn new(xml_string: &str) -> Result<SaxDecoder, Box<Error>> {
+        if xml_string.contains(EOF) {
+            return Err(xml_syntax_error!("Illegal character #x0"));
+        }
         return Ok(SaxDecoder{
             char_vec: xml_string.chars().filter(|x| *x != '\r').collect(),
                 // XML 1.0: 行末の処理
-- 
2.43.0


From 924457b58080712be41941a09427e790b5a39377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 28/54] fix: ne with an empty operand gives the empty sequence

---
 src/xpath_impl/xsequence.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 4005ef6..25cda0d 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -382,6 +382,9 @@ pub fn value_compare_eq(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 
 pub fn value_compare_ne(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     let result = value_compare_eq(lhs, rhs)?;
+    if result.is_empty() {
+        return Ok(result);
+    }
     return fn_not(&vec!{&result});
 }
 
-- 
2.43.0


From b145caa8737809d2f879dbf9d33451003a0d9441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 29/54] fix: le and ge are not the negations of gt and lt for
 NaN and the empty sequence

---
 src/xpath_impl/xsequence.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/xpath_impl/xsequence.rs b/src/xpath_impl/xsequence.rs
index 25cda0d..e6d8052 100644
--- a/src/xpath_impl/xsequence.rs
+++ b/src/xpath_impl/xsequence.rs
@@ -396,8 +396,11 @@ pub fn value_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_gt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    let result = value_compare_lt(lhs, rhs)?;
+    if result.is_empty() || result.effective_boolean_value()? {
+        return Ok(result);
+    }
+    return value_compare_eq(lhs, rhs);
 }
 
 pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
@@ -408,8 +411,11 @@ pub fn value_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, B
 }
 
 pub fn value_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
-    let result = value_compare_lt(lhs, rhs)?;
-    return fn_not(&vec!{&result});
+    let result = value_compare_gt(lhs, rhs)?;
+    if result.is_empty() || result.effective_boolean_value()? {
+        return Ok(result);
+    }
+    return value_compare_eq(lhs, rhs);
 }
 
 // ---------------------------------------------------------------------
@@ -479,7 +485,7 @@ pub fn general_compare_lt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_le(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_greater_than(s, t)?; return Ok(! b); },
+        |s, t| { return Ok(xitem_numeric_less_than(s, t)? || xitem_numeric_equal(s, t)?); },
         |arg| { arg <= 0 },
         |s, t| { let b = xitem_boolean_greater_than(s, t)?; return Ok(! b); });
 }
@@ -493,7 +499,7 @@ pub fn general_compare_gt(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence,
 
 pub fn general_compare_ge(lhs: &XSequence, rhs: &XSequence) -> Result<XSequence, Box<Error>> {
     return general_comparison(lhs, rhs,
-        |s, t| { let b = xitem_numeric_less_than(s, t)?; return Ok(! b); },
+        |s, t| { return Ok(xitem_numeric_greater_than(s, t)? || xitem_numeric_equal(s, t)?); },
         |arg| { arg >= 0 },
         |s, t| { let b = xitem_boolean_less_than(s, t)?; return Ok(! b); });
 }
-- 
2.43.0


From e542f1fe284ddbbe81deda4bdd18993dba6cb9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:58 +0000
Subject: [PATCH 30/54] fix: idiv divides before truncating, and rejects
 operands that are not numbers

---
 src/xpath_impl/xitem.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index c8335d3..717703e 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -881,27 +881,38 @@ pub fn xitem_numeric_integer_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, B
         _ => {},
     }
 
-    let lhs = match lhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    let rhs = match rhs {
-        XItem::XIInteger{value} => *value,
-        XItem::XIDecimal{value} => f64_to_i64(*value),
-        XItem::XIDouble{value} => f64_to_i64(*value),
-        _ => 0,
-    };
-    if rhs != 0 {
-        match lhs.checked_div(rhs) {
+    if let (XItem::XIInteger{value: lhs}, XItem::XIInteger{value: rhs}) = (lhs, rhs) {
+        if *rhs == 0 {
+            return Err(dynamic_error!("Division by zero"));
+        }
+        match lhs.checked_div(*rhs) {
             Some(v) => return Ok(new_xitem_integer(v)),
             None => return Err(dynamic_error!(
                             "Numeric operation overflow/underflow.")),
         }
-    } else {
+    }
+
+    let lhs = numeric_to_f64(lhs)?;
+    let rhs = numeric_to_f64(rhs)?;
+    if rhs == 0.0 {
         return Err(dynamic_error!("Division by zero"));
     }
+    let quotient = (lhs / rhs).trunc();
+    if ! (-9223372036854775808.0 <= quotient && quotient < 9223372036854775808.0) {
+        return Err(dynamic_error!("Numeric operation overflow/underflow."));
+    }
+    return Ok(new_xitem_integer(f64_to_i64(quotient)));
+}
+
+// ---------------------------------------------------------------------
+//
+fn numeric_to_f64(item: &XItem) -> Result<f64, Box<Error>> {
+    match item {
+        XItem::XIInteger{value} => return Ok(i64_to_f64(*value)),
+        XItem::XIDecimal{value} => return Ok(*value),
+        XItem::XIDouble{value} => return Ok(*value),
+        _ => return Err(type_error!("xitem_numeric_operation: Not numeric")),
+    }
 }
 
 // ---------------------------------------------------------------------
-- 
2.43.0


From 82d216f898aa5151603fe8caa61086fe326929ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:26 +0000
Subject: [PATCH 31/54] fix: a double divided by an integer or decimal zero is
 no error

---
 src/xpath_impl/xitem.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 717703e..8691ede 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -832,19 +832,31 @@ pub fn xitem_numeric_multiply(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Err
                 |a, b| { a * b });
 }
 
+// ---------------------------------------------------------------------
+//
+// ゼロ除算: 被除数が倍精度実数であれば、除数も倍精度実数に昇格する
+// (±∞またはNaNになるのであって、エラーではない)。
+//
+fn is_double(item: &XItem) -> bool {
+    match item {
+        XItem::XIDouble{value: _} => return true,
+        _ => return false,
+    }
+}
+
 // ---------------------------------------------------------------------
 //
 pub fn xitem_numeric_divide(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     let rhs_a = match rhs {
         XItem::XIInteger{value: rhs} => {
-            if *rhs == 0 {
+            if *rhs == 0 && ! is_double(lhs) {
                 return Err(dynamic_error!("Division by zero"));
             }
             new_xitem_decimal(i64_to_f64(*rhs))
                             // 例外: Integer div Integer => Decimal
         },
         XItem::XIDecimal{value: rhs} => {
-            if *rhs == 0.0 {
+            if *rhs == 0.0 && ! is_double(lhs) {
                 return Err(dynamic_error!("Division by zero"));
             }
             new_xitem_decimal(*rhs)
@@ -920,12 +932,12 @@ fn numeric_to_f64(item: &XItem) -> Result<f64, Box<Error>> {
 pub fn xitem_numeric_mod(lhs: &XItem, rhs: &XItem) -> Result<XItem, Box<Error>> {
     match rhs {
         XItem::XIInteger{value: rhs} => {
-            if *rhs == 0 {
+            if *rhs == 0 && ! is_double(lhs) {
                 return Err(dynamic_error!("Division by zero"));
             }
         },
         XItem::XIDecimal{value: rhs} => {
-            if *rhs == 0.0 {
+            if *rhs == 0.0 && ! is_double(lhs) {
                 return Err(dynamic_error!("Division by zero"));
             }
         },
-- 
2.43.0


From b4082b7eded9a850b87dd68e688ff08833d862dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:06 +0000
Subject: [PATCH 32/54] fix: fn:lang looks at the nearest xml:lang, ignores
 case and accepts the whole tag

---
 src/xpath_impl/func.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 7052012..3ac249a 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -1153,22 +1153,23 @@ fn fn_lang_1(args: &Vec<&XSequence>, context_xseq: &XSequence,
 }
 
 fn fn_lang(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
-    if args[0].is_empty() {
-        return Ok(new_singleton_string(&""));
-    }
-    let testlang = args[0].get_singleton_string()?;
+    let testlang = if args[0].is_empty() {
+            String::new()
+        } else {
+            args[0].get_singleton_string()?.to_lowercase()
+        };
     let node = args[1].get_singleton_node()?;
 
     let mut xmllang = String::new();
-    for n in array_ancestor_or_self(&node).iter() {
-                                // array_ancestor_or_self() !!!!!!!!!!!!
+    for n in array_ancestor_or_self(&node).iter().rev() {
+                                // 文書順なので、逆順にたどる。
         if let Some(val) = n.attribute_value("xml:lang") {
             xmllang = val.to_lowercase();
             break;
         }
     }
-    let v: Vec<&str> = xmllang.splitn(2, "-").collect();
-    let result = v[0] == testlang;
+    let result = xmllang == testlang ||
+                 xmllang.starts_with(&(testlang + "-"));
 
     return Ok(new_singleton_boolean(result));
 }
-- 
2.43.0


From 306843d1a2d4cd8e95fd521f77ea294397c74b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:08 +0000
Subject: [PATCH 33/54] fix: fn:translate uses the first occurrence of a
 character in the map string

---
 src/xpath_impl/func.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 3ac249a..e262886 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -876,6 +876,7 @@ fn fn_translate(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
         for (i, c) in from_runes.iter().enumerate() {
             if ch == c {
                 index = i;
+                break;
             }
         }
         if index != usize::MAX {
-- 
2.43.0


From ab694b9a941a11a5c562e0ea376211c12f7079e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 34/54] fix: fn:number of several items is an error, not zero

---
 src/xpath_impl/func.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index e262886..822386b 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -550,10 +550,7 @@ fn fn_number(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     if args[0].is_empty() {
         return Ok(new_singleton_double(f64::NAN));
     }
-    let mut result = 0.0;
-    if let Ok(arg) = args[0].get_singleton_item() {
-        result = arg.get_as_raw_double()?;
-    }
+    let result = args[0].get_singleton_item()?.get_as_raw_double()?;
     return Ok(new_singleton_double(result));
 }
 
-- 
2.43.0


From 96845e5d2ac9b4640f67ea908d108df0f6348787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:23 +0000
Subject: [PATCH 35/54] fix: fn:round, fn:substring and fn:subsequence round
 numbers that num + 0.5 does not hold exactly

---
 src/xpath_impl/func.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index 822386b..aa08b67 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -473,7 +473,7 @@ fn fn_floor(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
 fn fn_round(args: &Vec<&XSequence>) -> Result<XSequence, Box<Error>> {
     return fn_numeric_unary(args,
                 |a| { Some(a) },
-                |a| { (a + 0.5).floor() },
+                |a| { round_x(a) + 0.0 },
                         // a.round() ではない。
                         // round(-2.5) => -2 となるようにするため。
                 |a| { round_x(a) });
@@ -500,11 +500,11 @@ fn floor_x(num: f64) -> f64 {
 }
 
 fn round_x(num: f64) -> f64 {
-    if (num == 0.0 && num.signum() == -1.0) ||          // 負のゼロ
-       (-0.5 <= num && num < 0.0) {
-        return 1.0 / f64::NEG_INFINITY;                 // 負のゼロ
+    let floor = num.floor();                // num + 0.5 は丸められることがある
+    if num - floor < 0.5 {
+        return floor;
     } else {
-        return (num + 0.5).floor();
+        return num.ceil();                              // 負のゼロを含む
     }
 }
 
-- 
2.43.0


From 9fa671845f3778b513ef9a9fc73afbd51f4fc3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 36/54] fix: the string value of an element or document leaves
 out comments and processing instructions, that of a processing instruction
 its target

---
 src/xpath_impl/xitem.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 8691ede..e727cc3 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -297,7 +297,10 @@ impl NodePtr {
             NodeType::DocumentRoot | NodeType::Element => {
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.string_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => s += &ch.string_value(),
+                        _ => {},            // コメント、処理命令は含まない。
+                    }
                 }
                 return s;
             },
@@ -305,7 +308,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::XMLDecl | NodeType::Instruction => {
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             _ => return String::new(),
         }
@@ -343,7 +346,10 @@ impl NodePtr {
             NodeType::DocumentRoot => {             // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => s += &ch.typed_value(),
+                        _ => {},            // コメント、処理命令は含まない。
+                    }
                 }
                 return s;
             },
@@ -351,7 +357,7 @@ impl NodePtr {
                 return format!("{}", self.value());
             },
             NodeType::Instruction => {              // xs:string
-                return format!("{} {}", self.name(), self.value());
+                return format!("{}", self.value());
             },
             NodeType::Attribute => {                // xs:untypedAtomic
                 return format!("{}", self.value());
@@ -359,7 +365,10 @@ impl NodePtr {
             NodeType::Element => {                  // xs:untypedAtomic
                 let mut s = String::new();
                 for ch in self.children().iter() {
-                    s += &ch.typed_value();
+                    match ch.node_type() {
+                        NodeType::Element | NodeType::Text => s += &ch.typed_value(),
+                        _ => {},            // コメント、処理命令は含まない。
+                    }
                 }
                 return s;
             },
-- 
2.43.0


From 36b55f77bef42e5d23d210904ca3be9a96957b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:24 +0000
Subject: [PATCH 37/54] fix: keys of a map are the same only within strings,
 numbers or booleans

---
 src/xpath_impl/xitem.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index e727cc3..3f55d3d 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -508,9 +508,6 @@ impl XItem {
     }
 
     // -----------------------------------------------------------------
-    // 若干厳密さに欠ける (例えば、"3" と3が同じになってしまう) が、
-    // 当面、raw_stringとして比較する。
-    //
     // (1) string (、anyURI、untypedAtomic) どうしの場合:
     //     fn:codepoint-equal($k1, $k2) で比較する。
     // (2) decimal、double (、float) どうしの場合:
@@ -523,6 +520,21 @@ impl XItem {
     //     fn:deep-equal($k1, $k2) で比較する。
     //
     pub fn op_same_key(&self, other: &XItem) -> bool {
+        let is_boolean = |item: &XItem| match item {
+            XItem::XIBoolean{value: _} => true,
+            _ => false,
+        };
+        if self.is_numeric() != other.is_numeric() ||
+           is_boolean(self) != is_boolean(other) {
+            return false;
+        }
+        if self.is_numeric() {
+            return match (self.get_as_raw_double(), other.get_as_raw_double()) {
+                (Ok(ref k1), Ok(ref k2)) if k1.is_nan() && k2.is_nan() => true,
+                _ => xitem_numeric_equal(self, other).unwrap_or(false),
+            };
+        }
+
         let k1 = self.get_as_raw_string();
         if let Err(_) = k1 {
             return false;
-- 
2.43.0


From 00c5d89786e6ab40ba529bda1d6be53eb7c26972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 38/54] fix: a partially applied function refuses extra
 arguments

---
 src/xpath_impl/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 45e3162..9208ee6 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1595,6 +1595,9 @@ fn call_partial_func(func_xnode: &XNodePtr,
         }
         curr_xnode = get_right(&curr_xnode);
     }
+    if i < argument_xseq.len() {
+        return Err(type_error!("函数呼び出しの「?」に渡すべき引数が多過ぎる。"));
+    }
 
     return evaluate_function(&get_xnode_name(&func_xnode),
             &mut args_array, context_xseq, eval_env);
-- 
2.43.0


From ae03158805802175f46511956829f68a8b7799a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 39/54] fix: a map called with a key it does not have gives the
 empty sequence

---
 src/xpath_impl/eval.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 9208ee6..998c624 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1439,8 +1439,7 @@ fn apply_argument(xseq: &XSequence, curr_xseq: &XSequence,
         if let Some(v) = map_item.map_get(&key) {
             return Ok(v);
         } else {
-            return Err(dynamic_error!(
-                    "map_lookup: key = {}: 値が見つからない。", key));
+            return Ok(new_xsequence());
         }
     }
 
-- 
2.43.0


From 59bb791aafed1ade54a975e9d79a3fef748b3569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 40/54] fix: the step .. takes predicates

---
 src/xpath_impl/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index fc60559..80191bf 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -381,7 +381,11 @@ fn parse_axis_step(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         },
         TType::DotDot => {// 「..」は「parent::node()」の省略形
             lex.get_token();
-            return Ok(new_xnode(XNodeType::AxisParent, "node()"));
+            let axis_xnode = new_xnode(XNodeType::AxisParent, "node()");
+            let predicates_xnode = parse_predicate_list(
+                    lex, is_xnode_reverse_axis(&XNodeType::AxisParent))?;
+            assign_as_right(&axis_xnode, &predicates_xnode);
+            return Ok(axis_xnode);
         },
         _ => {  // 「空」は「child::」の省略形
             return parse_node_test(lex, &XNodeType::AxisChild);
-- 
2.43.0


From 23c35db1618563ebbe9b3623302bd6d65f2116bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 41/54] fix: an expression may have several unary signs

---
 src/xpath_impl/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 80191bf..08a0528 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1710,14 +1710,14 @@ fn parse_arrow_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
 }
 
 // ---------------------------------------------------------------------
-// [ 23] UnaryExpr ::= ( "-" | "+" )? ValueExpr
+// [ 30] UnaryExpr ::= ( "-" | "+" )* ValueExpr
 //
 fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
     let tok = lex.next_token();
     match tok.get_type() {
         TType::Minus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
             error_if_nil!(lex, next_node, "{}: 式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryMinus, "-");
             assign_as_right(&xnode_op, &next_node);
@@ -1725,7 +1725,7 @@ fn parse_unary_expr(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         },
         TType::Plus => {
             lex.get_token();
-            let next_node = parse_value_expr(lex)?;
+            let next_node = parse_unary_expr(lex)?;
             error_if_nil!(lex, next_node, "{}: 式が必要。");
             let xnode_op = new_xnode(XNodeType::OperatorUnaryPlus, "+");
             assign_as_right(&xnode_op, &next_node);
-- 
2.43.0


From 76212b842f65d93376914e56367004d63de7e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:47 +0000
Subject: [PATCH 42/54] fix: a name may be a word that is also an operator

---
 src/xpath_impl/lexer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 8275917..d1dbce6 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -443,6 +443,13 @@ impl Lexer {
             TType::NodeAfter,       // (註2)
             TType::Asterisk,
             TType::Colon,           // (註1)
+            TType::AsteriskColon,
+            TType::BracedURILiteral,
+            TType::Dollar,
+            TType::Bind,
+            TType::LeftCurly,
+            TType::OperatorMap,
+            TType::OperatorConcat,
         ];
 
         let operator_words: HashMap<&str, TType> = [
-- 
2.43.0


From 4fa1912a17c0db4d3887b5b9f683cd062b802907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 43/54] fix: a name behind the wildcard * may be an operator

---
 src/xpath_impl/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index d1dbce6..71fb81b 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -471,9 +471,14 @@ impl Lexer {
             ( "except",    TType::Except ),         // (註2)
         ].iter().cloned().collect();
 
+        // 「*」の前が被演算子でない場合、この「*」は乗算演算子ではなく
+        // ワイルドカードであり、その後の名前は演算子名になり得る。
         let mut i = 1;
+        let mut operator_allowed = false;
         while self.tokens[i].t_type != TType::EOF {
-            if ! prev_t_types.contains(&self.tokens[i-1].t_type) &&
+            operator_allowed = ! prev_t_types.contains(&self.tokens[i-1].t_type) ||
+                self.tokens[i-1].t_type == TType::Asterisk && ! operator_allowed;
+            if operator_allowed &&
                self.tokens[i].t_type == TType::InnerName {
                 if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
                     self.tokens[i].t_type = op_type.clone();
-- 
2.43.0


From 8ddd3738de8f5be88c21c0153e54687d09a691f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:23 +0000
Subject: [PATCH 44/54] fix: a variable may have the name of a kind test

---
 src/xpath_impl/lexer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 71fb81b..4edfdb0 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -566,6 +566,7 @@ impl Lexer {
             if self.tokens[i].t_type == TType::InnerName {
                 for (name, next_t_type, new_t_type) in name_and_symbol_tbl.iter() {
                     if self.tokens[i].name.as_str() == *name &&
+                       self.tokens[i-1].t_type != TType::Dollar &&
                        self.tokens[i+1].t_type == *next_t_type {
                         self.tokens[i].t_type = new_t_type.clone();
                     }
-- 
2.43.0


From cbed48a43428b726673999ea15487b11db84d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:53 +0000
Subject: [PATCH 45/54] fix: a number has one exponent only

---
 src/xpath_impl/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index 4edfdb0..b21ee42 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -650,8 +650,8 @@ impl Lexer {
                 numeric_literal.push_str(&self.fetch_numeric_after_period()?);
             } else {
                 self.unread_rune();
+                numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             }
-            numeric_literal.push_str(&self.fetch_numeric_after_e()?);
             return Ok(numeric_literal);
         } else if ch1 == '.' {
             self.unread_rune();
-- 
2.43.0


From 3cc35d52b05825e2b7b8ba7d499b7a0cec613df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:20 +0000
Subject: [PATCH 46/54] fix: an operator may stand behind the occurrence
 indicator of a type

---
 src/xpath_impl/lexer.rs  | 33 +++++++++++++++++++++++++++++----
 src/xpath_impl/parser.rs |  2 ++
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index b21ee42..cd9d574 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -401,7 +401,7 @@ impl Lexer {
     //       prev_t_typesにはコロン (:) も加える必要がある。
     // (註2) XPath 2.0 でさらにトークン種を追加した。
     //
-    fn rewrite_operator_type(&mut self) {
+    fn operand_follows(t_type: &TType) -> bool {
         let prev_t_types = [
             TType::EOF,             // 前にトークンがない場合はこの状態
             TType::At,
@@ -450,8 +450,15 @@ impl Lexer {
             TType::LeftCurly,
             TType::OperatorMap,
             TType::OperatorConcat,
+            TType::Question,
         ];
+        return prev_t_types.contains(t_type);
+    }
 
+    // -----------------------------------------------------------------
+    // 名前 name に対応する演算子のトークン種。
+    //
+    fn operator_type_of(name: &str) -> Option<TType> {
         let operator_words: HashMap<&str, TType> = [
             ( "and",       TType::And ),
             ( "or",        TType::Or ),
@@ -470,18 +477,36 @@ impl Lexer {
             ( "intersect", TType::Intersect ),      // (註2)
             ( "except",    TType::Except ),         // (註2)
         ].iter().cloned().collect();
+        return operator_words.get(name).cloned();
+    }
+
+    // -----------------------------------------------------------------
+    // 現在のトークンが名前であり、しかも演算子名にもなり得る場合、演算子とする。
+    // 型の出現標識の後では、字句解析器だけで判別できないので、
+    // 構文解析器からこれを呼ぶ。
+    //
+    pub fn name_to_operator(&mut self) {
+        if self.tokens[self.index].t_type == TType::Name {
+            if let Some(op_type) = Lexer::operator_type_of(self.tokens[self.index].name.as_str()) {
+                self.tokens[self.index].t_type = op_type;
+            }
+        }
+    }
 
+    // -----------------------------------------------------------------
+    //
+    fn rewrite_operator_type(&mut self) {
         // 「*」の前が被演算子でない場合、この「*」は乗算演算子ではなく
         // ワイルドカードであり、その後の名前は演算子名になり得る。
         let mut i = 1;
         let mut operator_allowed = false;
         while self.tokens[i].t_type != TType::EOF {
-            operator_allowed = ! prev_t_types.contains(&self.tokens[i-1].t_type) ||
+            operator_allowed = ! Lexer::operand_follows(&self.tokens[i-1].t_type) ||
                 self.tokens[i-1].t_type == TType::Asterisk && ! operator_allowed;
             if operator_allowed &&
                self.tokens[i].t_type == TType::InnerName {
-                if let Some(op_type) = operator_words.get(self.tokens[i].name.as_str()) {
-                    self.tokens[i].t_type = op_type.clone();
+                if let Some(op_type) = Lexer::operator_type_of(self.tokens[i].name.as_str()) {
+                    self.tokens[i].t_type = op_type;
                 }
             }
             i += 1;
diff --git a/src/xpath_impl/parser.rs b/src/xpath_impl/parser.rs
index 08a0528..99ca57d 100644
--- a/src/xpath_impl/parser.rs
+++ b/src/xpath_impl/parser.rs
@@ -1323,6 +1323,7 @@ fn parse_sequence_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         match tok.get_type() {
             TType::Question | TType::Asterisk | TType::Plus => {
                 lex.get_token();
+                lex.name_to_operator();
                 occurence_indicator = tok.get_name();
             },
             _ => {},
@@ -1632,6 +1633,7 @@ fn parse_single_type(lex: &mut Lexer) -> Result<XNodePtr, Box<Error>> {
         let tok = lex.next_token();
         if tok.get_type() == TType::Question {
             lex.get_token();
+            lex.name_to_operator();
             eqname += tok.get_name();
         }
         let single_type_xnode = new_xnode(XNodeType::SingleType, "");
-- 
2.43.0


From c1134111095af24d96bd94ba4917af0babce615d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:06 +0000
Subject: [PATCH 47/54] fix: cast, castable and treat name a variable in front
 of its type

---
 src/xpath_impl/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/lexer.rs b/src/xpath_impl/lexer.rs
index cd9d574..c38ad5b 100644
--- a/src/xpath_impl/lexer.rs
+++ b/src/xpath_impl/lexer.rs
@@ -526,7 +526,8 @@ impl Lexer {
         ];
         let mut i = 1;
         while self.tokens[i].t_type != TType::EOF {
-            if self.tokens[i].t_type == TType::InnerName &&
+            if self.tokens[i-1].t_type != TType::Dollar &&
+               self.tokens[i].t_type == TType::InnerName &&
                self.tokens[i+1].t_type == TType::InnerName {
                 for (str1, str2, t_type) in operator_pair_words.iter() {
                     if self.tokens[i].name.as_str() == *str1 &&
-- 
2.43.0


From 4e6363e597e5ddcb230677278e034aaf52197785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 48/54] fix: a parenthesized item type matches what the type in
 it matches

---
 src/xpath_impl/eval.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 998c624..8e18d04 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1642,7 +1642,7 @@ pub fn call_function(func_xnode: &XNodePtr,
 //                  | MapTest
 //                  | ArrayTest
 //                  | AtomicOrUnionType
-//                  | ParenthesizedItemType                            ☆
+//                  | ParenthesizedItemType
 // [ 82] AtomicOrUnionType ::= EQName
 // [102] FunctionTest ::= AnyFunctionTest
 //                      | TypedFunctionTest
@@ -1654,7 +1654,7 @@ fn match_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<bool, Box<E
                 get_xnode_type(xnode)));
     }
 
-    let type_xnode = get_left(xnode);
+    let type_xnode = get_item_type(xnode);
 
     // -----------------------------------------------------------------
     // empty-sequence()
@@ -1704,11 +1704,6 @@ fn match_sequence_type(xseq: &XSequence, xnode: &XNodePtr) -> Result<bool, Box<E
             return Ok(match_sequence_atomic_or_union_type(xseq, &type_xnode));
         },
 
-        XNodeType::ParenthesizedItemType => {
-            // =====================================================
-            return Ok(false);
-        },
-
         _ => {
             return Err(cant_occur!(
                 "match_sequence_type: xnodeの左辺値のxnode_typeが想定外: {:?}",
@@ -2015,6 +2010,17 @@ fn match_sequence_atomic_or_union_type(xseq: &XSequence, type_xnode: &XNodePtr)
     return true;
 }
 
+// ---------------------------------------------------------------------
+// シーケンス型のアイテム型。ParenthesizedItemTypeは、括弧の中にある型とする。
+//
+fn get_item_type(xnode: &XNodePtr) -> XNodePtr {
+    let mut type_xnode = get_left(xnode);
+    while get_xnode_type(&type_xnode) == XNodeType::ParenthesizedItemType {
+        type_xnode = get_left(&type_xnode);
+    }
+    return type_xnode;
+}
+
 // ---------------------------------------------------------------------
 // シーケンスに含まれるアイテムの個数 (OccurenceIndicator) を照合する。
 // indicator: ? | * | + | ""
@@ -2056,14 +2062,14 @@ fn subtype(a: &XNodePtr, b: &XNodePtr) -> bool {
     match SUBTYPE_TBL[subtype_entry(a)][subtype_entry(b)] {
         0 => return false,
         1 => return true,
-        _ => return subtype_itemtype(&get_left(a), &get_left(b)),
+        _ => return subtype_itemtype(&get_item_type(a), &get_item_type(b)),
     }
 }
 
 fn subtype_entry(xnode: &XNodePtr) -> usize {
     // assert: get_xnode_type(xnode) == XNodeType::SequenceType
 
-    let type_xnode = get_left(xnode);
+    let type_xnode = get_item_type(xnode);
     if get_xnode_type(&type_xnode) == XNodeType::EmptySequenceTest {
         return S_EMPTY_SEQ;
     }
-- 
2.43.0


From 6c9f0466591b583fff521a394030caf4c72fb5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 49/54] fix: a function item is an item

---
 src/xpath_impl/xitem.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/xpath_impl/xitem.rs b/src/xpath_impl/xitem.rs
index 3f55d3d..148b732 100644
--- a/src/xpath_impl/xitem.rs
+++ b/src/xpath_impl/xitem.rs
@@ -490,10 +490,7 @@ impl XItem {
     // An item is either an atomic value, a node, or a function.
     //
     pub fn is_item(&self) -> bool {
-        match self {
-            XItem::XItemXNodePtr{value: _} => return false,
-            _ => return true,
-        }
+        return true;
     }
 
     // -----------------------------------------------------------------
-- 
2.43.0


From 198b018a79c16cf0d2def39b9389984498e6ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 50/54] fix: compare the names of processing-instruction types
 in function signatures

---
 src/xpath_impl/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 8e18d04..3831b1f 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2186,7 +2186,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
                 }
             },
             XNodeType::PITest => {                          // 9. 10.
-                let pi_name = get_xnode_name(bi);
+                let pi_name = get_xnode_name(&get_left(bi));
                 if pi_name == "" {
                     if get_xnode_type(ai) == XNodeType::KindTest &&
                        get_xnode_type(&get_left(ai)) == XNodeType::PITest {
-- 
2.43.0


From 5280f1dd49db2b7c4e099350d4ed58ffdd99fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:25 +0000
Subject: [PATCH 51/54] fix: signatures of normalize-space, string-join,
 one-or-more, exactly-one, sum and string-to-codepoints

---
 src/xpath_impl/func.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/xpath_impl/func.rs b/src/xpath_impl/func.rs
index aa08b67..9405f78 100644
--- a/src/xpath_impl/func.rs
+++ b/src/xpath_impl/func.rs
@@ -42,20 +42,20 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:number#0", "function() as xs:double" ),
     ( "fn:number#1", "function(xs:anyAtomicType?) as xs:double" ),
     ( "fn:codepoints-to-string#1", "function(xs:integer*) as xs:string" ),
-    ( "fn:string-to-codepoints#1", "function(xs:string*) as xs:integer*" ),
+    ( "fn:string-to-codepoints#1", "function(xs:string?) as xs:integer*" ),
     ( "fn:compare#2", "function(xs:string?, xs:string?) as xs:integer?" ),
     ( "fn:compare#3", "function(xs:string?, xs:string?, xs:string) as xs:integer?" ),
     ( "fn:codepoint-equal#2", "function(xs:string?, xs:string?) as xs:boolean?" ),
     ( "fn:concat#2", "function(xs:anyAtomicType?, xs:anyAtomicType?) as xs:string" ),
         // concatの引数は2個以上 (上限なし)
-    ( "fn:string-join#1", "function(xs:string*) as xs:string" ),
-    ( "fn:string-join#2", "function(xs:string*, xs:string) as xs:string" ),
+    ( "fn:string-join#1", "function(xs:anyAtomicType*) as xs:string" ),
+    ( "fn:string-join#2", "function(xs:anyAtomicType*, xs:string) as xs:string" ),
     ( "fn:substring#2", "function(xs:string?, xs:double) as xs:string" ),
     ( "fn:substring#3", "function(xs:string?, xs:double, xs:double) as xs:string" ),
     ( "fn:string-length#0", "function() as xs:integer" ),
     ( "fn:string-length#1", "function(xs:string?) as xs:integer" ),
-    ( "fn:normalize-space#0", "function() as xs:integer" ),
-    ( "fn:normalize-space#1", "function(xs:string?) as xs:integer" ),
+    ( "fn:normalize-space#0", "function() as xs:string" ),
+    ( "fn:normalize-space#1", "function(xs:string?) as xs:string" ),
     ( "fn:upper-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:lower-case#1", "function(xs:string?) as xs:string" ),
     ( "fn:translate#3", "function(xs:string?, xs:string, xs:string) as xs:string" ),
@@ -95,15 +95,15 @@ const FUNC_SIGNATURE_TBL: [(
     ( "fn:index-of#2", "function(xs:anyAtomicType*, xs:anyAtomicType) as xs:integer*" ),
     ( "fn:index-of#3", "function(xs:anyAtomicType*, xs:anyAtomicType, xs:string) as xs:integer*" ),
     ( "fn:zero-or-one#1", "function(item()*) as item()?" ),
-    ( "fn:one-or-more#1", "function(item()*) as item()?" ),
-    ( "fn:exactly-one#1", "function(item()*) as item()?" ),
+    ( "fn:one-or-more#1", "function(item()*) as item()+" ),
+    ( "fn:exactly-one#1", "function(item()*) as item()" ),
     ( "fn:count#1", "function(item()*) as xs:integer" ),
     ( "fn:avg#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:max#2", "function(xs:anyAtomicType*, xs:string) as xs:anyAtomicType?" ),
     ( "fn:min#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
     ( "fn:min#2", "function(xs:anyAtomicType*, xs:string) as xs:anyAtomicType?"  ),
-    ( "fn:sum#1", "function(xs:anyAtomicType*) as xs:anyAtomicType?" ),
+    ( "fn:sum#1", "function(xs:anyAtomicType*) as xs:anyAtomicType" ),
     ( "fn:sum#2", "function(xs:anyAtomicType*, xs:anyAtomicType?) as xs:anyAtomicType?" ),
     ( "fn:position#0", "function() as xs:integer" ),
     ( "fn:last#0", "function() as xs:integer" ),
-- 
2.43.0


From 3e7df43940d7058bd1dfe3a46013c8993db50733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:54 +0000
Subject: [PATCH 52/54] fix: a map or array is a function of exactly one
 argument in function signatures

---
 src/xpath_impl/eval.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 3831b1f..86e982c 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -2328,7 +2328,8 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let param_xnode = get_right(&ret_xnode);  // Param
         let seq_xnode = get_left(&param_xnode);   // SequenceType
         let bi_key = get_left(&seq_xnode);          // AtomicOrUnionType
-        if subtype_itemtype(&ai_key, &bi_key) &&
+        if is_nil_xnode(&get_right(&param_xnode)) &&    // 引数は1個
+           subtype_itemtype(&ai_key, &bi_key) &&
            subtype(&ai_val, &bi_val) {
             return true;
         }
@@ -2385,7 +2386,8 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let param_xnode = get_right(&ret_xnode);  // Param
         let seq_xnode = get_left(&param_xnode);   // SequenceType
         let bi_arg = get_left(&seq_xnode);          // AtomicOrUnitonType
-        if derives_from("xs:integer", &get_xnode_name(&bi_arg)) &&
+        if is_nil_xnode(&get_right(&param_xnode)) &&    // 引数は1個
+           derives_from("xs:integer", &get_xnode_name(&bi_arg)) &&
            subtype(&ai_elem, &bi_elem) {
             return true;
         }
-- 
2.43.0


From da38dde3305b0cc4681216268f5ddf5c21afc93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:04 +0000
Subject: [PATCH 53/54] fix: a partial function call has the type of the
 function with its open arguments only

---
 src/xpath_impl/eval.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 86e982c..5f5322c 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1808,6 +1808,7 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
         if let Ok(xnode) = xitem.get_as_raw_xnodeptr() {
 
             let sig_xnode: XNodePtr;
+            let mut is_bound: Vec<bool> = vec!{};       // 部分函数呼び出しの引数
 
             match get_xnode_type(&xnode) {
 
@@ -1833,8 +1834,23 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
                     sig_xnode = xnode.clone();
                 },
 
+                // -----------------------------------------------------
+                // (部分函数呼び出し)
+                // 呼び出す函数のシグニチャーを構文木に変換する。
+                //
                 XNodeType::PartialFunctionCall => {
-                    sig_xnode = xnode.clone();
+                    let mut arg = get_right(&xnode);
+                    while ! is_nil_xnode(&arg) {
+                        is_bound.push(get_xnode_type(&arg) != XNodeType::ArgumentPlaceholder);
+                        arg = get_right(&arg);
+                    }
+                    let func_name = format!("{}#{}", get_xnode_name(&xnode), is_bound.len());
+                    let signature = get_function_signature(func_name.as_str());
+                    if signature == "" {
+                        return Ok(false);
+                    }
+                    let mut lex = Lexer::new(&signature)?;
+                    sig_xnode = parse_function_test(&mut lex)?;
                 },
                 _ => {
                     return Ok(false);
@@ -1842,8 +1858,15 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
             }
 
             let mut i = 0;
+            let mut n = 0;
             let mut curr = get_right(&sig_xnode);
             while ! is_nil_xnode(&curr) {
+                // 部分函数呼び出しの場合、「?」でない引数は除外する。
+                n += 1;
+                if 2 <= n && n - 2 < is_bound.len() && is_bound[n - 2] {
+                    curr = get_right(&curr);
+                    continue;
+                }
                 if signature_xnode.len() <= i {     // 引数が多い。
                     return Ok(false);
                 }
-- 
2.43.0


From 0d63a196626d9a62600e0e76aeb7ea353b477bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:08 +0000
Subject: [PATCH 54/54] fix: parenthesised parameter types of function tests
 against maps and arrays

---
 src/xpath_impl/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/xpath_impl/eval.rs b/src/xpath_impl/eval.rs
index 5f5322c..e74fb66 100644
--- a/src/xpath_impl/eval.rs
+++ b/src/xpath_impl/eval.rs
@@ -1900,7 +1900,7 @@ fn match_sequence_typed_function_test(xseq: &XSequence, type_xnode: &XNodePtr) -
             if signature_xnode.len() != 2 {
                 return Ok(false);
             }
-            let key_type = get_xnode_name(&get_left(&signature_xnode[1]));
+            let key_type = get_xnode_name(&get_item_type(&signature_xnode[1]));
             if ! match_map_sequence_type(&xseq_map, &key_type, &signature_xnode[0])? {
                 return Ok(false);
             }
@@ -2350,7 +2350,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let bi_val = get_left(&ret_xnode);          // SequenceType
         let param_xnode = get_right(&ret_xnode);  // Param
         let seq_xnode = get_left(&param_xnode);   // SequenceType
-        let bi_key = get_left(&seq_xnode);          // AtomicOrUnionType
+        let bi_key = get_item_type(&seq_xnode);          // AtomicOrUnionType
         if is_nil_xnode(&get_right(&param_xnode)) &&    // 引数は1個
            subtype_itemtype(&ai_key, &bi_key) &&
            subtype(&ai_val, &bi_val) {
@@ -2408,7 +2408,7 @@ fn subtype_itemtype(ai: &XNodePtr, bi: &XNodePtr) -> bool {
         let bi_elem = get_left(&ret_xnode);         // SequenceType
         let param_xnode = get_right(&ret_xnode);  // Param
         let seq_xnode = get_left(&param_xnode);   // SequenceType
-        let bi_arg = get_left(&seq_xnode);          // AtomicOrUnitonType
+        let bi_arg = get_item_type(&seq_xnode);          // AtomicOrUnitonType
         if is_nil_xnode(&get_right(&param_xnode)) &&    // 引数は1個
            derives_from("xs:integer", &get_xnode_name(&bi_arg)) &&
            subtype(&ai_elem, &bi_elem) {
-- 
2.43.0

