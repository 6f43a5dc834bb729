"""The signatures of the functions of the library (XPath and XQuery Functions and Operators 3.1): the types of the parameters and
of the result, where the crate says what type a reference to the function has."""
S, SQ, I, D, B, N, NQ, IT, ITQ, ITS = 'xs:string', 'xs:string?', 'xs:integer', 'xs:double', 'xs:boolean', 'xs:numeric?', 'node()?', 'item()', \
    'item()?', 'item()*'
A, AQ, AS = 'xs:anyAtomicType', 'xs:anyAtomicType?', 'xs:anyAtomicType*'
SIGNATURES = {
    'fn:nilled#0': ([], 'xs:boolean?'), 'fn:nilled#1': ([NQ], 'xs:boolean?'), 'fn:string#0': ([], S), 'fn:string#1': ([ITQ], S),
    'fn:data#0': ([], AS), 'fn:data#1': ([ITS], AS), 'fn:abs#1': ([N], N), 'fn:ceiling#1': ([N], N), 'fn:floor#1': ([N], N),
    'fn:round#1': ([N], N), 'fn:number#0': ([], D), 'fn:number#1': ([AQ], D), 'fn:codepoints-to-string#1': (['xs:integer*'], S),
    'fn:string-to-codepoints#1': ([SQ], 'xs:integer*'), 'fn:compare#2': ([SQ, SQ], 'xs:integer?'),
    'fn:compare#3': ([SQ, SQ, S], 'xs:integer?'), 'fn:codepoint-equal#2': ([SQ, SQ], 'xs:boolean?'), 'fn:concat#2': ([AQ, AQ], S),
    'fn:string-join#1': ([AS], S), 'fn:string-join#2': ([AS, S], S), 'fn:substring#2': ([SQ, D], S), 'fn:substring#3': ([SQ, D, D], S),
    'fn:string-length#0': ([], I), 'fn:string-length#1': ([SQ], I), 'fn:normalize-space#0': ([], S), 'fn:normalize-space#1': ([SQ], S),
    'fn:upper-case#1': ([SQ], S), 'fn:lower-case#1': ([SQ], S), 'fn:translate#3': ([SQ, S, S], S), 'fn:true#0': ([], B),
    'fn:false#0': ([], B), 'fn:boolean#1': ([ITS], B), 'fn:not#1': ([ITS], B), 'fn:name#0': ([], S), 'fn:name#1': ([NQ], S),
    'fn:local-name#0': ([], S), 'fn:local-name#1': ([NQ], S), 'fn:namespace-uri#0': ([], 'xs:anyURI'),
    'fn:namespace-uri#1': ([NQ], 'xs:anyURI'), 'fn:lang#1': ([SQ], B), 'fn:lang#2': ([SQ, 'node()'], B), 'fn:root#0': ([], 'node()'),
    'fn:root#1': ([NQ], NQ), 'fn:empty#1': ([ITS], B), 'fn:exists#1': ([ITS], B), 'fn:head#1': ([ITS], ITQ), 'fn:tail#1': ([ITS], ITS),
    'fn:insert-before#3': ([ITS, I, ITS], ITS), 'fn:remove#2': ([ITS, I], ITS), 'fn:reverse#1': ([ITS], ITS),
    'fn:subsequence#2': ([ITS, D], ITS), 'fn:subsequence#3': ([ITS, D, D], ITS), 'fn:index-of#2': ([AS, A], 'xs:integer*'),
    'fn:index-of#3': ([AS, A, S], 'xs:integer*'), 'fn:zero-or-one#1': ([ITS], ITQ), 'fn:one-or-more#1': ([ITS], 'item()+'),
    'fn:exactly-one#1': ([ITS], IT), 'fn:count#1': ([ITS], I), 'fn:avg#1': ([AS], AQ), 'fn:max#1': ([AS], AQ), 'fn:max#2': ([AS, S], AQ),
    'fn:min#1': ([AS], AQ), 'fn:min#2': ([AS, S], AQ), 'fn:sum#1': ([AS], A), 'fn:sum#2': ([AS, AQ], AQ), 'fn:position#0': ([], I),
    'fn:last#0': ([], I), 'fn:for-each#2': ([ITS, 'function(item()) as item()*'], ITS),
    'fn:filter#2': ([ITS, 'function(item()) as xs:boolean'], ITS), 'map:size#1': (['map(*)'], I), 'map:keys#1': (['map(*)'], AS),
    'map:contains#2': (['map(*)', A], B), 'map:get#2': (['map(*)', A], ITS), 'array:size#1': (['array(*)'], I),
    'array:get#2': (['array(*)', I], ITS), 'array:flatten#1': ([ITS], ITS),
}
for _n in ('contains', 'starts-with', 'ends-with'):
    SIGNATURES['fn:%s#2' % _n] = ([SQ, SQ], B)
    SIGNATURES['fn:%s#3' % _n] = ([SQ, SQ, S], B)
for _n in ('substring-before', 'substring-after'):
    SIGNATURES['fn:%s#2' % _n] = ([SQ, SQ], S)
    SIGNATURES['fn:%s#3' % _n] = ([SQ, SQ, S], S)


def parse(text):
    """a signature as written: function(T, T) as T -> (list of parameter types, result type) or None"""
    t = ' '.join(text.replace('(', ' ( ').replace(')', ' ) ').replace(',', ' , ').split())
    if not t.startswith('function ( '):
        return None
    depth, i, parts, cur = 1, len('function ( '), [], ''
    words = t[i:].split(' ')
    for k, w in enumerate(words):
        depth += (w == '(') - (w == ')')
        if depth == 0:
            rest = words[k + 1:]
            if cur:
                parts.append(tidy(cur))
            elif parts:
                return None
            if not rest or rest[0] != 'as':
                return None
            return parts, tidy(' '.join(rest[1:]))
        if w == ',' and depth == 1:
            parts.append(tidy(cur))
            cur = ''
        else:
            cur += ' ' + w
    return None


def tidy(t):
    t = t.replace(' ', '').replace(')as', ') as ').replace(',', ', ')
    return 'xs:' + t if t.rstrip('?*+') == 'numeric' else t
