"""The functions of the library (XPath and XQuery Functions and Operators 3.1) that the crate offers, with their numbers of
arguments (None: any number) and whether they work on the context item."""
ANY = None
FUNCTIONS = {
    'fn:nilled': (0, 1), 'fn:string': (0, 1), 'fn:data': (0, 1), 'fn:number': (0, 1), 'fn:string-length': (0, 1),
    'fn:normalize-space': (0, 1), 'fn:name': (0, 1), 'fn:local-name': (0, 1), 'fn:namespace-uri': (0, 1), 'fn:root': (0, 1),
    'fn:lang': (1, 2), 'fn:position': (0,), 'fn:last': (0,), 'fn:for-each': (2,), 'fn:filter': (2,),
    'fn:abs': (1,), 'fn:ceiling': (1,), 'fn:floor': (1,), 'fn:round': (1,),
    'fn:codepoints-to-string': (1,), 'fn:string-to-codepoints': (1,), 'fn:compare': (2,), 'fn:codepoint-equal': (2,),
    'fn:concat': ANY, 'fn:string-join': (1, 2), 'fn:substring': (2, 3), 'fn:upper-case': (1,), 'fn:lower-case': (1,),
    'fn:translate': (3,), 'fn:contains': (2,), 'fn:starts-with': (2,), 'fn:ends-with': (2,), 'fn:substring-before': (2,),
    'fn:substring-after': (2,), 'fn:true': (0,), 'fn:false': (0,), 'fn:boolean': (1,), 'fn:not': (1,),
    'fn:empty': (1,), 'fn:exists': (1,), 'fn:head': (1,), 'fn:tail': (1,), 'fn:insert-before': (3,), 'fn:remove': (2,),
    'fn:reverse': (1,), 'fn:subsequence': (2, 3), 'fn:index-of': (2,), 'fn:zero-or-one': (1,), 'fn:one-or-more': (1,),
    'fn:exactly-one': (1,), 'fn:count': (1,), 'fn:avg': (1,), 'fn:max': (1,), 'fn:min': (1,), 'fn:sum': (1, 2),
    'map:size': (1,), 'map:keys': (1,), 'map:contains': (2,), 'map:get': (2,),
    'array:size': (1,), 'array:get': (2,), 'array:flatten': (1,),
}
