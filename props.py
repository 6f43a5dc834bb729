AI = 'static analysis: path-sensitive abstract interpretation of MIR'
TRUST = ('Trusts rustc\'s MIR, the models of the std functions the code calls (amx/models.py) and the abstract '
         'interpreter; loops are widened, so the verdict covers every input length. Allocation failure, stack '
         'exhaustion and inputs longer than 2^63-1 are out of scope. ')
SAX = ['src/sax.rs']
XML = ['src/sax.rs', 'src/dom.rs']
EVAL = ['src/xpath_impl/eval.rs']
STEP = 'Induction over the expression: evaluating a part is a term over context, part and environment. '

PROPS = [
 dict(id='X01', title='Parsing an XML text always terminates',
  statement='Parsing any text as an XML document ends after finitely many steps, with either a document or an error: the parser never loops for ever, whatever the text and wherever it is cut off.',
  q='every string given to the XML parser, including every truncation of every document',
  why='Tests parse a handful of well-formed documents; non-termination shows only on malformed or truncated inputs nobody wrote down.',
  files=XML, mech=[('tokenizer', 'src/sax.rs SaxDecoder::raw_token'), ('document builder', 'src/dom.rs new_document')],
  tech=AI + ', ranking-function inference', note=TRUST + 'Shows for every loop a strictly monotone bounded integer on each way round, and that each non-EOF token moves the read position.'),
 dict(id='X02', title='Parsing an XML text never panics',
  statement='Parsing any text as an XML document never panics: no index is out of range, no arithmetic overflows, no failed unwrap is reached. Malformed text is reported as an error value.',
  q='every string given to the XML parser',
  why='A panic needs an input shape the tests do not contain (end of input inside a construct, unmatched end tag, odd character reference).',
  files=XML, mech=[('tokenizer', 'src/sax.rs SaxDecoder::raw_token, decode_entity'), ('document builder', 'src/dom.rs new_document')],
  tech=AI + ', panic-obligation discharge', note=TRUST + 'Every MIR assertion and every modelled panicking call on every path is discharged.'),
 dict(id='X03', title='Truncated markup and unbalanced tags are rejected',
  statement='An XML text that ends inside a tag, comment, CDATA section, processing instruction or declaration, that leaves an element open, that has an end tag which does not match the innermost open element, or that has a start tag without a name, is rejected with an error. Each piece of markup ends at its own closing delimiter, and a document is returned only when the whole text has been read.',
  q='every string given to the XML parser',
  why='The space of malformed documents is unbounded; tests try two or three.',
  files=XML, mech=[('closing delimiters, end of input', 'src/sax.rs SaxDecoder::raw_token'), ('tag balance', 'src/dom.rs new_document')],
  tech=AI, note=TRUST + 'Each path that returns a token proves the delimiter stands right before the new position; each path returning a document proves EOF with the root current.'),
 dict(id='X04', title='Entities are decoded once, and escaping is the inverse of decoding',
  statement='In character data and attribute values of a parsed XML text each of &lt; &gt; &amp; &quot; &apos; and each decimal or hexadecimal character reference is replaced by the character it denotes, exactly once (the result is not decoded again), and all other text stays as it is. When text and attribute values are serialized, exactly & < > " and \' are written as their entity reference and every other character as itself, so decoding gives the original value back.',
  q='every text and attribute value',
  why='Combinations such as "&amp;lt;" or adjacent references need inputs the tests do not have.',
  files=XML, mech=[('decoding', 'src/sax.rs decode_entity, decode_reference'), ('escaping', 'src/dom.rs encode_entity')],
  tech=AI + ', fold read-back and character-map extraction', note=TRUST + 'Invalid references only have to become one character.'),
 dict(id='X05', title='Each piece of an XML text becomes its node in the tree',
  statement='Parsing an XML text yields a document node whose tree mirrors the text: each start tag becomes an element with its name and, in order, an attribute node with name and value for each attribute, each run of character data or CDATA section a text node, each comment a comment node, each processing instruction an instruction node with target and data, and the XML declaration an XML declaration node. Each node is appended, in source order, to the innermost element open at that point, which is its parent; end tags return to the parent element and declarations such as DOCTYPE add nothing.',
  q='every well-formed XML text',
  why='The tree has to be right for every nesting and order of markup, not only the few sample documents.',
  files=XML, mech=[('document builder', 'src/dom.rs new_document, make_new_child_rc_node')],
  tech=AI + ' with an abstract heap', note=TRUST + 'What the tokens contain is X07.'),
 dict(id='X06', title='XML names consist of exactly the characters XML 1.0 allows',
  statement='In an XML text the characters that can start a name are exactly Letter, "_" and ":" of XML 1.0 (fourth edition, Appendix B), the characters that can continue it are exactly its NameChar, and a name ends in front of the first character that is not one. White space between the parts of a tag is exactly space, tab, carriage return and line feed.',
  q='every Unicode code point at every position of a name',
  why='There are 1.1 million code points and some 300 ranges; a test uses a dozen ASCII letters.',
  files=SAX, mech=[('character classes', 'src/sax.rs is_name_first_char, is_name_char, is_space'), ('names', 'src/sax.rs SaxDecoder::get_name')],
  tech=AI + ', exact code point sets from path conditions', note=TRUST + 'The reference table was compared with the one in expat when it was frozen.'),
 dict(id='X07', title='Text and attribute values are taken over verbatim',
  statement='The content of character data, CDATA sections, comments, processing instructions, names and attribute values in the tokens of an XML text is exactly the characters of the source text (without its carriage returns) between the delimiters of that piece, in order, none lost, added or changed, apart from the decoding of entity and character references in character data and attribute values. An attribute value ends at the same quote character that opened it, and the end of an empty-element tag is delivered as an end tag of the same name.',
  q='every string given to the XML parser',
  why='A character lost at one particular delimiter combination (for example "--" or "]]" in front of something else) needs an input the tests do not have.',
  files=SAX, mech=[('text gathering', 'src/sax.rs SaxDecoder::raw_token')],
  tech=AI + ', relational loop invariants', note=TRUST + 'Gathering loops are shown to append exactly the characters the position moves over.'),
 dict(id='X08', title='Serializing a node writes exactly its XML form',
  statement='Converting a node to a string without indentation gives exactly: for a document its children one after the other; for an element "<name", then for every attribute in order a space and name="escaped value", then "/>" if it has no children, else ">", its children in order and "</name>"; for a text its escaped value, for a comment <!--value-->, for an instruction <?target data?>, for an XML declaration <?xml data?>. The inner XML of a node is the strings of its children one after the other.',
  q='every tree',
  why='Tests serialize a few small documents; an omitted attribute, a skipped last child or a wrong closing tag depends on the shape of the tree.',
  files=['src/dom.rs'], mech=[('serializer', 'src/dom.rs to_string_with_indent, NodePtr::to_string, inner_xml')],
  tech=AI + ', read-back of the concatenated text', note=TRUST + 'Induction over the tree: the recursive call on a child is assumed to serialize that child.'),
 dict(id='D01', title='Inserting, replacing and deleting nodes changes exactly the requested place',
  statement='append_child adds a deep copy of the given node behind the last child; insert_as_previous_sibling and insert_as_next_sibling add a deep copy directly in front of or behind the receiver in its parent\'s list of children; delete_child removes exactly the given child; replace_with puts a deep copy in the place of the receiver. All other children stay, in their order, the source node is not changed, and when the receiver has no parent, or the target is not a child, nothing happens. A deep copy is a new node with the same type, name and value, copies of all children and attributes in the same order, and parent links to the new place.',
  q='every tree, every node in it, every sequence of edits',
  why='Off-by-one positions, shallow copies and wrong parent links depend on where in which tree the edit happens; tests edit one or two small documents.',
  files=['src/dom.rs'], mech=[('edits', 'src/dom.rs NodePtr::append_child, insert_as_previous_sibling, insert_as_next_sibling, delete_child, replace_with'), ('copies', 'src/dom.rs deep_copy_rc_node')],
  tech=AI + ' with an abstract heap, induction for the recursive copy', note=TRUST),
 dict(id='D02', title='Setting, deleting and reading attributes by name',
  statement='set_attribute gives the element exactly one attribute of the given name and value: an attribute of that name is replaced in its place, otherwise the new one is added behind the last; its parent is the element. delete_attribute removes exactly the attribute of that name. attribute_value is the value of the attribute with exactly that name, and None if there is none. All other attributes stay as they are and in order.',
  q='every element, every name and value, every history of edits',
  why='Which attribute is hit, and where it ends up, depends on position and on the presence of similar names.',
  files=['src/dom.rs'], mech=[('attributes', 'src/dom.rs NodePtr::set_attribute, delete_attribute, attribute_value, find_attribute_index')],
  tech=AI + ' with an abstract heap', note=TRUST + 'Assumes an element has no two attributes of the same name to begin with.'),
 dict(id='D03', title='Document order is that of the current tree',
  statement='document_order gives, for any two nodes of a tree as it is now, a smaller number to the one that comes first in document order: a node before its attributes, attributes in their order before the children, each child with all that is below it before the next child. That also holds after any sequence of edits (append, insert, replace, delete, setting and deleting attributes) between two queries.',
  q='every tree and every history of queries and edits',
  why='A number cached before an edit is wrong only in a particular query-edit-query sequence.',
  files=['src/dom.rs'], mech=[('numbering', 'src/dom.rs NodePtr::setup_document_order_sub, document_order'), ('invalidation', 'src/dom.rs NodePtr::clear_document_order')],
  tech=AI + ' with inductive contracts, effect analysis', note=TRUST + 'Fewer than 2^62 nodes. A node removed from its tree is no longer part of it.'),
 dict(id='D04', title='Navigation follows the links of the tree',
  statement='parent gives the node under which a node hangs, or None for the topmost node; children and attributes give all of them in order; first_child and nth_child(n) give the child at that position or None; root gives the topmost ancestor (the node itself if it has no parent) and root_element the first element among its children, or the topmost node if there is none; name, value and node_type give what the node was made with. Two node references are equal exactly when they refer to the same node, and asking changes nothing.',
  q='every node of every tree, including trees whose document node has been dropped',
  why='Wrong navigation at an edge (last child, no element, dropped root, equal-looking siblings) needs a tree shape the tests lack.',
  files=['src/dom.rs'], mech=[('navigation', 'src/dom.rs NodePtr::parent, children, attributes, first_child, nth_child, root, root_element'), ('identity', 'src/dom.rs PartialEq for NodePtr')],
  tech=AI, note=TRUST),
 dict(id='D05', title='Qualified names and namespaces',
  statement='local_name is the part of the name behind its first colon, or the whole name if there is none; space_name is the part in front of the first colon, or empty. namespace_uri of an element is the value of the attribute named xmlns (if the prefix is empty) or xmlns:prefix on the nearest element, going up from the element itself through its ancestors, that has such an attribute, and empty if none has.',
  q='every name and every nesting of namespace declarations',
  why='Shadowed declarations, names with several colons and missing prefixes need inputs outside the tests.',
  files=['src/dom.rs'], mech=[('names', 'src/dom.rs NodePtr::local_name, space_name, namespace_uri')],
  tech=AI, note=TRUST),
 dict(id='D06', title='Queries leave the document unchanged',
  statement='Only the editing functions (append_child, insert_as_previous_sibling, insert_as_next_sibling, delete_child, replace_with, set_attribute, delete_attribute) change a document. Navigation, reading names, values and attributes, comparing nodes, serializing, document_order, and compiling and evaluating any XPath expression, successfully or not, change no node: no type, name, value, list of children or attributes, or parent.',
  q='every document, every query, every expression',
  why='A write hidden in one branch of one function of the evaluator would need an expression that reaches that branch and a later look at the tree.',
  files=['src/dom.rs', 'src/xpath.rs', 'src/xpath_impl/eval.rs', 'src/xpath_impl/func.rs'], mech=[('node cells', 'src/dom.rs struct Node'), ('evaluation', 'src/xpath_impl/eval.rs evaluate_xnode')],
  tech='static analysis: effect analysis over the resolved call graph', note='Trusts rustc\'s type checking (the fields of Node are private) and the list of std operations that can write through a shared reference. Order numbers, a cache, are the subject of D03.'),
 dict(id='D07', title='Tree operations never panic',
  statement='No navigation, editing or serializing operation on a node panics, whatever the tree, the arguments and the preceding operations: no index is out of range, no failed unwrap is reached (also when the document a node came from has been dropped), and no list of nodes is borrowed for writing while it is borrowed elsewhere, also when a node is inserted into or compared with itself or its own ancestors.',
  q='every tree, argument and history of operations',
  why='A panic needs an unusual argument (a node that is no child, an index at the limit, a node inserted below itself) that the tests do not contain.',
  files=['src/dom.rs'], mech=[('tree operations', 'src/dom.rs impl NodePtr')],
  tech=AI + ', panic-obligation discharge and borrow-guard tracking', note=TRUST + 'Order numbers are taken not to reach 2^63.'),
 dict(id='V12', title='Evaluation depends on the expression and the document only',
  statement='Parsing, evaluating and editing read nothing but their arguments: no clock, environment, file, random source, thread, memory address, hash order or state left by an earlier call. Evaluating a compiled expression does not change it, so the same expression on an unchanged document gives the same result every time.',
  q='every expression, document and history of calls',
  why='A dependence on hash order or addresses shows only now and then, and not in a test that runs once.',
  files=['src/xpath.rs', 'src/xpath_impl/eval.rs', 'src/xpath_impl/func.rs', 'src/xpath_impl/oper.rs'], mech=[('evaluation', 'src/xpath_impl/eval.rs evaluate_xnode')],
  tech='static analysis: effect analysis over the resolved call graph', note='Trusts the list of std items that reach outside.'),
 dict(id='V03', title='Logical operators, conditionals, quantifiers and the comma',
  statement='`A or B` is true if the effective boolean value of A is true, without B being evaluated, and otherwise the effective boolean value of B; `A and B` is false if that of A is false, without B being evaluated, and otherwise that of B. `if (C) then T else E` evaluates C and then only T or only E, as the effective boolean value of C decides, and has its value. `some $x in R satisfies C` is true exactly if C is true for some item of R, `every $x in R satisfies C` exactly if it is true for all; both go through R in order and stop at the first item that decides. `A, B` is all of A followed by all of B; parentheses do not change a value and () is the empty sequence. An error of an operand that is evaluated, or the lack of an effective boolean value, is an error of the whole.',
  q='every operand value, including empty sequences, long sequences and errors',
  why='Which operand decides, and what is evaluated at all, depends on values and errors a test does not combine.',
  files=EVAL, mech=[('operators', 'src/xpath_impl/eval.rs evaluate_xnode (OperatorOr, OperatorAnd, IfExpr, SomeVarBind, EveryVarBind, OperatorConcatenate)')],
  tech=AI + ', comparison of every path with a decision procedure', note=TRUST + STEP + 'What the effective boolean value is, is V04.'),
 dict(id='V05', title='A variable has the value of its innermost binding',
  statement='`for`, `let`, `some` and `every` bind their variable for the body only: in the body a reference to that name gives the bound value (for `let` the whole value, otherwise one item of the range at a time, in order), whatever the name means outside, and a reference to another name gives what it gives outside. `for` gives the values of its body for all items one after the other. Calling an inline function binds its parameters to the arguments in order and evaluates its body; a different number of arguments, or an argument that is not of the declared type, is an error. Whenever an expression has been evaluated without an error, all variables are what they were before.',
  q='every nesting of bindings, every range and body',
  why='A binding that leaks or hides the wrong name shows only in a nest of bindings of the same name used afterwards.',
  files=EVAL, mech=[('bindings', 'src/xpath_impl/eval.rs EvalEnv::set_var, set_var_item, get_var, remove_var'), ('inline functions', 'src/xpath_impl/eval.rs call_inline_func')],
  tech=AI + ', symbolic environments read back through the variable reference', note=TRUST + STEP + 'Inline functions see the variables of the caller (they are not closures).'),
 dict(id='V06', title='Steps, maps and predicates set the focus and restore it',
  statement='In `E1/E2` and `E1!E2` the right side is evaluated once for each item of E1, in order, with that item as the context item, its place in E1, counted from 1, as position() and the number of items of E1 as last(). `E1!E2` gives the results one after the other. In a predicate the context item is the item the predicate is tried on, last() is the number of items and position() its place. All other parts of an expression, arguments of functions and bodies of bindings included, are evaluated in the focus of the expression they are part of; `.` is the context item. Whenever an expression has been evaluated without an error, position() and last() are what they were before.',
  q='every expression, every sequence',
  why='A focus that is not restored is visible only when position() or last() is used behind a nested step in a particular situation (an empty result, for example).',
  files=EVAL + ['src/xpath_impl/func.rs'], mech=[('focus', 'src/xpath_impl/eval.rs EvalEnv::set_position, set_last; evaluate_xnode (OperatorPath, OperatorMap); filter_by_predicate'), ('position(), last()', 'src/xpath_impl/func.rs fn_position, fn_last')],
  tech=AI + ', focus of each evaluation read off', note=TRUST + STEP + 'The focus at the start of an evaluation is not part of this.'),
 dict(id='V17', title='A predicate keeps exactly the items it is true for',
  statement='E[p] gives the items of E for which p holds, each once and in the order of E: if the value of p for an item is a single number (integer, decimal or double), the item is kept exactly if the number equals the place of the item, otherwise exactly if the effective boolean value of p is true; an error of p is an error. Several predicates are applied one after the other, each to what the one before has kept. Places are counted from 1, from the first item on, except in the predicates directly behind a step along a reverse axis (ancestor, preceding and so on), where they are counted from the last node in document order.',
  q='every sequence, every predicate, every chain of predicates',
  why='Fractions, strings, several predicates in a row and reverse axes give combinations that tests do not cover.',
  files=EVAL, mech=[('predicates', 'src/xpath_impl/eval.rs filter_by_predicate, filter_by_predicates')],
  tech=AI + ', comparison of every path with a decision procedure', note=TRUST + STEP + 'That the parser marks the predicates of reverse axes is Q05.'),
 dict(id='V01', title='Each axis selects exactly its nodes',
  statement='A step axis::test selects, for each context node, exactly those nodes of the axis that pass the node test, in document order: child: the children; attribute: the attributes; parent: the parent, if there is one; self: the node; ancestor (ancestor-or-self): all proper ancestors (and the node); descendant (descendant-or-self): all proper descendants, without attributes (and the node); following-sibling and preceding-sibling: the siblings behind and in front of it, nothing for an attribute or a node without parent; following: all nodes of the document behind the node that are not its descendants or attributes; preceding: all nodes in front of the node that are not its ancestors or attributes. A leading `/` selects the root, whatever the node. For several context nodes the step gives the nodes of the first, then of the second, and so on. What following and preceding of an attribute node are is left open.',
  q='every tree, every node of it, every axis and node test',
  why='The relation of two nodes in a tree has many cases (deeper, shallower, attribute, root, last child); tests use one small tree.',
  files=EVAL, mech=[('axes', 'src/xpath_impl/eval.rs match_location_path, match_loc_step, match_along_axis and the array_* functions')],
  tech=AI + ', lists read back as filtered node lists', note=TRUST + 'Recursion over the tree is checked as an equation of one step. Navigation by NodePtr is D02 to D04, which node passes a test is V16.'),
 dict(id='V04', title='Effective boolean value',
  statement='Wherever a condition is needed (fn:boolean, fn:not, if, and/or, quantifiers, predicates with a non-numeric value), the effective boolean value decides: the empty sequence is false; a sequence whose first item is a node is true; a single boolean is itself; a single string is true iff it is not empty; a single number is false iff it is zero (of either sign) or NaN; a single item of another kind (map, array, function) and a sequence of several items that does not start with a node are an error. fn:boolean gives this value, fn:not its negation; fn:true() and fn:false() are the constants.',
  q='every sequence of items', why='The rule depends on the first item, the length and on rare numbers (negative zero, NaN, decimals); tests try one value per kind.',
  files=EVAL, mech=[('effective boolean value', 'src/xpath_impl/xsequence.rs XSequence::effective_boolean_value'), ('functions', 'src/xpath_impl/func.rs fn_boolean, fn_not, fn_true, fn_false')],
  tech=AI + ', judged in every abstract case of the value', note=TRUST + 'That conditions go through this value is V03 and V06.'),
 dict(id='V08', title='Comparison operators',
  statement='Value comparisons (eq ne lt le gt ge) of two single atomic items: numbers of any kinds are compared by their numeric value after promotion, where NaN is neither smaller, equal nor greater, so that only ne holds for it; strings are compared code point by code point; false is smaller than true; every other pair of kinds is an error. An empty operand gives the empty sequence and, when neither is empty, an operand with more than one item is an error. General comparisons (= != < <= > >=) are true iff there is an item of the left and an item of the right operand, both atomized (a node counts as a string), that are in the corresponding relation; a pair that cannot be compared never is, and is no error. Which string a node counts as is V16.',
  q='every pair of sequences, every pair of kinds of items and every value of them, NaN included',
  why='Six operators times all pairs of kinds and the unordered case; the general comparisons quantify over all pairs of items.',
  files=EVAL, mech=[('value comparisons', 'src/xpath_impl/xsequence.rs value_compare_*, value_comparison'), ('general comparisons', 'src/xpath_impl/xsequence.rs general_compare_*, general_comparison'), ('items', 'src/xpath_impl/xitem.rs xitem_numeric_comparison, xitem_compare, xitem_boolean_*')],
  tech=AI + ', judged in every abstract case of the two values', note=TRUST + 'That casting an integer to a floating point number keeps its value is taken for granted (it rounds above 2^53).'),
 dict(id='V02', title='Set operators and path steps give nodes in document order without duplicates',
  statement='The union, intersect and except operators give the nodes that are in either operand, in both, or in the left but not in the right one, as a sequence in document order in which no node occurs twice, whatever the order and repetitions in the operands; an error of an operand is an error. The path operator (a/b) is an error when its left side contains an item that is not a node; otherwise the right side is evaluated for each node of the left side in order: when the steps have given nodes only, the result is all these nodes in document order without duplicates; when none of the steps has given only nodes, it is their results one after the other; when one step has given nodes only and another one something else (both not empty), it is an error; an error of a step is an error.',
  q='every pair of operands, every number and order of nodes, every sequence of step results', why='Order and duplicates show only with particular overlaps of node sets, of which tests try a few.',
  files=EVAL, mech=[('set operators', 'src/xpath_impl/oper.rs op_union, op_intersect, op_except'), ('path operator', 'src/xpath_impl/eval.rs evaluate_xnode OperatorPath'), ('document order', 'src/xpath_impl/eval.rs EvalEnv::sort_by_doc_order, compare_by_doc_order')],
  tech=AI + '; lists read back as filtered lists of the operands', note=TRUST + 'That the numbers of the nodes follow the document is D03.'),
 dict(id='V09', title='Arithmetic operators promote, and overflow or division by zero is an error',
  statement='+, -, *, div, mod and idiv take two single numbers and give one: an integer for two integers, otherwise a double if one operand is a double, otherwise a decimal; div of two integers gives a decimal, idiv always an integer. The value is the sum, difference, product, quotient, remainder (with the sign of the left operand) or quotient truncated towards zero, in integer or floating point arithmetic, operands in that order. An integer result that does not fit is an error, never a wrapped or saturated number; div, idiv and mod by zero are errors, but for div and mod when one operand is a double; idiv is an error for NaN and for an infinite left operand. Unary minus gives the negation in the same kind (of zero: negative zero, unless an integer), unary plus the number. "a to b" gives the integers from a to b, none when a is larger. An operand that is not exactly one number (for "to": one integer) is an error; nodes are not converted to numbers.',
  q='every pair of kinds of items and every value of them, NaN, infinities and the limits of integers included',
  why='Eight operators, nine combinations of kinds and special values; errors show only at the limits.',
  files=EVAL, mech=[('arithmetic', 'src/xpath_impl/xitem.rs xitem_numeric_*'), ('operators', 'src/xpath_impl/oper.rs op_numeric_*, op_to')],
  tech=AI + ', results read back as expressions over the operands and judged in every abstract case of them', note=TRUST + 'That floating point operations round as they should is the platform\'s; which expression belongs to an operator is Q04.'),
 dict(id='V11', title='Node comparisons',
  statement='"a is b" is true iff both operands are the same node, "a << b" iff the left node comes before the right one in document order, "a >> b" iff it comes behind; an operand that is not exactly one node is an error.',
  q='every pair of operands', why='Equal-looking nodes and empty or longer operands are rarely tested.',
  files=EVAL, mech=[('node comparisons', 'src/xpath_impl/oper.rs op_is_same_node, op_node_before, op_node_after')],
  tech=AI + ', judged in the three cases of the places of two nodes', note=TRUST + 'That the numbers of the nodes follow the document is D03.'),
 dict(id='V07', title='An error is never replaced by a value',
  statement='When the evaluation of an operand, a condition, a range, a predicate, an argument or the body of a function (also of one called by fn:for-each, fn:filter and the like) that an expression has carried out ends in an error, the whole expression is an error: no evaluation goes on as if the part were empty, false or missing. (The comparison of a pair within a general comparison and the question "castable as" are no such evaluations, and what and/or, if and quantifiers need not evaluate is not evaluated.)',
  q='every expression and every part of it that fails', why='Failing parts in unusual places (the second item of a step, a callback) are not tested.',
  files=EVAL, mech=[('evaluation', 'src/xpath_impl/eval.rs evaluate_xnode and the functions it calls'), ('callbacks', 'src/xpath_impl/func.rs fn_for_each, fn_filter, fn_fold_left, ...')],
  tech=AI + ': on each path that returns a value or goes round a loop, each evaluation on it is known to have given a value', note=TRUST + 'Functions of XSequence and XItem that ask for a kind of value are no evaluations here; conditions are V03, V04 and V06.'),
 dict(id='F01', title='Sequence functions select exactly the items they stand for',
  statement='On sequences of any length and kind of items: fn:head gives the first item and fn:tail all the others; fn:reverse the items backwards; fn:count their number; fn:empty and fn:exists whether there is none or one; fn:insert-before puts the third argument in front of the item at the position (in front of the first one for a position below 1, behind the last one for a position above the count); fn:remove leaves out exactly the item at the position (none when there is no such position); fn:subsequence gives the items at the positions p with round(start) <= p, and with a length p < round(start) + round(length), where a start that is NaN and a length that is NaN give no item (finite start); fn:index-of gives the positions of the items equal to a given string or integer; fn:zero-or-one, fn:one-or-more and fn:exactly-one give the sequence itself and are errors for any other number of items.',
  q='every sequence, every position and every start and length, fractions, zeros, infinities and NaN included', why='The edges (first, last, outside, fractions, NaN) of sequences of every length are rarely tested.',
  files=EVAL, mech=[('sequence functions', 'src/xpath_impl/func.rs fn_head, fn_tail, fn_insert_before, fn_remove, fn_reverse, fn_subsequence, fn_index_of, fn_count, fn_empty, fn_exists'), ('function table', 'src/xpath_impl/func.rs evaluate_function')],
  tech=AI + ', results read back as spans of the arguments', note=TRUST + 'Positions and lengths whose magnitude comes near the limits of integers and a start of -INF are outside.'),
 dict(id='F02', title='String functions work on characters and give exactly the stated text',
  statement='For arguments that are strings (an empty sequence counts as the empty string): fn:string-length counts characters; fn:upper-case and fn:lower-case map the whole text; fn:concat gives the arguments one after the other; fn:string-join the string values of the items with the separator between neighbours, also next to empty ones; fn:substring the characters at the positions p with round(start) <= p, and with a length p < round(start) + round(length) (finite start); fn:contains, fn:starts-with and fn:ends-with tell whether the second text occurs (at the beginning, at the end) in the first, an empty second text always; fn:substring-before and fn:substring-after give what is in front of and behind the first occurrence, the empty text when there is none; fn:compare gives -1, 0 or 1 as the first text is less, equal or greater, and fn:codepoint-equal whether they are the same, both () when an argument is (); fn:string-to-codepoints gives the code point of each character in order and fn:codepoints-to-string the text of the code points (an error for a number that is none); fn:translate replaces each character by the one at the place of its first occurrence in the second argument, drops it when the third is too short, and keeps characters that do not occur.',
  q='every text, characters outside ASCII and the basic plane included, every start and length', why='Rare characters, repeated ones, empty texts and odd positions are not tested.',
  files=EVAL, mech=[('string functions', 'src/xpath_impl/func.rs fn_string_length, fn_concat, fn_string_join, fn_substring, fn_contains, fn_substring_before, fn_compare, fn_codepoint_equal, fn_string_to_codepoints, fn_codepoints_to_string, fn_translate'), ('function table', 'src/xpath_impl/func.rs evaluate_function')],
  tech=AI + ', texts read back as pieces of the arguments', note=TRUST + 'fn:normalize-space is outside: an existing test requires it to join words.'),
 dict(id='F03', title='Aggregate functions take every item into account',
  statement='On sequences of numbers of any length, none of them NaN, without integers near the limits of their range: fn:sum is the sum in which every item is an addend exactly once, an integer when all items are integers, a decimal when there are decimals among them and no doubles, a double otherwise (adding integers beyond their range is an error); fn:sum of () is the integer 0, or its second argument when there is one; fn:avg is that sum divided by the number of items, a decimal when all items are integers; fn:max and fn:min give one of the items, such that no other item is greater (less), for strings as well; fn:avg, fn:max and fn:min of () are ().',
  q='every sequence of numbers: every length, mixture of kinds and order', why='Long sequences, mixtures of kinds and extremes at the ends are rarely tested.',
  files=EVAL, mech=[('aggregates', 'src/xpath_impl/func.rs fn_sum, fn_avg, fn_max, fn_min'), ('number kinds and promotion', 'src/xpath_impl/xitem.rs xitem_numeric_add, xitem_numeric_divide, xitem_compare')],
  tech=AI + ', values read back as sums and as what loops carry round', note=TRUST + 'Sequences of up to three items are decided in every combination of kinds and orders; on longer ones the loop has to take in every item. The rounding of additions of doubles is outside, max and min leave NaN aside.'),
 dict(id='F04', title='Numeric functions give the stated number in the kind of their argument',
  statement='For a single number fn:abs, fn:ceiling, fn:floor and fn:round give a number of the same kind (integer, decimal, double): its absolute value (an error for the least integer), the least integral number not below it, the greatest one not above it, and the integral number nearest to it, of two equally near ones the greater; NaN and the infinities come out as they are (abs of -INF is INF), a double that is -0 stays -0 except under abs, and ceiling and round of doubles between -1 and 0 (for round: from -0.5) give -0. Of () they give (). fn:number turns an integer, a decimal or a double into the double of that value, a boolean into 1 or 0, a string into the double it is the text of and NaN when it is not one, () into NaN, and several items are an error.',
  q='every number of every kind: every integral and fractional part, sign, zero and special value', why='Halves, negative zeros, numbers close to a half and huge ones are not tested.',
  files=EVAL, mech=[('numeric functions', 'src/xpath_impl/func.rs fn_abs, fn_ceiling, fn_floor, fn_round, fn_numeric_unary, ceil_x, floor_x, round_x, fn_number'), ('function table', 'src/xpath_impl/func.rs evaluate_function')],
  tech=AI + ', results evaluated in every place a double can be relative to the integers and halves around it', note=TRUST + 'Whether a decimal zero is negative, how a text is turned into a double (std), and arguments that are no numbers are outside.'),
 dict(id='F05', title='Functions on nodes tell what the tree tells of the node',
  statement='fn:name, fn:local-name and fn:namespace-uri of one node give what the API of the document tree gives as its name, local name and namespace URI, fn:root the topmost node of its tree; of () they give the empty string (fn:root: ()), and anything else than one node or () is an error. fn:string of one node is its string value, of one string that string, of () the empty string, and of several items an error: the string value of an element or of the document is the text of the elements and texts below it, in order, comments and processing instructions left out, and that of any other node is its value. fn:data gives item by item the string value of a node as a string and every other item as it is. fn:nilled of an element is true when it has xsi:nil="true" and false otherwise, of any other node it is (). fn:lang is true when the nearest xml:lang, going up from the node itself, is the tag or begins with the tag and "-", letter case aside (without any xml:lang, when the tag is empty).',
  q='every node of every type, every tree around it and every argument', why='The tests name a few elements of a few documents.',
  files=EVAL, mech=[('functions on nodes', 'src/xpath_impl/func.rs fn_name, fn_local_name, fn_namespace_uri, fn_root, fn_nilled, fn_string, fn_data, fn_lang'), ('string and typed value', 'src/xpath_impl/xitem.rs string_value, typed_value, atomize'), ('function table', 'src/xpath_impl/func.rs evaluate_function')],
  tech=AI + ', recursive functions judged by one level of their recursion', note=TRUST + 'What the API of the tree gives is D04 and D05.'),
 dict(id='F06', title='The function library has exactly its functions, numbers of arguments included',
  statement='The library has exactly these functions. With 0 arguments: fn:true, false, position, last. With 0 or 1: data, local-name, name, namespace-uri, nilled, normalize-space, number, root, string, string-length. With 1: abs, avg, boolean, ceiling, codepoints-to-string, count, empty, exactly-one, exists, floor, head, lower-case, max, min, not, one-or-more, reverse, round, string-to-codepoints, tail, upper-case, zero-or-one, map:keys, map:size, array:flatten, array:size. With 1 or 2: lang, string-join, sum. With 2: codepoint-equal, compare, contains, ends-with, filter, for-each, index-of, remove, starts-with, substring-after, substring-before, map:contains, map:get, array:get. With 2 or 3: subsequence, substring. With 3: insert-before, translate. With any number: concat. The look-up accepts exactly those names with those numbers and no other; a call reaches the same one function for a name and a number with all its arguments, in order, and the call of a name that does not exist is an error. Without their last argument, data, local-name, name, namespace-uri, nilled, normalize-space, number, root, string, string-length and lang give what they give for the context item as that argument.',
  q='every name, every number of arguments and all arguments', why='The tests call each function with a few arguments; no test can try every name and number.',
  files=EVAL, mech=[('tables of the library', 'src/xpath_impl/func.rs FUNC_SIGNATURE_TBL, FUNC_CONTEXT_TBL, FUNC_TBL'), ('look-up and call', 'src/xpath_impl/func.rs check_function_spec, evaluate_function')],
  tech=AI + ', the look-up explored for an unknown name and number', note=TRUST + 'What the functions do is F01 to F05, F07, F08; that every call is looked up when an expression is compiled is Q07.'),
 dict(id='F07', title='Maps and arrays give back what was put into them',
  statement='A map has its entries in the order they are written and an array its members. map{...} has one entry for each key and value written; a key that is not exactly one item, a key that is a map, an array or a function, and a key that is already there are errors. [e1, ...] has one member for each expression, empty ones too, array{e} one for each item of e. map:size and array:size count the entries and members, map:keys gives the keys in order. map:contains tells whether there is an entry with the same key, map:get gives its value and () if there is none. Two keys are the same when both are numbers and equal or both NaN, both booleans and equal, or both strings (a node counts as its string value) with the same characters; a number, a boolean and a string are never the same key. array:get with an integer gives the member at that position, counted from 1, and () outside. array:flatten gives the items in order with every array, however deeply nested, replaced by the items of its members in order. A lookup ?key on one map or array gives the values for the keys one after the other, those left out that are not there; ?* all the values in order; on any other context item both are errors.',
  q='every map, every array, every key', why='Which keys meet which others, how deep arrays nest and how many entries there are is unbounded; the tests try a few.',
  files=EVAL, mech=[('maps and arrays', 'src/xpath_impl/xitem.rs XSeqMap, XSeqArray, op_same_key'), ('functions of maps and arrays', 'src/xpath_impl/func.rs map_size, map_keys, map_contains, map_get, array_size, array_get, array_flatten'), ('constructors and lookups', 'src/xpath_impl/eval.rs convert_xnode_to_map_array, UnaryLookupByExpr, UnaryLookupByWildcard')],
  tech=AI + ', sameness of keys decided for every pair of kinds in every case two values can be in', note=TRUST + 'Calling a map or an array is F08; positions that are no integers are outside.'),
 dict(id='F08', title='A call hands its arguments, in order, to exactly what is called',
  statement='f(e1, ..., en) by name evaluates the arguments in the context of the call and calls f with their values in their order, in that context; the first argument that is an error makes the call that error. A function item is what an inline function, a reference f#n and a partial application f(..., ?, ...) evaluate to; called with values it does this: f#n calls f with them when there are n of them; a partial application calls f with the fixed arguments and the values in the places of the question marks, in their order, when there are as many values as question marks; an inline function evaluates its body with its parameters bound when there are as many values as parameters. Any other number of arguments is an error. A map called with one argument that is one item gives the value for that key, () if it has none, an array called so the member at that position, an error outside; any other number of arguments or of items, and calling anything else, is an error. fn:for-each gives the results of the function for each item, one after the other, fn:filter the items, in order, for which the result of the function is true as an effective boolean value; a call that is an error makes both that error, and both want one function as their second argument.',
  q='every call, every number of arguments, every sequence', why='The tests call a handful of functions with one to three arguments.',
  files=EVAL, mech=[('calls by name', 'src/xpath_impl/eval.rs FunctionCall'), ('calls of function items, maps and arrays', 'src/xpath_impl/eval.rs apply_argument, call_function, call_inline_func, call_named_func, call_partial_func'), ('functions of functions', 'src/xpath_impl/func.rs fn_for_each, fn_filter')],
  tech=AI + ', lists of arguments read off from the loops along their chain of nodes', note=TRUST + 'How the parameters of an inline function are bound, and their types, is V05; fixed arguments of a partial application are evaluated when it is called.'),
 dict(id='Q03', title='An expression is taken only if all of it is one, refused only if it is not',
  statement='A text whose tokens follow the XPath 3.1 grammar from the first to the last compiles; one whose tokens do not - a missing operand, an operator with nothing on its left, an unclosed parenthesis, bracket or brace, a missing name, type, return, then, else, satisfies or in, an unknown axis, a comparison or a range after a comparison or a range, a call of a function that does not exist with this number of arguments, tokens left over at the end, no expression at all - is refused with an error before anything is evaluated. Every production takes and refuses this way, wherever in an expression it stands. (An arrow followed by an expression in parentheses, and the namespace axis, are not supported.)',
  q='every sequence of tokens', why='The tests refuse about ten texts.',
  files=["src/xpath_impl/parser.rs"],  mech=[('productions', 'src/xpath_impl/parser.rs parse_*, compile_xpath')],
  tech=AI + ', the lexer a position in an unknown sequence of tokens, every path of a parse function compared with the grammar', note=TRUST + 'Induction over the expression: the parse function of a part is a step that gives a tree, gives no tree, or refuses. How the text is cut into tokens, and which word is an operator, is not part of it.'),
 dict(id='Q04', title='Operators bind by the precedence of XPath, and group to the left',
  statement='From weakest to strongest: comma; for, let, some, every, if; or; and; comparisons (one only); ||; to (one only); + and -; *, div, idiv, mod; union and |; intersect and except; instance of; treat as; castable as; cast as; =>; unary + and -; !; paths. A chain of operators of one level groups to the left: 10 - 3 - 2 is 5. Each operator token gives the operator of that name, what is left of it as its left operand and what is right of it as its right one; unary signs stack, and the expression before an arrow becomes the first argument of the call after it.',
  q='every expression', why='The tests combine a few pairs of operators.',
  files=["src/xpath_impl/parser.rs"],  mech=[('operators', 'src/xpath_impl/parser.rs parse_expr to parse_value_expr')],
  tech=AI + ', the lexer a position in an unknown sequence of tokens, every path of a parse function compared with the grammar', note=TRUST + 'Induction over the expression: the parse function of a part is a step that gives a tree, gives no tree, or refuses. How the text is cut into tokens, and which word is an operator, is not part of it.'),
 dict(id='Q05', title='Steps of a path: axes, abbreviations, node tests, predicates in order',
  statement='/ alone is the root of the tree and /e starts there; //e is /descendant-or-self::node()/e, and a//b puts that step between a and b; .. is parent::node(), @n attribute::n, n child::n; each axis name gives that axis; steps are taken in the order they are written. The predicates of a step belong to it in their order, and those after a reverse axis (ancestor, ancestor-or-self, parent, preceding, preceding-sibling) are those that count backwards, all others those that count forwards. Name tests, wildcards and kind tests keep the names they are written with.',
  q='every path, every axis, every number of predicates', why='The tests hold one or two paths for each axis.',
  files=["src/xpath_impl/parser.rs"],  mech=[('paths', 'src/xpath_impl/parser.rs parse_path_expr, parse_relative_path_expr, parse_axis_step, parse_predicate_list, parse_kind_test')],
  tech=AI + ', the lexer a position in an unknown sequence of tokens, every path of a parse function compared with the grammar', note=TRUST + 'Induction over the expression: the parse function of a part is a step that gives a tree, gives no tree, or refuses. How the text is cut into tokens, and which word is an operator, is not part of it. An extra // step at a node test of attributes is as the grammar has it.'),
 dict(id='Q06', title='Literals, variables, for, let, if, maps and arrays keep their parts in place',
  statement='Of a literal the text and kind are kept, of a variable reference and of a binding the name; for, let, some and every take their bindings in the order they are written, the first the outermost, each with its own expression, and the body innermost; if keeps condition, then and else apart; a map keeps its entries in order, key and value apart; [a, b] has one member for each entry and array { e } the one expression; (e) is e and () the empty sequence; . the context item; ?n, ?1, ?* and ?(e) look up the name, the number, everything and what e gives. Postfixes - predicate, arguments, lookup - apply from left to right.',
  q='every expression', why='The tests hold a few of each.',
  files=["src/xpath_impl/parser.rs"],  mech=[('primaries', 'src/xpath_impl/parser.rs parse_primary_expr and what it calls, parse_for_expr, parse_let_expr, parse_quantified_expr, parse_if_expr, parse_postfix_expr')],
  tech=AI + ', the lexer a position in an unknown sequence of tokens, every path of a parse function compared with the grammar', note=TRUST + 'Induction over the expression: the parse function of a part is a step that gives a tree, gives no tree, or refuses. How the text is cut into tokens, and which word is an operator, is not part of it.'),
 dict(id='Q07', title='A call keeps its name and arguments, and is looked up when it is compiled',
  statement='f(e1, ..., en) is a call of f - of fn:f if no prefix is written - with n arguments in their order, each expression or ? where it stands; e => f(e2) is f(e, e2), e => $v(e2) applies $v to e and e2. It compiles only if the library has f with n arguments. f#n refers to f with n arguments if the library has it, and is refused if it does not. A call with a ? is a partial application, one without is a call. The parameters of an inline function keep their names, types and order, and its body is its own.',
  q='every call, every number of arguments', why='The tests hold calls with up to three arguments.',
  files=["src/xpath_impl/parser.rs"],  mech=[('calls', 'src/xpath_impl/parser.rs parse_function_call, parse_named_function_ref, parse_inline_function_expr, parse_argument_list, parse_arrow_expr')],
  tech=AI + ', the lexer a position in an unknown sequence of tokens, every path of a parse function compared with the grammar', note=TRUST + 'Induction over the expression: the parse function of a part is a step that gives a tree, gives no tree, or refuses. How the text is cut into tokens, and which word is an operator, is not part of it. That the look-up itself agrees with the library is F06.'),
 dict(id='Q08', title='A type keeps its item type and its occurrence',
  statement='A sequence type is empty-sequence() or an item type with ?, *, + or nothing, and keeps which: item(), an atomic type by its name, a kind test with its names and, for element and attribute, the type and the ? after it, document-node(e) with the test inside, function(*), function(T1, ..., Tn) as T with the types in order, map(*), map(K, V), array(*), array(T), and (T) as T. A cast names an atomic type, with ? if it allows the empty sequence.',
  q='every type', why='The tests hold one of each.',
  files=["src/xpath_impl/parser.rs"],  mech=[('types', 'src/xpath_impl/parser.rs parse_sequence_type, parse_item_type, parse_function_test, parse_map_test, parse_array_test, parse_single_type')],
  tech=AI + ', the lexer a position in an unknown sequence of tokens, every path of a parse function compared with the grammar', note=TRUST + 'Induction over the expression: the parse function of a part is a step that gives a tree, gives no tree, or refuses. How the text is cut into tokens, and which word is an operator, is not part of it. What a type matches is not part of it.'),
 dict(id='L01', title='An expression is cut into tokens the way XPath 3.1 says',
  statement='The text of an expression is cut from left to right into the longest tokens there are: the symbols of XPath (// before /, <= and << before <, .. before . and so on); names with exactly the characters an NCName may have; integers (digits), decimals (digits with a period before, among or behind them) and doubles (one of these with one exponent, signed or not); strings in quotes or apostrophes, a doubled delimiter standing for one; Q{...}. White space (space, tab, CR, LF) and comments, nested to any depth, may stand between any two tokens and only there. Each token keeps the text it was written with. A string, a comment or a Q{ without an end, an exponent without a digit and a character that starts no token are refused. (NUL ends the text; a name may follow a number directly.)',
  q='every text of an expression', why='The tests hold about sixty expressions in plain ASCII; every code point may stand in a name, a string or a comment, and every symbol before every other.',
  files=['src/xpath_impl/lexer.rs'], mech=[('the token cutting', 'src/xpath_impl/lexer.rs Lexer::new, get_tok, skip_comment, fetch_numerics, fetch_string_literal, is_name_char')],
  tech=AI + ', every way round the cutting loop compared with a recognizer of the tokens', note=TRUST + 'Induction over the rounds of the loop: each cuts off one token. Which word is an operator is L02.'),
 dict(id='L02', title='A word is an operator, a keyword or a name by what stands around it',
  statement='and, or, div, mod, idiv, eq, ne, lt, le, gt, ge, is, to, union, intersect and except are operators where an operand stands before them, and names everywhere else: at the beginning, behind an operator, an opening parenthesis, bracket or brace, a comma, /, //, @, ::, $, :=, ?, a prefix and a wildcard that is the beginning of one; a * is a wildcard, and an operator may follow it, where an operand is expected. Behind the occurrence indicator of a type they are operators. instance of, treat as, castable as and cast as are one operator each, except behind $. if, a kind test or item type, map, array or function in front of (, for, some, every and let in front of $, an axis in front of :: and map and array in front of { are keywords, except behind $; every other word is a name. The parser is given the tokens one after another from the first to the last, none left out, and stays at the last. (return, then, else, satisfies and in count as an operand: an operator word directly behind them is an operator.)',
  q='every sequence of tokens', why='There are 47 tokens an operator may follow or not, 16 operators and 37 keywords; the tests hold about a dozen of these pairs.',
  files=['src/xpath_impl/lexer.rs', 'src/xpath_impl/parser.rs'], mech=[('the words', 'src/xpath_impl/lexer.rs Lexer::rewrite_operator_type, rewrite_pair_words, eliminate_nops, rewrite_name_and_symbol, name_to_operator'), ('the cursor', 'src/xpath_impl/lexer.rs Lexer::next_token, get_token, unget_token, mark_token_index, restore_marked_index')],
  tech=AI + ', every way round each pass over the tokens compared with a table of the words for every type and word it admits', note=TRUST + 'Induction over the tokens: each pass settles one after another, with those before it as they are already. That the tokens are enclosed in end markers is L01.'),
 dict(id='V14', title='instance of and treat as judge the number and the type of all items',
  statement='E instance of T is true exactly if the number of items of E is what the occurrence says (exactly one without one, at most one for ?, any for *, at least one for +; none for empty-sequence()) and every item is of the item type: any item for item(); a node the kind test holds for; a function, map or array for function(*); a value of the named type or of a type derived from it (integer from decimal, decimal and double from numeric, all from anyAtomicType); an array all of whose members match the type for array(T); a map all of whose keys are of the key type and all of whose values match for map(K, V). Parentheses around an item type change nothing, and an unknown type name matches nothing. E treat as T gives E itself if it matches and is an error otherwise.',
  q='every value and every sequence type', why='Tests hold a few pairs of values and types out of 9 kinds of items, 8 forms of item types and 5 occurrences; which member or item is the odd one out is not sampled at all.',
  files=['src/xpath_impl/eval.rs', 'src/xpath_impl/xitem.rs'], mech=[('sequence types', 'src/xpath_impl/eval.rs match_sequence_type and the match_sequence_* and match_*_sequence_type functions, match_occurence, derives_from'), ('types of items', 'src/xpath_impl/xitem.rs XItem::xs_type')],
  tech=AI + ', the answer of every path compared with what the type demands', note=TRUST + 'The node tests themselves are V16, function types V19. Maps and arrays of up to three entries and members, sequences of any length.'),
 dict(id='V18', title='A cast gives one value of the type, and castable as tells when',
  statement='E cast as T with a single item gives one value of type T: a value of the type itself unchanged; a boolean from true, 1, false and 0 and from a number (false for zero and NaN); 1 or 0 for a boolean as a number; a double or decimal without its fraction as an integer; the number itself as another kind of number; text as it is displayed; a number read from text (NaN or 0 where it is none). Nodes are cast by their text. () gives () if T has a ?, otherwise an error. Several items, functions, maps, arrays and unknown types are errors, and so is any other text as a boolean. E castable as T is true exactly where the cast is no error, and never an error itself.',
  q='every item and every type', why='The pairs of item kinds and types with their number classes are some 170 cases; the tests hold a handful.',
  files=['src/xpath_impl/xsequence.rs', 'src/xpath_impl/xitem.rs'], mech=[('casts', 'src/xpath_impl/xsequence.rs XSequence::cast_as, castable_as; src/xpath_impl/xitem.rs XItem::cast_as, castable_as, get_as_raw_*')],
  tech=AI + ', the value of every path compared with the conversion table', note=TRUST + 'The text of a node is taken as it is (F05). Text that is no number is not refused (docs/limits.md).'),
 dict(id='V19', title='An item is of a function type where its own signature is a subtype',
  statement='An item is of a type function(P1, ..., Pn) as R exactly if it is: a named function, inline function or partially applied function with n (open) parameters whose result type is a subtype of R and each of whose parameter types is a supertype of Pi, the named functions having the signatures of the specification; or a map, for n = 1, all of whose keys are of the type P1 and all of whose values are of type R; or an array, for n = 1, where an integer is of type P1 and every member of type R. One sequence type is a subtype of another if its occurrence allows no number the other does not, and its item type is the same or derived: every type from item(), atomic types along their derivation, node kinds from node(), functions, maps and arrays from function(*), function types with the same number of parameters covariant in the result and contravariant in the parameters, maps in key and value, arrays in the member.',
  q='every pair of types and every function item', why='There are over a thousand pairs of forms of types and 70 function signatures; tests compare a handful, and nearly always types that differ in one place.',
  files=['src/xpath_impl/eval.rs', 'src/xpath_impl/func.rs'], mech=[('subtypes', 'src/xpath_impl/eval.rs subtype, subtype_itemtype, derives_from'), ('function types', 'src/xpath_impl/eval.rs match_sequence_typed_function_test; src/xpath_impl/func.rs FUNC_SIGNATURE_TBL')],
  tech=AI + ', the verdict of every path compared with the subtype rules; the signature table read from the constants of the MIR', note=TRUST + 'Functions of up to three parameters, maps and arrays of up to three entries. Element, attribute and document tests within function types, and functions without an entry in the signature table (concat with three and more arguments), are out (docs/limits.md).'),
 dict(id='V13', title='The entry points of XPath give the same value in their own form',
  statement='eval_xpath, get_nodeset, each_node and get_first_node compile the expression given and evaluate it once, with the node as the only context item and no variables. eval_xpath gives all items of the value in order (len and get_item tell how many and which; as_nodeptr of an item gives the node if it is one and None otherwise); get_nodeset gives the nodes among the items, each as often as and in the order in which it occurs; each_node calls the function once for each of these, in this order; get_first_node gives the first of them, or None if there is none. Where the expression does not compile or its evaluation is an error, the first three give that error (and call no function), get_first_node gives None.',
  q='every node, expression and value', why='Which items a value mixes, how often a node is in it and where an error comes up are beyond the few calls in the tests, most of which use one entry point only.',
  files=['src/xpath.rs', 'src/xpath_impl/eval.rs', 'src/xpath_impl/xsequence.rs'], mech=[('entry points', 'src/xpath.rs NodePtr::eval_xpath, get_nodeset, each_node, get_first_node; Sequence, Item'), ('nodes of a value', 'src/xpath_impl/xsequence.rs XSequence::to_nodeset; src/xpath_impl/eval.rs match_xpath')],
  tech=AI + ' with the compiler and the evaluator as unknowns, lists read back', note=TRUST + 'What an expression means is the concern of the other properties. get_item is for positions below len.'),
 dict(id='V16', title='A node test holds for exactly the nodes of its kind, name and type',
  statement='In a step a name test holds for a node of the principal kind (attributes on the attribute axis, elements on every other) if its name is the one given, prefix and all, in the same case; * holds for every name, p:* for the names with exactly this prefix, *:l for those with exactly this local part, prefixed or not. A kind test holds on every axis, and in instance of, by the kind of node: node() for all, text(), comment() and processing-instruction() for theirs, processing-instruction(n) where n is the target; element(n, T) and attribute(n, T) for elements and attributes of this name (any for *) if T is a type untyped elements (untyped, anyType) or untyped attributes (untypedAtomic, anyAtomicType, anySimpleType, anyType) derive from, elements with xsi:nil="true" only if T is followed by ?.',
  q='every node and every test', why='There are 13 axes, 8 kinds of nodes and 12 forms of tests; names that differ only in a prefix, its beginning or in case are not among the tests.',
  files=['src/xpath_impl/eval.rs', 'src/dom.rs'], mech=[('node tests', 'src/xpath_impl/eval.rs match_node_test, match_name_test, match_kind_test'), ('names', 'src/dom.rs NodePtr::name, space_name, local_name, attribute_value')],
  tech=AI + ', the truth value of every path compared with what the test means', note=TRUST + 'The names are read as constants that agree and differ in each part, and as an unknown. document-node(), schema and namespace tests are out (docs/limits.md).'),
 dict(id='V15', title='The text of a value shows each item in its form, in order',
  statement='The text of an item (Item::to_string) is: for a string the string in double quotes, for an integer its digits, for a decimal its digits with a decimal point (".0" if it is a whole number), for a double the form with "e", or NaN, +Infinity, -Infinity, -0e0; true or false; for a node the text of the node ((DocumentRoot), <name a="v"> with all attributes in order, the value of a text node, name="value" for an attribute, nothing for the others); for a map {k => v, k => v} and for an array [v, v] with all entries in order. The text of a sequence (Sequence::to_string) is (a, b, c), with all items in order, or the item alone if there is exactly one, also inside maps and arrays.',
  q='every value of any length and depth', why='The tests compare texts of small values; the number of items, the nesting, and the classes of numbers (NaN, infinities, negative zero, whole decimals) in each place are not covered.',
  files=['src/xpath_impl/xitem.rs', 'src/xpath_impl/xsequence.rs', 'src/dom.rs', 'src/xpath.rs'], mech=[('texts', 'src/xpath_impl/xitem.rs Display of XItem, XSeqMap, XSeqArray; src/xpath_impl/xsequence.rs Display of XSequence; src/dom.rs Debug and Display of NodePtr; src/xpath.rs Sequence::to_string, Item::to_string')],
  tech=AI + ' over the pieces of text written, class by class of numbers, loops read back as lists', note=TRUST + 'The digits of numbers are those of the standard library. A function item may have any text.'),
 dict(id='Q02', title='Evaluating an expression never panics',
  statement='Evaluating any accepted expression on any node ends with a value or with an error value, never with a panic (leaving aside running out of stack or memory): no index or slice out of range, no overflow, no division by zero, no unwrap of nothing, no explicit panic, whatever the values are and whatever the number of arguments of a function in the library, of a function value, an inline function or a partial call.',
  q='every accepted expression and every document', why='The tests evaluate well-formed uses; an empty argument, a position outside, an extreme integer or a missing part of an expression at any one of several hundred places would end the program.',
  files=['src/xpath.rs', 'src/xpath_impl/eval.rs', 'src/xpath_impl/func.rs', 'src/xpath_impl/oper.rs', 'src/xpath_impl/xitem.rs', 'src/xpath_impl/xsequence.rs', 'src/xpath_impl/helpers.rs'], mech=[('evaluation', 'every function reached from NodePtr::eval_xpath, get_nodeset, each_node and get_first_node, outside the parser; the argument counts that src/xpath_impl/func.rs evaluate_function lets through; index and subtraction guards; checked arithmetic')],
  tech=AI + ' over each function from an unknown state, with what is left over analysed again inside each caller', note=TRUST + 'The parser is Q03 to Q08 and the document D01 to D07: that an operator node has its operands, and a function reference its number of arguments, is taken from them (the list is amx/data/trees.py). Recursion depth and memory are not covered.'),
]
NOT_APPLICABLE = {}
