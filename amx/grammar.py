"""The reference grammar of XPath 3.1 expressions, as recognizers over the steps of a parse function (see gram.py), with
the syntax tree each production is to give."""
from .gram import N, NIL, SPECS, Refuse, spec


def binary(sub, ops, once=False):
    def f(c):
        def step(c, x):
            t = c.which(ops)
            if t is None:
                return x, False
            if c.isnil(x):
                raise Refuse('nothing is on the left of the operator')
            c.consume(t)
            y = c.must(sub)
            return N(ops[t], None, x, y), not once
        return c.fold(c.nt(sub), step)
    return f


LEVELS = [
    ('expr', 'expr_single', dict(Comma='OperatorConcatenate'), False),
    ('or_expr', 'and_expr', dict(Or='OperatorOr'), False),
    ('and_expr', 'comparison_expr', dict(And='OperatorAnd'), False),
    ('comparison_expr', 'string_concat_expr', dict([(k + o, 'Operator' + k + o) for k in ('Value', 'General') for o in ('EQ', 'NE', 'LT', 'GT', 'LE', 'GE')], IsSameNode='OperatorIsSameNode', NodeBefore='OperatorNodeBefore', NodeAfter='OperatorNodeAfter'), True),
    ('string_concat_expr', 'range_expr', dict(OperatorConcat='OperatorConcat'), False),
    ('range_expr', 'additive_expr', dict(To='OperatorTo'), True),
    ('additive_expr', 'multiplicative_expr', dict(Plus='OperatorAdd', Minus='OperatorSubtract'), False),
    ('multiplicative_expr', 'union_expr', dict(Asterisk='OperatorMultiply', Div='OperatorDiv', IDiv='OperatorIDiv', Mod='OperatorMod'), False),
    ('union_expr', 'intersect_except_expr', dict(Union='OperatorUnion'), False),
    ('intersect_except_expr', 'instanceof_expr', dict(Intersect='OperatorIntersect', Except='OperatorExcept'), False),
    ('value_expr', 'path_expr', dict(OperatorMap='OperatorMap'), False),
]
for n_, s_, o_, k_ in LEVELS:
    SPECS[n_] = binary(s_, o_, k_)


def typed(sub, tok, ty, kind):
    def f(c):
        x = c.nt(sub)
        if not c.at(tok):
            return x
        if c.isnil(x):
            raise Refuse('nothing is on the left of the operator')
        c.consume(tok)
        return N(kind, None, x, c.must(ty))
    return f


TYPED = [('instanceof_expr', 'treat_expr', 'InstanceOf', 'sequence_type', 'OperatorInstanceOf'),
         ('treat_expr', 'castable_expr', 'TreatAs', 'sequence_type', 'OperatorTreatAs'),
         ('castable_expr', 'cast_expr', 'CastableAs', 'single_type', 'OperatorCastableAs'),
         ('cast_expr', 'arrow_expr', 'CastAs', 'single_type', 'OperatorCastAs')]
for n_, s_, t_, y_, k_ in TYPED:
    SPECS[n_] = typed(s_, t_, y_, k_)


@spec
def argument_list(c):
    c.take('LeftParen')
    x = c.nt('argument_list_sub')
    c.take('RightParen')
    return x


def listed(entry, wrap=None):
    """entries with commas between them, each behind the other's right side"""
    wrap = wrap or (lambda x: x)

    def f(c):
        x = c.nt(entry)
        if c.isnil(x):
            return NIL

        def step(c):
            if not c.opt('Comma'):
                return [], False
            return [wrap(c.must(entry))], True
        return c.chain(wrap(x), step)
    return f


SPECS['argument_list_sub'] = listed('argument')
SPECS['param_list'] = listed('param')
SPECS['sequence_type_list'] = listed('sequence_type', lambda x: N('Param', None, x))
SPECS['map_constructor_entries'] = listed('map_constructor_entry', lambda x: N('MapConstruct', None, x))
SPECS['expr_in_array'] = listed('expr_single', lambda x: N('ArrayEntry', None, x))

LEAVES = '''expr expr_single or_expr and_expr comparison_expr string_concat_expr range_expr additive_expr multiplicative_expr
 union_expr intersect_except_expr instanceof_expr treat_expr castable_expr cast_expr arrow_expr unary_expr value_expr path_expr
 relative_path_expr step_expr axis_step postfix_expr primary_expr predicate_list predicate eqname wildcard kind_test sequence_type
 item_type argument_list argument_list_sub argument param_list param sequence_type_list map_constructor_entries map_constructor_entry
 expr_in_array single_type varref parenthesized_expr function_call element_test schema_element_test'''.split()
WRAPS = ('argument_list',)


@spec
def unary_expr(c):
    for t, k in (('Minus', 'OperatorUnaryMinus'), ('Plus', 'OperatorUnaryPlus')):
        if c.opt(t):
            return N(k, None, NIL, c.must('unary_expr'))
    return c.nt('value_expr')


@spec
def main(c):
    x = c.nt('expr')
    c.take('EOF') if not c.at('EOF') else None
    if c.isnil(x):
        raise Refuse('there is no expression')
    return x


@spec
def predicate_list(c, rev=None):
    """in the order they are written, each on the right of the one before"""
    x = c.nt('predicate')
    if c.isnil(x):
        return NIL
    rev = c.p.args[0] if rev is None else rev
    kind = 'PredicateRevTop' if rev[1] else 'PredicateTop'
    wrap = lambda x: N(kind, None, x)
    if c.called('predicate_list'):
        return N(kind, None, x, c.nt('predicate_list', (rev,)))

    def step(c):
        x = c.nt('predicate')
        return ([], False) if c.isnil(x) else ([wrap(x)], True)
    return c.chain(wrap(x), step)


@spec
def predicate(c):
    if not c.opt('LeftBracket'):
        return NIL
    x = c.must('expr')
    c.take('RightBracket')
    return x


AXES = dict([(''.join('-' + x.lower() if x.isupper() else x for x in n).strip('-'), 'Axis' + n) for n in (
    'Ancestor', 'AncestorOrSelf', 'Attribute', 'Child', 'Descendant', 'DescendantOrSelf', 'Following', 'FollowingSibling',
    'Parent', 'Preceding', 'PrecedingSibling', 'Self')])
REVERSE = {'AxisAncestor', 'AxisAncestorOrSelf', 'AxisParent', 'AxisPreceding', 'AxisPrecedingSibling'}


@spec
def axis_step(c):
    if c.at('AxisName'):
        p = c.pos
        c.consume('AxisName')
        c.take('ColonColon')
        for a in AXES:
            if c.named(p, a):
                return needed(c, node_test(c, AXES[a]))
        raise Refuse('there is no such axis')
    if c.opt('At'):
        return needed(c, node_test(c, 'AxisAttribute'))
    if c.opt('DotDot'):
        return N('AxisParent', 'node()', NIL, c.nt('predicate_list', (('b', True),)))
    return node_test(c, 'AxisChild')


def needed(c, x):
    if c.isnil(x):
        raise Refuse('no node test is there')
    return x


def node_test(c, axis):
    name = c.text('wildcard') or c.text('eqname', '')
    if name is None:
        k = c.nt('kind_test')
        if c.isnil(k):
            return NIL
        return N(axis, '', k, c.nt('predicate_list', (('b', axis in REVERSE),)))
    return N(axis, name, NIL, c.nt('predicate_list', (('b', axis in REVERSE),)))


@spec
def path_expr(c):
    root = N('AxisRoot')
    if c.opt('Slash'):
        return N('OperatorPath', None, root, c.nt('relative_path_expr'))
    if c.opt('SlashSlash'):
        return N('OperatorPath', None, root, N('OperatorPath', None, N('AxisDescendantOrSelf', 'node()'), c.must('relative_path_expr')))
    return c.nt('relative_path_expr')


@spec
def relative_path_expr(c):
    x = c.nt('step_expr')
    if c.isnil(x):
        return NIL

    def step(c):
        if c.opt('Slash'):
            return [N('OperatorPath', None, c.must('step_expr'))], True
        if c.opt('SlashSlash'):
            y = c.must('step_expr')
            return [N('OperatorPath', None, N('AxisDescendantOrSelf', 'node()')), N('OperatorPath', None, y)], True
        return [], False
    t = c.chain(N('OperatorPath', None, x), step)
    return x if c.empty(t) else t


@spec
def step_expr(c):
    x = c.nt('postfix_expr')
    return c.nt('axis_step') if c.isnil(x) else x


@spec
def postfix_expr(c):
    x = c.nt('primary_expr')
    if c.isnil(x):
        return NIL

    def step(c, x):
        y = postfix(c)
        if c.isnil(y):
            return x, False
        return N(dict(PredicateTop='ApplyPredicate', ArgumentListTop='ApplyArgument').get(y[1], 'OperatorMap'), None, x, y), True
    return c.fold(x, step)


def postfix(c):
    if c.at('LeftBracket'):
        return N('PredicateTop', None, c.nt('predicate'))
    if c.at('LeftParen'):
        return N('ArgumentListTop', None, c.nt('argument_list'))
    return unary_lookup(c)


@spec
def unary_lookup(c):
    if not c.at('Question'):
        return NIL
    if not c.at2(('Name', 'IntegerLiteral', 'Asterisk', 'LeftParen')):
        return NIL
    c.consume('Question')
    p = c.pos
    if c.opt('Name'):
        return N('UnaryLookupByExpr', None, N('StringLiteral', c.name(p)))
    if c.opt('IntegerLiteral'):
        return N('UnaryLookupByExpr', None, N('IntegerLiteral', c.name(p)))
    if c.opt('Asterisk'):
        return N('UnaryLookupByWildcard')
    return N('UnaryLookupByExpr', None, c.nt('parenthesized_expr'))


@spec
def primary_expr(c):
    for f in ('literal', 'varref', 'parenthesized_expr', 'context_item_expr', 'function_call', 'named_function_ref', 'inline_function_expr',
              'map_constructor', 'curly_array_constructor', 'square_array_constructor', 'unary_lookup'):
        x = c.nt(f)
        if not c.isnil(x):
            return x
    return NIL


@spec
def literal(c):
    for t in ('StringLiteral', 'IntegerLiteral', 'DecimalLiteral', 'DoubleLiteral'):
        p = c.pos
        if c.opt(t):
            return N(t, c.name(p))
    return NIL


@spec
def varref(c):
    if not c.opt('Dollar'):
        return NIL
    return N('VarRef', named(c))


def named(c, default=''):
    n = c.text('eqname', default)
    if n is None:
        raise Refuse('no name is there')
    return n


@spec
def parenthesized_expr(c):
    if not c.opt('LeftParen'):
        return NIL
    x = c.nt('expr')
    c.take('RightParen')
    return N('ParenthesizedExpr', None, x)


@spec
def context_item_expr(c):
    return N('ContextItem') if c.opt('Dot') else NIL


@spec
def function_call(c):
    m = c.here()
    n = c.text('eqname', 'fn')
    if n is None or not c.at('LeftParen'):
        c.back(m)
        return NIL
    return c.made(n, c.nt('argument_list'))


@spec
def named_function_ref(c):
    m = c.here()
    n = c.text('eqname', 'fn')
    if n is None or not c.opt('Sharp'):
        c.back(m)
        return NIL
    p = c.pos
    if not c.opt('IntegerLiteral'):
        c.back(m)
        return NIL
    return c.ref(n, c.name(p))


@spec
def inline_function_expr(c):
    if not c.opt('Function'):
        return NIL
    c.take('LeftParen')
    ps = c.nt('param_list')
    c.take('RightParen')
    ty = c.must('sequence_type') if c.opt('Name', 'as') else ANY
    c.take('LeftCurly')
    x = c.nt('expr')
    c.take('RightCurly')
    if c.isnil(x):
        x = N('ParenthesizedExpr')
    return N('InlineFunction', None, x, N('ReturnType', None, ty, ps))


ANY = N('SequenceType', '*', N('ItemTest'))


@spec
def param(c):
    if not c.opt('Dollar'):
        return NIL
    n = named(c)
    return N('Param', n, c.must('sequence_type') if c.opt('Name', 'as') else ANY)


@spec
def map_constructor(c):
    if not c.opt('Map'):
        return NIL
    c.take('LeftCurly')
    x = c.nt('map_constructor_entries')
    c.take('RightCurly')
    return N('Map', None, x)


@spec
def map_constructor_entry(c):
    k = c.nt('expr_single')
    if c.isnil(k):
        return NIL
    c.take('Colon')
    return N('MapEntry', None, k, c.must('expr_single'))


@spec
def square_array_constructor(c):
    if not c.opt('LeftBracket'):
        return NIL
    x = c.nt('expr_in_array')
    c.take('RightBracket')
    return N('SquareArray', None, x)


@spec
def curly_array_constructor(c):
    if not c.opt('Array'):
        return NIL
    c.take('LeftCurly')
    x = c.nt('expr')
    c.take('RightCurly')
    return N('CurlyArray', None, x)


@spec
def argument(c):
    x = c.nt('expr_single')
    if not c.isnil(x):
        return N('ArgumentTop', None, x)
    return N('ArgumentPlaceholder') if c.opt('Question') else NIL


@spec
def arrow_expr(c):
    def step(c, x):
        if not c.at('Arrow'):
            return x, False
        if c.isnil(x):
            raise Refuse('nothing is on the left of the arrow')
        c.consume('Arrow')
        n = c.text('eqname', 'fn')
        if n is not None:
            a = c.nt('argument_list')
            return c.made(n, N('ArgumentTop', None, x, a)), True
        v = c.nt('varref')
        if c.isnil(v):
            raise Refuse('no function is there')
        a = c.nt('argument_list')
        return N('ApplyArgument', None, v, N('ArgumentListTop', None, N('ArgumentTop', None, x, a))), True
    return c.fold(c.nt('unary_expr'), step)


@spec
def expr_single(c):
    for f in ('for_expr', 'let_expr', 'quantified_expr', 'if_expr'):
        x = c.nt(f)
        if not c.isnil(x):
            return x
    return c.nt('or_expr')


def clause(heads, end):
    def f(c):
        for t, kind, var, sep in heads:
            if c.opt(t):
                break
        else:
            return NIL

        def step(c):
            c.take('Dollar')
            n = named(c)
            c.take(*sep)
            b = N(var, n, c.must('expr_single'))
            return [b], c.opt('Comma')

        def body(c):
            c.take('Name', end)
            return c.must('expr_single')
        return c.chain(N(kind), step, body)
    return f


SPECS['for_expr'] = clause([('For', 'ForExpr', 'ForVarBind', ('Name', 'in'))], 'return')
SPECS['let_expr'] = clause([('Let', 'LetExpr', 'LetVarBind', ('Bind',))], 'return')
SPECS['quantified_expr'] = clause([('Some', 'SomeExpr', 'SomeVarBind', ('Name', 'in')), ('Every', 'EveryExpr', 'EveryVarBind', ('Name', 'in'))], 'satisfies')


@spec
def if_expr(c):
    if not c.opt('If'):
        return NIL
    c.take('LeftParen')
    x = c.must('expr')
    c.take('RightParen')
    c.take('Name', 'then')
    y = c.must('expr_single')
    c.take('Name', 'else')
    z = c.must('expr_single')
    return N('IfExpr', None, x, N('IfThenElse', None, y, z))


@spec
def eqname(c, default=None):
    default = c.p.args[0][1] if default is None else default
    p = c.pos
    if c.opt('Name'):
        q = c.pos
        if c.opt('Colon'):
            return c.joined(c.name(p), c.name(q), c.name(c.take('Name')))
        return c.joined(default + ':', c.name(p)) if default else c.joined(c.name(p))
    return braced(c, 'Name')


def braced(c, then):
    """a namespace in braces and what follows it"""
    m, p = c.here(), c.pos
    if c.opt('BracedURILiteral'):
        q = c.pos
        if c.opt(then):
            return c.joined(c.name(p), c.name(q))
        c.back(m)
    return ''


@spec
def wildcard(c):
    m, p = c.here(), c.pos
    if c.opt('Asterisk'):
        return c.joined(c.name(p))
    for a, b in (('Name', 'ColonAsterisk'), ('AsteriskColon', 'Name')):
        if c.opt(a):
            q = c.pos
            if c.opt(b):
                return c.joined(c.name(p), c.name(q))
            c.back(m)
    return braced(c, 'Asterisk')


def parens(c, kind, inner=lambda c: NIL, name=''):
    c.take('LeftParen')
    x = inner(c)
    c.take('RightParen')
    return N(kind, name, x)


SIMPLE = dict(CommentTest='CommentTest', TextTest='TextTest', NamespaceNodeTest='NamespaceNodeTest', AnyKindTest='AnyKindTest')


@spec
def kind_test(c):
    for f in ('document_test', 'element_test', 'attribute_test', 'schema_element_test', 'schema_attribute_test', 'pi_test', 'simple_test'):
        x = c.nt(f)
        if not c.isnil(x):
            return N('KindTest', None, x)
    return NIL


@spec
def simple_test(c):
    for t in SIMPLE:
        if c.opt(t):
            return parens(c, SIMPLE[t])
    return NIL


@spec
def document_test(c):
    def inner(c):
        x = c.nt('element_test')
        return c.nt('schema_element_test') if c.isnil(x) else x
    return parens(c, 'DocumentTest', inner) if c.opt('DocumentTest') else NIL


def owner_test(tok, kind, anytype, mark):
    def f(c):
        if not c.opt(tok):
            return NIL
        c.take('LeftParen')
        n, ty = c.text('eqname', ''), anytype
        if n is None and c.opt('Asterisk'):
            n = '*'
        if n is not None and c.opt('Comma'):
            ty = named(c, 'xs')
            if mark and c.opt('Question'):
                ty = c.joined(ty, '?')[1]
        c.take('RightParen')
        return N(kind, '*' if n is None else n, N('KindTestTypeName', ty))
    return f


SPECS['element_test'] = owner_test('ElementTest', 'ElementTest', 'xs:anyType?', True)
SPECS['attribute_test'] = owner_test('AttributeTest', 'AttributeTest', 'xs:anyType', False)


def schema_test(tok):
    def f(c):
        if not c.opt(tok):
            return NIL
        c.take('LeftParen')
        n = named(c)
        c.take('RightParen')
        return N(tok, n)
    return f


SPECS['schema_element_test'] = schema_test('SchemaElementTest')
SPECS['schema_attribute_test'] = schema_test('SchemaAttributeTest')


@spec
def pi_test(c):
    if not c.opt('PITest'):
        return NIL
    c.take('LeftParen')
    p = c.pos
    n = c.name(p) if c.opt('Name') or c.opt('StringLiteral') else ''
    c.take('RightParen')
    return N('PITest', n)


@spec
def sequence_type(c):
    if c.opt('EmptySequence'):
        return N('SequenceType', '', parens(c, 'EmptySequenceTest'))
    x = c.nt('item_type')
    if c.isnil(x):
        return NIL
    p = c.pos
    for t in ('Question', 'Asterisk', 'Plus'):
        if c.opt(t):
            return N('SequenceType', c.name(p), x)
    return N('SequenceType', '', x)


@spec
def item_type(c):
    x = c.nt('kind_test')
    if not c.isnil(x):
        return x
    if c.opt('Item'):
        return parens(c, 'ItemTest')
    for f in ('function_test', 'map_test', 'array_test'):
        x = c.nt(f)
        if not c.isnil(x):
            return x
    n = c.text('eqname', 'xs')
    if n is not None:
        return N('AtomicOrUnionType', n)
    if c.opt('LeftParen'):
        x = c.must('item_type')
        c.take('RightParen')
        return N('ParenthesizedItemType', None, x)
    return NIL


@spec
def function_test(c):
    if not c.opt('Function'):
        return NIL
    c.take('LeftParen')
    if c.opt('Asterisk'):
        c.take('RightParen')
        return N('AnyFunctionTest')
    ps = c.nt('sequence_type_list')
    c.take('RightParen')
    c.take('Name', 'as')
    return N('TypedFunctionTest', None, NIL, N('ReturnType', None, c.must('sequence_type'), ps))


@spec
def map_test(c):
    if not c.opt('MapTest'):
        return NIL
    c.take('LeftParen')
    if c.opt('Asterisk'):
        k, v = 'xs:anyAtomicType', ANY
    else:
        k = named(c, 'xs')
        c.take('Comma')
        v = c.must('sequence_type')
    c.take('RightParen')
    return N('MapTest', None, N('AtomicOrUnionType', k), v)


@spec
def array_test(c):
    if not c.opt('ArrayTest'):
        return NIL
    c.take('LeftParen')
    x = ANY if c.opt('Asterisk') else c.must('sequence_type')
    c.take('RightParen')
    return N('ArrayTest', None, x)


@spec
def single_type(c):
    n = c.text('eqname', '')
    if n is None:
        return NIL
    p = c.pos
    if c.opt('Question'):
        n = c.joined(n, c.name(p))[1]
    return N('SingleType', None, N('TypeName', n))


# ---- what each group of productions is about ------------------------------------------------------------------------------
GROUPS = dict(
    operators=[l[0] for l in LEVELS] + [t[0] for t in TYPED] + ['unary_expr', 'arrow_expr', 'expr_single'],
    paths='path_expr relative_path_expr step_expr axis_step predicate_list predicate wildcard kind_test document_test element_test attribute_test schema_element_test schema_attribute_test pi_test'.split(),
    primaries='main expr_single for_expr let_expr quantified_expr if_expr postfix_expr primary_expr literal varref parenthesized_expr context_item_expr unary_lookup eqname map_constructor map_constructor_entries map_constructor_entry square_array_constructor curly_array_constructor expr_in_array'.split(),
    calls='function_call named_function_ref inline_function_expr param param_list argument argument_list argument_list_sub arrow_expr postfix_expr'.split(),
    types='sequence_type item_type function_test sequence_type_list map_test array_test single_type'.split(),
)
ARGS = dict(predicate_list=[(('b', False),), (('b', True),)], eqname=[(('s', ''),), (('s', 'fn'),)])


def judge(ctx, G, names, wrongly=None):
    """each production of the group against the parse function of its name; wrongly: only what is accepted or refused wrongly"""
    n = paths = 0
    for name in names:
        if 'parse_' + name not in G.parsers:
            continue
        n += 1
        for extra in ARGS.get(name, [()]):
            if len(extra) != G.P.fns[G.parsers['parse_' + name]]['argc'] - 1:
                extra = (None,) * (G.P.fns[G.parsers['parse_' + name]]['argc'] - 1)
            bad, k, I_ = G.check(name, SPECS[name], LEAVES, WRAPS, extra)
            paths += k
            bad = [(w, o) for w, o in bad if wrongly is None or w.startswith(wrongly) or o is None]
            seen = set()
            for w, o in bad:
                if w in seen:
                    continue
                seen.add(w)
                ctx.check(False, '%s: %s' % (name, w), '%s: %s%s' % (name, w, '' if o is None else ' (%s)' % short_path(G, I_, o)), G.parsers['parse_' + name])
            if not bad:
                ctx.check(True, name, '', G.parsers['parse_' + name])
    ctx.count('productions', n)
    ctx.saw(*G.entered)
    return n, paths


def short_path(G, I_, o):
    from .gram import Path
    from .fold import Folds
    try:
        p = Path(G, I_, Folds(I_), o, LEAVES, WRAPS)
        return 'after ' + (', '.join(p.item(i) for i in p.items) or 'nothing')
    except Exception:
        return 'unread'
