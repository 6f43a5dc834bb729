"""Abstract interpretation of the parser of expressions with the lexer as a position in an unknown sequence of tokens: every path of
every parse function is compared with the XPath grammar in what it takes and what it refuses."""
from ..gram import Gram
from ..grammar import SPECS, judge
from .. import mirai
from ..lib import *


def run(ctx):
    P = ctx.P
    G = Gram(P)
    ctx.rule('an expression is accepted only if all of it follows the grammar, and refused only if it does not')
    n, paths = judge(ctx, G, sorted(SPECS), ('is accepted', 'is refused', 'does not take', 'does not read', 'does not look', 'reads', 'drops', 'leaves', 'goes', 'returns', 'looks', 'counts', 'never'))
    ctx.floor('productions', n, 40)
    ctx.floor('paths', paths, 700)
    # steps back are taken for what they undo
    ctx.check(not G.odd, 'steps back', '; '.join('%s %s' % (f.rsplit('::', 1)[-1], w) for f, w in sorted(G.odd.items())), G.lexty)
    ctx.count('steps back', G.backsteps)
    whole(ctx, P, G)


def whole(ctx, P, G):
    """the entry: what the lexer or the parser refuses is an error, and nothing else is"""
    f = P.find('compile_xpath')
    new = P.find('Lexer::new')
    main = G.parsers.get('parse_main')
    ctx.check(main is not None, 'main', 'there is no function for a whole expression', f)
    L = {new, main}
    I_ = Interp(P, leaves=L, budget=50000)
    rets = I_.run(f)
    kinds = set()
    for o in rets:
        v = I_.norm(o.st, o.val)
        calls = [e for e in o.st.events() if e[0] == 'call' and e[1] in L]
        names = [e[1] for e in calls]
        bad = v[0] == 'A' and v[3] == 'Err' or v[0] == 'y' and o.st.known.get(v) == 'Err'
        src = [e for e in calls if o.st.known.get(e[3]) == 'Err']
        if names == [new]:
            kinds.add('lexer')
            ctx.check(bad and bool(src), 'lexer', 'a text that the lexer refuses is not refused', f)
        elif names == [new, main]:
            kinds.add('parser')
            same = v == I_.norm(o.st, calls[1][3])
            ctx.check(same or bool(src) == bad and bool(src), 'parser', 'the result is %s and not what the parser gave' % pp(v)[:150], f)
        else:
            ctx.check(False, 'steps', 'the text goes through %s' % ', '.join(names), f)
    ctx.check('parser' in kinds, 'parsed', 'the text is never parsed', f)
