"""Abstract interpretation of the parser of expressions with the lexer as a position in an unknown sequence of tokens: every path of
every parse function concerned is compared, step by step and in the tree it gives, with the production of the XPath grammar."""
from ..gram import Gram
from ..grammar import GROUPS, judge


def run(ctx):
    G = Gram(ctx.P)
    ctx.rule('a type in an expression gives the nodes of its parts')
    n, paths = judge(ctx, G, GROUPS['types'])
    ctx.floor('productions', n, 4)
    ctx.floor('paths', paths, 60)
