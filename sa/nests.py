"""Expressions with operators applied to operators."""
import itertools
from sa.terms import mk, const, num, sym

BASE = 'pynare.parsing.base:'
AST = 'pynare.parsing.ast:'
SMALL = ['MUL left', 'MINUS right', 'POWER right', 'DIV left', 'PLUS right', '-', 'exp', 'log', 'sqrt']
FULL = ['%s %s' % (o, p) for o in 'PLUS MINUS MUL DIV POWER'.split() for p in ('left', 'right')] + ['-', '+'] + \
    'exp log ln log10 sqrt abs sign sin cos tan asin acos atan erf'.split()


def chains(tier):
    """Sequences of wrappers, innermost first: all pairs, and triples."""
    if tier == 'thorough':
        yield from itertools.product(FULL, repeat=2)
        yield from itertools.product(SMALL, repeat=3)
    else:
        yield from itertools.product(FULL, repeat=2)
        yield from itertools.product(['MUL left', 'MINUS right', '-', 'exp'], repeat=3)


def token(I, t, v, s):
    return I.instantiate(BASE + 'Token', [const(t), const(v) if isinstance(v, str) else v], {}, s)


def number(I, s, v=None):
    return I.instantiate(AST + 'Num', [token(I, 'NUMBER', sym('c') if v is None else v, s)], {}, s)


def nested(I, l, chain, s):
    """The tree of the chain around the leaf."""
    for w in chain:
        if ' ' in w:
            op, place = w.split()
            a = [l, token(I, op, op, s), number(I, s)]
            l = I.instantiate(AST + 'BinaryOp', a if place == 'left' else a[::-1], {}, s)
        elif w in '+-':
            op = 'PLUS' if w == '+' else 'MINUS'
            l = I.instantiate(AST + 'UnaryOp', [token(I, op, op, s), l], {}, s)
        else:
            l = I.instantiate(AST + 'Function', [token(I, 'FUNCTION', w, s), l], {}, s)
    return l


def equation(I, l, chain, side, s):
    a = [nested(I, l, chain, s), number(I, s, sym('d'))]
    return I.instantiate(AST + 'ModelExpression', a if side == 'left' else a[::-1], {}, s)


def worth(J, v, chain, s, side=None):
    """The meaning of the chain, the leaf being worth v."""
    V = lambda n: mk('func', 'spec.values:' + n)
    for w in chain:
        if ' ' in w:
            op, place = w.split()
            a = [v, sym('c')]
            v = J.call(V('binary'), [const(op)] + (a if place == 'left' else a[::-1]), {}, s)
        elif w in '+-':
            v = J.call(V('unary'), [const('PLUS' if w == '+' else 'MINUS'), v], {}, s)
        else:
            v = J.call(V('function'), [const(w), v], {}, s)
    if side:
        a = [v, sym('d')]
        v = J.call(V('binary'), [const('MINUS')] + (a if side == 'left' else a[::-1]), {}, s)
    return v
