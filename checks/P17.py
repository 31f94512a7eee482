"""Leads and lags of variables."""
import itertools
from sa.interp import Cfg
from sa.terms import sym, mk, const, num
from sa.nests import chains, equation

BASE = 'pynare.parsing.base:'
AST = 'pynare.parsing.ast:'
VA = 'pynare.core.variables:'
MINIMUM = 150
ENDO = ['x', 'y', 'z']


def run(B):
    B.defer = True
    B.rule = ('the collection of leads and lags is normalised for a variable at every place in every kind of node, in several '
              'equations, and compared with the set of the periods written down.')
    for a in ('read_lead_lags', 'set_lead_lags', 'EndogVar'):
        B.anchor(VA + a)
    B.anchor(AST + 'PeriodVar')
    cfg = lambda: Cfg(recursion=8)

    def tok(I, t, v, s):
        return I.instantiate(BASE + 'Token', [const(t), const(v) if isinstance(v, str) else v], {}, s)

    def number(I, s, n=None):
        return I.instantiate(AST + 'Num', [tok(I, 'NUMBER', sym('c') if n is None else num(n), s)], {}, s)

    def leaf(I, what, s):
        if what is None:
            return number(I, s)
        n, p = what
        v = I.instantiate(AST + 'Var', [tok(I, 'ID', n, s)], {}, s)
        if p is None:
            return v
        return I.instantiate(AST + 'PeriodVar', [v, tok(I, 'MINUS' if p < 0 else 'PLUS', '-' if p < 0 else '+', s),
                                                 tok(I, 'NUMBER', num(abs(p)), s)], {}, s)

    def tree(I, where, what, s):
        l = leaf(I, what, s)
        if where[0] == 'nested':
            return equation(I, l, where[1], where[2], s)
        if where[0] == 'binary':
            a = [l, tok(I, 'MUL', 'MUL', s), number(I, s)]
            l = I.instantiate(AST + 'BinaryOp', a if where[1] == 'left' else a[::-1], {}, s)
        elif where[0] == 'unary':
            l = I.instantiate(AST + 'UnaryOp', [tok(I, 'MINUS', 'MINUS', s), l], {}, s)
        elif where[0] == 'function':
            l = I.instantiate(AST + 'Function', [tok(I, 'FUNCTION', 'exp', s), l], {}, s)
        a = [l, number(I, s)]
        return I.instantiate(AST + 'ModelExpression', a if where[-1] == 'left' else a[::-1], {}, s)

    places = [('equation', 'left'), ('equation', 'right')] + [
        (k, p, q) for k in ('binary', 'unary', 'function') for p in ('left', 'right') for q in ('left', 'right') if k == 'binary' or p == 'left']
    leaves = [('x', None), ('y', None), ('x', -1), ('y', 1), ('z', 0), ('x', 1), ('e', None), ('e', -1), ('z', -2), ('y', 2), None]

    def names(xs):
        return mk('tuple', *[const(x) for x in xs])

    def periods(eqs):
        return mk('tuple', *[mk('tuple', const(n[0]), num(n[1] or 0)) for n in eqs if n is not None])

    def check(label, eqs):
        def read(I, s):
            es = I.call(mk('func', 'spec.given:listed'), [tree(I, w, x, s) for w, x in eqs], {}, s)
            return I.call(mk('func', VA + 'read_lead_lags'), [names(ENDO), es], {}, s)

        def stored(I, s):
            es = I.call(mk('func', 'spec.given:listed'), [tree(I, w, x, s) for w, x in eqs], {}, s)
            vs = [I.instantiate(VA + 'EndogVar', [const(n)], {}, s) for n in ENDO]
            r = I.call(mk('func', VA + 'set_lead_lags'), [I.instantiate('spec.given:Variables', [I.call(mk('func', 'spec.given:listed'), vs, {}, s)], {}, s), es], {}, s)
            return I.call(mk('func', 'spec.given:lead_lags'), [r], {}, s)

        for tag, how, what in (('periods', read, 'appearing'), ('stored', stored, 'periods_of')):
            if tag == 'stored' and len(eqs) < 2:
                continue

            def go():
                I, J = B.engine(cfg()), B.engine(cfg())
                c = B.value(I, lambda s: how(I, s))
                e = B.value(J, lambda s: J.call(mk('func', 'spec.timing:' + what), [names(ENDO), periods([x for w, x in eqs])], {}, s))
                B.match('%s: %s' % (label, tag), c, e, raises=True)
            B.guard('%s: %s' % (label, tag), go)

    for w in places:
        for x in leaves:
            check('%s in %s' % ('number' if x is None else x[0] if x[1] is None else '%s(%+d)' % x, ' '.join(w)), [(w, x)])
    for i, ch in enumerate(chains(B.tier)):
        for j, x in enumerate((('x', None), ('x', -1), ('y', 1))):
            if (i + j) % 3 == 0 or len(ch) < 3 or B.tier == 'thorough':
                w = ('nested', ch, ('left', 'right')[(i + j) % 2])
                check('%s in %s, %s' % (x[0] if x[1] is None else '%s(%+d)' % x, ' in '.join(ch), w[2]), [(w, x)])
    L, R = ('equation', 'left'), ('function', 'left', 'right')
    for a, b in ((('x', None), ('x', -1)), (('x', -1), ('x', 1)), (('x', -1), ('y', 1)), (('x', None), ('e', None)), (('z', 1), None), (None, ('z', -1)),
                 (('x', 1), ('x', 1))):
        check('%s and %s' % (a, b), [(L, a), (R, b)])
    check('three equations', [(L, ('x', -1)), (R, ('y', 1)), (('unary', 'left', 'right'), ('x', 1))])
    W = [L, R, ('unary', 'left', 'right'), ('binary', 'right', 'left'), ('binary', 'left', 'right'), ('function', 'left', 'left')]
    for p in (3, 4, 5, 7, 10, 12, 25):
        for q in (p, -p):
            check('an offset of %+d' % q, [(W[p % 6], ('y', q))])
    for ps in ((0, -1, 1), (1, 0, -1), (-1, -2, -3), (1, 2, 3, 4), (0, 0, -1), (-1, -1, 1), (None, -1, 1, 2), (2, -2, None), (0, 1, 2, 3, 4, 5), (-3, 3, -1)):
        check('one variable at %s' % (ps,), [(W[i % 6], ('x', p)) for i, p in enumerate(ps)])
        check('two variables at %s' % (ps,), [(W[(i + j) % 6], (n, p if n == 'x' or not p else -p)) for i, p in enumerate(ps) for j, n in enumerate('xz')])
    check('all variables', [(W[i % 6], (n, p)) for i, (n, p) in enumerate(itertools.product('yxz', (-1, None, 1)))])
