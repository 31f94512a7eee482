"""Models of known structure, with arbitrary derivatives."""
import itertools
from sa.terms import mk, const, num, sym

KINDS = {'static': (0,), 'backward': (-1, 0), 'forward': (0, 1), 'mixed': (-1, 0, 1), 'lag only': (-1,), 'lead only': (1,), 'lag and lead': (-1, 1)}
USUAL = ['static', 'backward', 'forward', 'mixed']


def structures(tier, usual=USUAL, longest=3):
    """Sequences of kinds of variables, in the order of declaration."""
    for n in range(1, longest + (2 if tier == 'thorough' else 1)):
        yield from itertools.product(usual, repeat=n)
    for n in ((4, 5) if tier != 'thorough' else (5,)):
        # one of each order of declaration up to rotation
        for ks in itertools.combinations_with_replacement(usual, n):
            if len(set(ks)) > 1:
                yield ks[1:] + ks[:1]
                yield ks[::-1]


def grid(rows):
    return mk('arr', *[mk('arr', *r) for r in rows])


def symbols(name, n, m):
    return grid([[sym('%s%d_%d' % (name, i, j)) for j in range(m)] for i in range(n)])


def columns(kinds):
    return sum(len(KINDS[k]) for k in kinds)


def model(I, kinds, ne, s, jac=None, hess=None, sigma=None):
    n = len(kinds)
    vs = [I.instantiate('pynare.core.variables:EndogVar', [const('v%d' % i)],
                        {'lead_lag': I.call(mk('func', 'spec.given:periods_of'), [num(p) for p in KINDS[k]], {}, s)}, s) for i, k in enumerate(kinds)]
    endog = I.call(mk('func', 'spec.given:listed'), vs, {}, s)
    stoch = I.call(mk('func', 'spec.given:listed'), [I.instantiate('pynare.core.variables:StochVar', [const('e%d' % i)], {}, s) for i in range(ne)], {}, s)
    c = columns(kinds) + ne
    return I.instantiate('spec.given:Structured', [
        endog, stoch, symbols('J', n, c) if jac is None else jac,
        hess if hess is not None else sym('hessian'), sigma if sigma is not None else sym('sigma'),
        mk('arr', *[sym('ss%d' % i) for i in range(n)]), sym('space')], {}, s)


def states(kinds):
    return [k for k in kinds if -1 in KINDS[k]]


def policies(kinds, ne, second=False):
    """Policy matrices of arbitrary values, a row per variable."""
    n, k = len(kinds), len(states(kinds))
    first = [symbols('gy', n, k), symbols('gu', n, ne)]
    return first + [symbols('gxx', n, k * k), symbols('gxu', n, k * ne), symbols('guu', n, ne * ne), mk('arr', *[sym('del%d' % i) for i in range(n)])] if second else first


def squeezed(t):
    """Without the axes of length one."""
    while t.op == 'arr' and len(t.args) == 1:
        t = t.args[0]
    if t.op == 'arr' and all(x.op == 'arr' and len(x.args) == 1 for x in t.args):
        return squeezed(mk('arr', *[x.args[0] for x in t.args]))
    return t
