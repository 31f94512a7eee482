"""Impulse responses."""
from fractions import Fraction

from sa.interp import Cfg
from sa.helpers import helpers
from sa.terms import sym, mk, NONE, const, num, not_
from sa.arith import eq
from sa.shapes import structures, model, policies, states, symbols
from sa.vocab import UNP, index_facts

IR = 'pynare.impulse:'
MINIMUM = 18
M = sym('model')
FIRST = [sym(x) for x in ('gy', 'gu')]
SECOND = FIRST + [sym(x) for x in ('ghxx', 'ghxu', 'ghuu', 'del2')]


def run(B):
    B.defer = True
    B.rule = ('the impulse response is normalised, with the simulation it runs, and compared with the normal form of the '
              'response of the solved model to the named one-period impulse.')
    f = B.anchor(IR + 'impulse_response')
    for kind, arrs in (('first', FIRST), ('second', SECOND)):
        for name, exog in (('named shock', sym('exog')), ('first shock by default', NONE),
                           ('named shock over three periods', sym('exog')), ('shock u', const('u')), ('shock of another name over three periods', const('e_x')),
                           ('shocks e and u', mk('tuple', const('e'), const('u'))), ('shocks u and e in a list', mk('list', const('u'), const('e'))),
                           ('a list of one shock', mk('list', const('u'))), ('tuple of shocks over three periods', mk('tuple', const('u'), const('v'), const('e')))) + tuple(
                               ('shock u of size %s over %d periods' % (z, t), const('u')) for z, t in ((0, 2), (1, 1), (-1, 2), (2, 4), (1, 5), (0.5, 2))):
            T = num(3) if 'three' in name else sym('periods')
            size = sym('size')
            if ' of size ' in name:
                w = name.split()
                size, T = num(Fraction(w[4])), num(int(w[6]))
            for field, look in (('impulse', None), ('size', None), ('periods', None)):
                label = '%s order, %s: %s' % (kind, name, field)

                def go():
                    cfg = lambda: Cfg(opaque=dict(UNP), rewrite=index_facts, attr_types={'state': 'ndarray'})
                    I, J = B.engine(cfg()), B.engine(cfg())
                    known = [not_(eq(x, NONE)) for x in (exog, ) if x is not NONE]

                    def entry(s):
                        m = I.call(mk('func', 'spec.given:simulated_' + kind), [M] + arrs, {}, s)
                        return I.call(mk('func', f), [m], dict(exog=exog, periods=T, size=size), s)
                    c = B.value(I, entry, pick=field, st=B.given(*known))
                    if field == 'size':
                        e = (size, c[1], c[2])
                    else:
                        look = (lambda v, s: J.get_item(J.get_attr(v, 'shape', s), const(0), s)) if field == 'periods' else None
                        e = B.value(J, lambda s: J.call(mk('func', 'spec.paths:impulse_' + kind),
                                                        [M] + arrs + [exog, T, size], {}, s), look=look, st=B.given(*known))
                    B.match(label, c, e)
                B.guard(label, go)

    # models of known structure
    for i, ks in enumerate(structures(B.tier, longest=2)):
        if len(states(ks)) < 2 or len(ks) > 4:
            continue
        for ne in (2, 3):
            for name, exog in (('first shock by default', NONE), ('the last shock', const('e%d' % (ne - 1))), ('the first shock', const('e0')),
                               ('two shocks', mk('list', const('e1'), const('e0')))):
                for size, T in ((1, 3), (-2, 2), (0, 1)):
                    for kind, order in (('first', 1), ('second', 2)):
                        label = '%s order, %s of size %d over %d periods (%s; %d shocks)' % (kind, name, size, T, ', '.join(ks), ne)

                        def go():
                            cfg = lambda: Cfg(opaque=dict(UNP), rewrite=index_facts, attr_types={'state': 'ndarray'})
                            I, J = B.engine(cfg()), B.engine(cfg())
                            arrs = policies(ks, ne, order > 1)
                            given = lambda K, s: model(K, ks, ne, s, sigma=symbols('var', ne, ne))

                            def entry(s):
                                m = I.call(mk('func', 'spec.given:simulated_' + kind), [given(I, s)] + arrs, {}, s)
                                return I.call(mk('func', f), [m], dict(exog=exog, periods=num(T), size=num(size)), s)
                            c = B.value(I, entry, pick='impulse')
                            e = B.value(J, lambda s: J.call(mk('func', 'spec.paths:impulse_' + kind), [given(J, s)] + arrs + [exog, num(T), num(size)], {}, s))
                            B.match(label, c, e)
                        B.guard(label, go)
    helpers(B, 'ensure_2darray', 'matmul_scalar', 'matrix_kronecker_product')
