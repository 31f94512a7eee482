"""Simulated paths follow the policy function."""
from sa.arith import eq
from sa.interp import Cfg
from sa.helpers import helpers
from sa.terms import sym, mk, not_, NONE, const, num
from sa.shapes import squeezed, structures, model, policies, states, symbols
from sa.vocab import UNP, index_facts

SIM = 'pynare.simul:'
MINIMUM = 20
M = sym('model')
FIRST = [sym(x) for x in ('gy', 'gu')]
SECOND = FIRST + [sym(x) for x in ('ghxx', 'ghxu', 'ghuu', 'del2')]


def cfg(opaque=True):
    op = dict(UNP) if opaque else {}
    return Cfg(opaque=op, rewrite=index_facts, attr_types={'state': 'ndarray'})


def run(B):
    B.defer = True
    B.rule = ('the paths returned by the public simulation routine are normalised, the recursion over periods '
              'included, and compared with the normal form of the recursion of the policy function.')
    f = B.anchor(SIM + 'simulate')
    cases = [('given shocks, given start', sym('shocks'), sym('init')),
             ('given shocks, from the steady state', sym('shocks'), NONE),
             ('random shocks, from the steady state', NONE, NONE),
             ('three periods of random shocks', NONE, NONE),
             ('three periods of random shocks, given start', NONE, sym('init'))]
    for kind, arrs in (('first', FIRST), ('second', SECOND)):
        for name, shocks, init in cases:
            T = num(3) if 'three' in name else sym('periods')
            for order in (0, {'first': 1, 'second': 2}[kind]):
                def go():
                    I, J = B.engine(cfg()), B.engine(cfg())

                    def entry(s):
                        m = I.call(mk('func', 'spec.given:simulated_' + kind), [M] + arrs, {}, s)
                        return I.call(mk('func', f), [m], dict(shocks=shocks, periods=T, init=init, order=num(order)), s)
                    known = [not_(eq(x, NONE)) for x in (shocks, init) if x is not NONE]
                    c = B.value(I, entry, pick='paths', st=B.given(*known))
                    e = B.value(J, lambda s: J.call(mk('func', 'spec.paths:' + kind), [M] + arrs + [shocks, T, init], {}, s),
                                st=B.given(*known))
                    B.match(label, c, e)
                label = '%s order, %s%s' % (kind, name, ', solved on request' if order else '')
                B.guard(label, go)

    # models of known structure over a known number of periods
    for kind, order in (('first', 1), ('second', 2)):
        for ks in structures(B.tier):
            if not states(ks) or len(ks) > (3 if B.tier == 'quick' else 4):
                continue
            for ne in (1, 2, 3):
                for T in ((1, 2, 3, 5) if order == 1 else (1, 2, 3)):
                    for init in (NONE, sym('init')):
                        def go():
                            I, J = B.engine(cfg()), B.engine(cfg())
                            shocks = symbols('shock', T, ne)
                            known = [not_(eq(init, NONE))] if given else []
                            one = len(states(ks)) == 1

                            def arrs():
                                ps = policies(ks, ne, order > 1)
                                return [squeezed(ps[0])] + ps[1:] if one else ps

                            def entry(s):
                                m = I.call(mk('func', 'spec.given:simulated_' + kind), [model(I, ks, ne, s, sigma=symbols('var', ne, ne))] + arrs(), {}, s)
                                return I.call(mk('func', f), [m], dict(shocks=shocks, init=init), s)
                            c = B.value(I, entry, pick='paths', st=B.given(*known))
                            rule = 'spec.paths:' + kind + ('_of_one' if one and order == 1 else '')
                            e = B.value(J, lambda s: J.call(mk('func', rule), [model(J, ks, ne, s, sigma=symbols('var', ne, ne))] + arrs() + [shocks, num(200), init], {}, s),
                                        st=B.given(*known))
                            B.match(label, c, e)
                        given = init is not NONE
                        label = '%s order, %d period%s (%s; %d shock%s)%s' % (kind, T, 's'[:T - 1], ', '.join(ks), ne, 's'[:ne - 1], ', given start' if given else '')
                        B.guard(label, go)
    helpers(B, 'ensure_2darray', 'matmul_scalar', 'matrix_kronecker_product')
