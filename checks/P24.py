"""Theoretical moments."""
from sa.interp import Cfg
from sa.helpers import helpers
from sa.terms import sym, mk, NONE, TRUE, FALSE, const, num, not_
from sa.arith import eq
from sa.shapes import structures, model, policies, states, symbols, squeezed
from sa.vocab import UNP, index_facts

MO = 'pynare.stats.moments:'
SS = 'pynare.core.solve.statespace:'
MINIMUM = 50
M = sym('model')
FIRST = [sym(x) for x in ('gy', 'gu')]
SECOND = FIRST + [sym(x) for x in ('ghxx', 'ghxu', 'ghuu', 'del2')]


def run(B):
    B.defer = True
    B.rule = ('every moment function is normalised, with the loop over lags, and compared with the normal form of the '
              'moments of the state space form of the solution.')
    cfg = lambda: Cfg(opaque=dict(UNP), rewrite=index_facts, attr_types={'state': 'ndarray'})
    p = sym('p')
    lags = [('', p), (' (one lag)', num(1)), (' (two lags)', num(2))]

    for kind, arrs in (('first', FIRST), ('second', SECOND)):
        for case in (('mean', []), ('cov', []), ('var', []), ('std', []), ('corr', []), *(('auto' + x, [n], t) for x in ('cov', 'corr') for t, n in lags)):
            f, extra, *more = case
            for solved in (TRUE, FALSE):
                label = '%s%s, %s order%s' % (f, ''.join(more), kind, '' if solved is TRUE else ', not solved before')

                def go():
                    I, J = B.engine(cfg()), B.engine(cfg())

                    def entry(s):
                        m = I.call(mk('func', 'spec.given:measured_' + kind), [M] + arrs + [solved], {}, s)
                        return I.call(mk('func', B.anchor(MO + f)), [m] + extra, {}, s)
                    c = B.value(I, entry)
                    g, a = ('mean_' + kind, arrs) if f == 'mean' else (f, FIRST)
                    e = B.value(J, lambda s: J.call(mk('func', 'spec.moments:' + g), [M] + a + extra, {}, s))
                    B.match(label, c, e)
                B.guard(label, go)

    # the state equation the moments are built on
    B.anchor(SS + 'StateSpace.sigma')
    for field, g in (('sigma', 'state_space_sigma'), ('kalman_transition', 'transition')):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())

            def entry(s):
                m = I.call(mk('cls', 'spec.given:Transition'), [M] + FIRST, {}, s)
                return I.instantiate(B.anchor(SS + 'StateSpace'), [m], {}, s)
            c = B.value(I, entry, pick=field)
            e = B.value(J, lambda s: J.call(mk('func', 'spec.moments:' + g), [M] + FIRST, {}, s))
            B.match('state space: ' + field, c, e)
        B.guard('state space: ' + field, go)

    # the interface through which users reach them
    ST = 'pynare.stats.stats:'
    for f in ('mean', 'cov', 'var', 'std', 'corr', 'autocov', 'autocorr'):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            extra = {'p': p} if f.startswith('auto') else {}

            def entry(s):
                m = I.call(mk('func', 'spec.given:measured_second'), [M] + SECOND + [TRUE], {}, s)
                o = I.instantiate(B.anchor(ST + 'ModelStatistics'), [m], {}, s)
                return I.call(I.get_attr(o, f, s), [], dict(extra), s)
            c = B.value(I, entry)
            g, a = ('mean_second', SECOND) if f == 'mean' else (f, FIRST)
            e = B.value(J, lambda s: J.call(mk('func', 'spec.moments:' + g), [M] + a + list(extra.values()), {}, s))
            B.match('interface: ' + f, c, e)
        B.guard('interface: ' + f, go)

    for ks in (('backward',), ('mixed', 'static'), ('backward', 'backward')):
        for f in ('mean', 'cov', 'var', 'std', 'corr', 'autocov', 'autocorr'):
            def go():
                I, J = B.engine(cfg()), B.engine(cfg())
                extra = {'p': num(2)} if f.startswith('auto') else {}
                given = lambda K, s: model(K, ks, 1, s, sigma=symbols('var', 1, 1))
                arrs = policies(ks, 1, True)

                def entry(s):
                    m = I.call(mk('func', 'spec.given:measured_second'), [given(I, s)] + arrs + [TRUE], {}, s)
                    o = I.instantiate(ST + 'ModelStatistics', [m], {}, s)
                    return I.call(I.get_attr(o, f, s), [], dict(extra), s)
                c = B.value(I, entry)
                g, a = ('mean_second', arrs) if f == 'mean' else (f, arrs[:2])
                e = B.value(J, lambda s: J.call(mk('func', 'spec.moments:' + g), [given(J, s)] + a + list(extra.values()), {}, s))
                B.match(label, c, e)
            label = 'interface: %s (%s)' % (f, ', '.join(ks))
            B.guard(label, go)

    # models of known structure
    for ks in structures(B.tier, longest=3):
        if not states(ks):
            continue
        for ne in (1, 2, 3):
            tag = ' (%s; %d shock%s)' % (', '.join(ks), ne, 's'[:ne - 1])
            given = lambda K, s: model(K, ks, ne, s, sigma=symbols('var', ne, ne))
            for kind, arrs in (('first', policies(ks, ne)), ('second', policies(ks, ne, True))):
                for f, extra in (('mean', []), ('cov', []), ('corr', []), ('autocov', [num(1)]), ('autocov', [num(4)]), ('autocorr', [num(2)])):
                    if f not in ('mean', 'cov') and (kind == 'second') != (ne == 2) and B.tier == 'quick':
                        continue
                    label = '%s%s, %s order%s' % (f, ' of %d lags' % extra[0].args[1] if extra else '', kind, tag)

                    def go():
                        I, J = B.engine(cfg()), B.engine(cfg())

                        def entry(s):
                            m = I.call(mk('func', 'spec.given:measured_' + kind), [given(I, s)] + arrs + [TRUE], {}, s)
                            return I.call(mk('func', MO + f), [m] + extra, {}, s)
                        c = B.value(I, entry)
                        g, a = ('mean_' + kind, arrs) if f == 'mean' else (f, arrs[:2])
                        e = B.value(J, lambda s: J.call(mk('func', 'spec.moments:' + g), [given(J, s)] + a + extra, {}, s))
                        B.match(label, c, e)
                    B.guard(label, go)
            for field, g in (('sigma', 'state_space_sigma'), ('kalman_transition', 'transition')):
                def go():
                    I, J = B.engine(cfg()), B.engine(cfg())
                    arrs = policies(ks, ne)

                    def entry(s):
                        m = I.call(mk('cls', 'spec.given:Transition'), [given(I, s)] + arrs, {}, s)
                        return I.instantiate(SS + 'StateSpace', [m], {}, s)
                    c = B.value(I, entry, pick=field)
                    e = B.value(J, lambda s: J.call(mk('func', 'spec.moments:' + g), [given(J, s)] + arrs, {}, s))
                    B.match('state space: ' + field + tag, c, e)
                B.guard('state space: ' + field + tag, go)
    helpers(B, 'ensure_2darray', 'matmul_scalar')
