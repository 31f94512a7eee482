"""Sample moments of simulated paths."""
from sa.interp import Cfg
from sa.terms import sym, mk, num
from sa.terms import const
from sa.shapes import symbols
from sa.vocab import UNP, index_facts

SIM = 'pynare.simul:'
MINIMUM = 8
M, PATHS, DROP = sym('model'), sym('paths'), sym('drop')


def run(B):
    B.defer = True
    B.rule = ('the sample moments of a simulation are normalised, the loop over lags included, and compared with the '
              'normal form of their definitions.')
    for c in ('ModelSimulation', 'LinearSimulation'):
        B.anchor(SIM + c)
        B.anchor(SIM + c + '.corr')
        B.anchor(SIM + c + '.autocorr')
        for f, extra, tag in (('corr', [], ''), ('autocorr', [sym('p')], ''), ('autocorr', [num(1)], ', one lag'),
                              ('autocorr', [num(2)], ', two lags')):
            def go():
                cfg = lambda: Cfg(opaque=dict(UNP), rewrite=index_facts, sym_types={'paths': 'ndarray'})
                I, J = B.engine(cfg()), B.engine(cfg())

                def entry(s):
                    a = [M] + ([num(1)] if c[0] == 'L' else []) + [PATHS, sym('shocks')]
                    o = I.instantiate(SIM + c, a, {}, s)
                    return I.call(I.get_attr(o, f, s), list(extra), {'drop': DROP}, s)
                code = B.value(I, entry)
                spec = B.value(J, lambda s: J.call(mk('func', 'spec.sample:' + f), [M, PATHS] + list(extra) + [DROP], {}, s))
                B.match('%s.%s%s' % (c, f, tag), code, spec, raises=True)
            B.guard('%s.%s%s' % (c, f, tag), go)

    # paths of known length
    for T in (2, 3, 4, 5, 6):
        for n in (1, 2, 3):
            for drop in range(T):
                for f, lags in [('corr', None)] + [('autocorr', p) for p in (1, 2, 3, 4) if p < T - drop]:
                    label = '%s of %d periods of %d variables, %d dropped%s' % (f, T, n, drop, ', %d lags' % lags if lags else '')

                    def go():
                        cfg = lambda: Cfg(opaque=dict(UNP))
                        I, J = B.engine(cfg()), B.engine(cfg())
                        paths = symbols('y', T, n)
                        extra = [num(lags)] if lags else []

                        def entry(s):
                            o = I.instantiate(SIM + 'ModelSimulation', [M, paths, sym('shocks')], {}, s)
                            return I.call(I.get_attr(o, f, s), list(extra), {'drop': num(drop)}, s)
                        code = B.value(I, entry)
                        spec = B.value(J, lambda s: J.call(mk('func', 'spec.sample:' + f), [M, paths] + extra + [num(drop)], {}, s))
                        B.match(label, code, spec, raises=True)
                    B.guard(label, go)
