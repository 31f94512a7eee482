"""The steady state is searched for with the right objective, start and algorithm."""
from fractions import Fraction
from sa.interp import Cfg
from sa.terms import sym, mk, const, num, NONE
from checks.P12 import World, made, X, Y, Z, V, U

MINIMUM = 60
S = 'pynare.core.steady:SteadyState'
SEARCH = ['fun', 'x0', 'args', 'method', 'jac', 'hess', 'hessp', 'bounds', 'constraints', 'tol', 'callback', 'options']
ATTEMPTS = [('by default', [], {}, 'cg'), ('dynare 8', [num(8)], {}, 'cg'), ('an empty name', [const('')], {}, 'cg'), ('None', [NONE], {}, 'cg'),
            ('dynare 8 with a tolerance', [num(8)], {'tol': sym('t')}, 'cg'), ('nelder-mead', [const('nelder-mead')], {}, 'nelder-mead'),
            ('with options', [], {'tol': sym('t'), 'callback': sym('k')}, 'cg'), ('nelder-mead with options', [const('nelder-mead')], {'options': sym('o')}, 'nelder-mead')]
MODELS = [
    ('two variables', dict(endog=['x', 'y'], eqs=[X, Y], initial={'x': num(3), 'y': num(5)}), {'x': 3, 'y': 5}),
    ('declared the other way', dict(endog=['y', 'x'], eqs=[X, Y], initial={'x': num(3), 'y': num(5)}), {'x': 3, 'y': 5}),
    ('no initial values', dict(endog=['x', 'y'], eqs=[Y, X]), {'x': 0, 'y': 0}),
    ('one initial value', dict(endog=['x', 'y'], eqs=[Y, X], initial={'y': num(-2)}), {'x': 0, 'y': -2}),
    ('one variable', dict(endog=['x'], eqs=[X], initial={'x': num(7)}), {'x': 7}),
    ('three variables', dict(endog=['z', 'x', 'y'], eqs=[Z, X, Y], initial={'z': num(1), 'y': num(4)}), {'z': 1, 'x': 0, 'y': 4}),
    ('more equations', dict(endog=['x', 'y'], eqs=[X, V, U, Y], initial={'x': num(3)}), {'x': 3, 'y': 0}),
    ('fewer equations', dict(endog=['x', 'y'], eqs=[V], initial={'x': num(3)}), {'x': 3, 'y': 0}),
    ('boundary values', dict(endog=['x', 'y'], eqs=[X, Y], initial={'x': num(3), 'y': num(5)}, terminal={'x': num(8), 'y': num(9)},
                             historical={'y': num(6)}), {'x': 3, 'y': 5}),
]

ANYWHERE, ANY = [sym('at %d' % i) for i in range(4)], {'a': sym('value of a'), 'b': sym('value of b')}
SOMEWHERE = [([num(3), num(-2), num(Fraction(1, 2))], {'a': num(Fraction(1, 2)), 'b': num(Fraction(-3, 4))}),
             ([num(0), num(0), num(0)], {'a': num(2), 'b': num(1)}), ([num(Fraction(-1, 100)), num(5), num(40)], {'a': num(0), 'b': num(Fraction(9, 10))})]


def run(B):
    B.defer = True
    B.rule = ('the search that the steady state starts is derived, with everything it calls inlined: its objective at an arbitrary point, its '
              'starting point, algorithm and options are compared with the sum of squared residuals of the equations as written.')
    B.anchor(S + '.compute')
    B.anchor(S + '.values')
    B.anchor(S + '.results')
    W = World(B)

    def cfg(n, points):
        def search(I, name, args, kw, st):
            if name == 'numpy.vectorize':
                return args[0]
            if name != 'scipy.optimize.minimize':
                return None
            given = dict(zip(SEARCH, args))
            given.update(kw)
            if 'fun' not in given or 'x0' not in given:
                I.raise_(st, mk('exc', 'TypeError'))
                return NONE
            point = I.call(mk('func', 'spec.functions:whole'), [mk('arr', *points[:n])], {}, st)
            extra = given.pop('args', None)
            extra = [] if extra is None else list(I.V(extra, st).args)
            objective = I.call(given.pop('fun'), [point] + extra, {}, st)
            start = given.pop('x0')
            method = I.V(given.pop('method', NONE), st)
            if method is NONE:
                method = const('that of the library')
            elif method.op == 'const':
                method = const(method.args[1].lower())
            opts = I.call(mk('func', 'spec.search:table'), [mk('tuple', const(k), v) for k, v in sorted(given.items())], {}, st)
            return I.instantiate('spec.search:Found', [objective, start, method, opts], {}, st)
        numbers = ['at %d' % i for i in range(n)] + ['value of a', 'value of b', 'm0']
        return Cfg(recursion=8, sym_types={x: 'num' for x in numbers}, hooks=[search], opaque={'StateSpace': made('state space', 'place')})

    def found(J, kw, starts, options, method, points, calibration, s):
        at = dict(zip(kw['endog'], points))
        at.update(calibration, e=num(0))

        def val(t):
            if isinstance(t, tuple):
                return J.call(mk('func', 'spec.search:' + {'*': 'times', '+': 'plus', '-': 'minus'}[t[0]]), [val(t[1]), val(t[2])], {}, s)
            return num(t) if isinstance(t, int) else at[t.split('(')[0]]
        rs = [J.call(mk('func', 'spec.search:minus'), [val(l), val(r)], {}, s) for l, r in kw['eqs']]
        objective = J.call(mk('func', 'spec.search:squares'), [mk('tuple', *rs)], {}, s)
        start = J.call(mk('func', 'spec.functions:whole'), [mk('arr', *[num(starts[v]) for v in kw['endog']])], {}, s)
        opts = J.call(mk('func', 'spec.search:table'), [mk('tuple', const(k), v) for k, v in sorted(options.items())], {}, s)
        return J.instantiate('spec.search:Found', [objective, start, const(method), opts], {}, s)

    def check(label, kw, starts, view, args, options, method, points=ANYWHERE, calibration=ANY):
        n = len(kw['endog'])

        def searched(I, s):
            d = dict(stoch=['e'], params=calibration, shocks={'e': {'variance': sym('m0')}})
            m = W.model(I, s, **{**d, **kw})
            return I.R(I.call(mk('func', 'spec.search:' + view), [m, mk('tuple', *args), W.table(I, options, s)], {}, s), s)

        def wanted(J, s):
            fs = [found(J, kw, starts, options, method, points, calibration, s)]
            if view in ('computed_again', 'computed_back', 'separate'):
                fs.append(found(J, kw, starts, {}, 'cg', points, calibration, s))
            return J.R(J.call(mk('func', 'spec.search:sees_' + view), fs, {}, s), s)

        def go():
            I, J = B.engine(cfg(n, points)), B.engine(cfg(n, points))
            B.match(label, B.value(I, lambda s: searched(I, s)), B.value(J, lambda s: wanted(J, s)), raises=True, alive=True)
        B.guard(label, go)

    for tag, kw, starts in MODELS:
        for how, args, options, method in ATTEMPTS:
            for view in ('compute', 'computed_values', 'computed_again', 'computed_back', 'separate'):
                check('%s, %s: %s' % (tag, how, view.replace('_', ' ')), kw, starts, view, args, options, method)
        for points, calibration in SOMEWHERE:
            for how, args, options, method in (ATTEMPTS[0], ATTEMPTS[7]):
                check('%s, %s: objective at %s, parameters %s' % (tag, how, ', '.join(map(str, points)), ', '.join(map(str, calibration.values()))),
                      kw, starts, 'compute', args, options, method, points, calibration)
        for view in ('values', 'results', 'kept', 'unsearched'):
            check('%s: %s' % (tag, view), kw, starts, view, [], {}, 'cg')
        for how, args in (('an unknown name', [const('simplex')]), ('a number that is not one of dynare', [num(12)]), ('a negative number', [num(-1)])):
            check('%s, %s: fails' % (tag, how), kw, starts, 'refused', args, {}, '')
