"""Variables, and the values given for them, are found by their names."""
from sa.interp import Cfg
from sa.terms import sym, mk, const, num, NONE, TRUE, FALSE
from sa.shapes import structures, KINDS
from checks.P12 import World, X, Y, Z, cfg_for

LO = 'spec.located:'
MINIMUM = 100
NAMES = ['y', 'c', 'ab', 'a', 'longer_name', 'x1', 'x10', 'Y']
GROUPS = {'state_vars': lambda p: -1 in p, 'pure_forward_vars': lambda p: 1 in p and -1 not in p,
          'pure_backward_vars': lambda p: -1 in p and 1 not in p, 'mixed_vars': lambda p: -1 in p and 1 in p,
          'static_vars': lambda p: p == (0,), 'forward_vars': lambda p: 1 in p, 'backward_vars': lambda p: -1 in p}


def seq(xs):
    return mk('list', *xs)


def run(B):
    B.defer = True
    B.rule = ('places, names and values found in arrays of variables, for names in every position, and in models whose values are given by name, '
              'are derived from the source and compared with those of the names.')
    for a in ('VarArray.get_loc', 'ModelVar', 'EndogVar', 'StochVar', 'DetermVar'):
        B.anchor('pynare.core.variables:' + a)
    for a in ('initial', 'terminal', 'historical', 'add_endog', 'exog') + tuple(GROUPS):
        B.anchor('pynare.core.model:Model.' + a)

    def listed(I, xs, s):
        return I.call(mk('func', 'spec.given:listed'), [x if hasattr(x, 'op') else const(x) for x in xs], {}, s)

    def check(label, f, args, want):
        def go():
            I, J = B.engine(Cfg(recursion=8)), B.engine(Cfg())
            c = B.value(I, lambda s: I.R(I.call(mk('func', LO + f), [listed(I, a, s) if isinstance(a, list) else a if hasattr(a, 'op') else const(a)
                                                                     for a in args], {}, s), s))
            if isinstance(want, str):
                e = B.value(J, lambda s: J.call(mk('func', 'spec.functions:fails_' + want), [], {}, s))
                return B.compare(label, c[2], e[2])
            e = B.value(J, lambda s: want)
            B.match(label, c, e, raises=True, alive=True)
        B.guard(label, go)

    quick = B.tier != 'thorough'
    for kind in ('endog', 'stoch', 'determ'):
        for n in (1, 2, 3, 5, 8):
            names = NAMES[:n]
            tag = '%d %s variables' % (n, kind)
            said = [const(x) for x in names]
            check('names of ' + tag, 'described', [kind, names], mk('tuple', num(n), seq(said), seq(said), const(kind)))
            for i, x in enumerate(names):
                check('place of %s in %s' % (x, tag), 'found', [kind, names, x], num(i))
                check('place of the variable %s in %s' % (x, tag), 'found_by_variable', [kind, names, x], num(i))
                check('%s in %s' % (x, tag), 'contained', [kind, names, x], mk('tuple', TRUE, TRUE, FALSE))
            for x in ('z', 'A', 'longer', '', 'x'):
                check('place of %r in %s' % (x, tag), 'found', [kind, names, x], 'KeyError')
                check('%r in %s' % (x, tag), 'contained', [kind, names, x], mk('tuple', FALSE, FALSE, TRUE))
                check('places of %s and %r in %s' % (names[0], x, tag), 'found_all', [kind, names, [names[0], x]], 'KeyError')
            check('place of an unknown variable in ' + tag, 'found_by_variable', [kind, names, 'z'], 'KeyError')
            check('other things in ' + tag, 'contained_others', [kind, names], mk('tuple', FALSE, FALSE))
            orders = {tuple(names), tuple(names[::-1]), tuple(names[n // 2:] + names[:n // 2]), tuple(names[::2]), (names[-1],), (),
                      (names[-1], names[0], names[-1]), tuple(sorted(names))}
            for o in sorted(orders):
                where = seq([num(names.index(x)) for x in o])
                t = '%s in %s' % (', '.join(o) or 'nothing', tag)
                check('places of ' + t, 'found_all', [kind, names, list(o)], where)
                check('places of the variables ' + t, 'found_by_variables', [kind, names, list(o)], where)
                check('places of names and variables ' + t, 'found_by_both', [kind, names, list(o)], where)
                if o:
                    said = seq([const(x) for x in o])
                    check('places of an array of ' + t, 'found_by_array', [kind, names, list(o)], where)
                    check('variables taken by name, ' + t, 'taken', [kind, names, list(o)], mk('tuple', num(len(o)), said, said, const(kind)))
                    if len(set(o)) == len(o):
                        check('variables taken by place, ' + t, 'rearranged', [kind, names, [num(names.index(x)) for x in o]],
                              mk('tuple', num(len(o)), said, said, const(kind), seq([num(i) for i in range(len(o))])))
            for m in range(1, n):
                a, b = names[:m], names[m:]
                check('%d variables added to %d %s variables' % (n - m, m, kind), 'joined', [kind, a, b],
                      mk('tuple', num(n), seq([const(x) for x in names]), const(kind), seq([num(m + i) for i in range(n - m)])))
        for other in ('endog', 'stoch', 'determ', ''):
            if other != kind:
                for a in (1, 2):
                    check('%d %s and %s variables together' % (a, kind, other or 'other'), 'mixed', [kind, NAMES[:a], other, NAMES[a:4]], 'TypeError')
        for thing in (num(3), NONE, const('y')):
            check('%s among %s variables' % (thing.op, kind), 'strange', [kind, NAMES[:2], thing], 'TypeError')
    for thing in (num(3), NONE, mk('list', const('y'))):
        check('a name that is %s' % thing.op, 'nameless', [thing], 'TypeError')

    # groups of variables
    import checks.P27 as P27

    def grouped(ks):
        N = P27.Names(ks, 1)
        n = len(ks)

        def go(which):
            I, J = B.engine(Cfg(recursion=8)), B.engine(Cfg())

            def code(s):
                vs = [I.instantiate('pynare.core.variables:EndogVar', [const(v)],
                                    {'lead_lag': I.call(mk('func', 'spec.given:periods_of'), [num(p) for p in KINDS[k]], {}, s)}, s)
                      for v, k in zip(N.endog, N.kinds)]
                es = [I.instantiate('pynare.core.variables:StochVar', [const(e)], {}, s) for e in N.stoch]
                ls = [listed(I, x, s) for x in (vs, es)]
                m = I.instantiate('spec.shown:Shown', ls + [NONE, NONE, NONE, I.call(mk('func', 'spec.search:table'), [], {}, s)], {}, s)
                return I.R(I.call(mk('func', LO + 'group'), [m, const(which)], {}, s), s)
            want = seq([const(N.endog[i]) for i in range(n) if GROUPS[which](KINDS[ks[i]])])
            B.match('%s of %s' % (which, ks), B.value(I, code), B.value(J, lambda s: mk('tuple', want, want)), raises=True, alive=True)
        for which in GROUPS:
            B.guard('%s of %s' % (which, ks), lambda which=which: go(which))
    for ks in structures(B.tier, longest=3 if quick else 4):
        grouped(ks)

    # boundary values
    W = World(B)
    base = dict(endog=['x', 'y', 'z'], stoch=['e', 'u'], params={'a': sym('va'), 'b': sym('vb')}, eqs=[X, Y, Z])
    BOUNDS = ('initial', 'terminal', 'historical')
    SYMS = ['va', 'vb', 'bx', 'by', 'bz', 'cx', 'cz', 'one']
    given = {'all': {'x': sym('bx'), 'y': sym('by'), 'z': sym('bz')}, 'in another order': {'z': sym('bz'), 'x': sym('bx'), 'y': sym('by')},
             'only the first': {'x': sym('bx')}, 'only the last': {'z': sym('bz')}, 'the last and the first': {'z': sym('bz'), 'x': sym('bx')},
             'none': {}, 'one for all': sym('one'), 'a zero': {'y': num(0), 'x': sym('bx'), 'z': num(0)}, 'a number for all': num(2)}
    nan = B_nan()

    def bound(label, made, look, want):
        def go():
            I, J = B.engine(cfg_for(SYMS)), B.engine(cfg_for(SYMS))

            def code(s):
                return I.R(I.call(mk('func', LO + 'values'), [made(I, s), const(look)], {}, s), s)
            e = B.value(J, lambda s: mk('tuple', seq([w for _, w in want]), seq([const(v) for v, _ in want])))
            B.match(label, B.value(I, code), e, raises=True, alive=True)
        B.guard(label, go)

    def value(d, v, other):
        return d.get(v, other) if isinstance(d, dict) else d

    def defined(**kw):
        return lambda I, s: W.model(I, s, **dict(base, **kw))
    for b in BOUNDS:
        for k, d in given.items():
            none = num(0) if b == 'initial' else nan
            bound('%s values given for %s' % (b, k), defined(**{b: d}), b, [(v, value(d, v, none)) for v in base['endog']])
    two = {'x': sym('cx'), 'z': sym('cz')}
    for k in ('all', 'in another order', 'one for all', 'a number for all', 'a zero'):
        for b in ('terminal', 'historical'):
            d = given[k]
            bound('initial values given for %s, %s values for two' % (k, b), defined(**{'initial': d, b: two}), 'initial',
                  [(v, value(d, v, None)) for v in base['endog']])
            bound('%s values for two, initial values given for %s' % (b, k), defined(**{'initial': d, b: two}), b,
                  [(v, two.get(v, nan)) for v in base['endog']])

    def added(names, **kw):
        def f(I, s):
            m = W.model(I, s, **dict(base, endog=['y'], initial={'y': sym('by')}, terminal={'y': sym('by')}, historical={'y': sym('by')}))
            I.call(I.get_attr(m, 'add_endog', s), [W.names(I, names, s) if isinstance(names, list) else const(names)],
                   {k: W.table(I, v, s) if isinstance(v, dict) else v for k, v in kw.items()}, s)
            return m
        return f
    for b in BOUNDS:
        none = num(0) if b == 'initial' else nan
        for names in ('x', ['x'], ['x', 'z'], ['z', 'x']):
            for k in ('all', 'in another order', 'only the last', 'one for all', 'none'):
                d = given[k]
                bound('%s values after adding %s with values for %s' % (b, names, k), added(names, **{b: d}), b,
                      [('y', sym('by'))] + [(v, value(d, v, none)) for v in names])

    def exog(label, stoch, determ, shocks, wide, want):
        def go():
            I, J = B.engine(cfg_for(SYMS)), B.engine(cfg_for(SYMS))

            def code(s):
                m = W.model(I, s, **dict(base, stoch=stoch, determ=determ, shocks=shocks))
                return I.R(I.call(mk('func', LO + 'shocks'), [m], {}, s), s)
            B.match(label, B.value(I, code), B.value(J, lambda s: want), raises=True, alive=True)
        B.guard(label, go)
    E, D = ['e', 'eps_2', 'a3'], ['d', 'tax', 'b2']
    for i in range(0, 4):
        for j in range(0, 4):
            for back in (False, True):
                order = E[:i][::-1] + D[:j] if back else D[:j] + E[:i]
                shocks = {}
                for x in order:
                    shocks[x] = {'variance': sym('v' + x)} if x in E else {'periods': [num(1 + D.index(x)), num(4)], 'values': [sym('w' + x), num(7)]}
                exog('%d stochastic and %d deterministic variables%s' % (i, j, ', shocks in another order' if back else ''), E[:i], D[:j], shocks, None,
                     mk('tuple', seq([mk('tuple', const(x), sym('v' + x)) for x in E[:i]]),
                        seq([mk('tuple', const(x), seq([num(1 + D.index(x)), num(4)]), seq([sym('w' + x), num(7)])) for x in D[:j]]),
                        seq([const(x) for x in E[:i] + D[:j]])))


def B_nan():
    return mk('ext', 'numpy.nan')
