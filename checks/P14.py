"""Models are independent of each other and of what they were made from."""
from sa.terms import sym, mk, const, num
from checks.P12 import MO, SEEN, World, base, call, cfg, change
from checks.P13 import rich, touch, variants

MINIMUM = 60
STORED = ('variables', 'shocks', 'parameters', 'definition', 'names')
EMPTY = ('names', 'variables', 'shocks', 'parameters', 'definition')
OWNED = ('parameter', 'new parameter', 'equation', 'equations', 'variable', 'variables', 'shock', 'path')
TOUCHED = ('parameter set', 'local parameter set', 'equation dropped', 'equation replaced', 'boundary value', 'variance')


def run(B):
    B.defer = True
    B.rule = ('what a model gives after another model was changed, defined by default or from the same arguments, is normalised and compared '
              'with the normal form of what an untouched model gives; likewise for the arguments it was defined from.')
    B.anchor(MO)
    W = World(B)

    def pair(label, f, g):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            c, e = B.value(I, lambda s: f(I, s)), B.value(J, lambda s: g(J, s))
            B.match(label, c, e, raises=True, alive=True)
        B.guard(label, go)

    def blank(I, s):
        return I.instantiate(MO, [], {}, s)

    # models with nothing in their definition
    for k in OWNED:
        for what in EMPTY:
            def f(I, s):
                m, n = blank(I, s), blank(I, s)
                change(k, W, I, m, s)
                return W.see(I, n, 'stored_' + what if what == 'variables' else what, s)

            def late(I, s):
                change(k, W, I, blank(I, s), s)
                return W.see(I, blank(I, s), 'stored_' + what if what == 'variables' else what, s)

            def g(I, s):
                return W.see(I, blank(I, s), 'stored_' + what if what == 'variables' else what, s)
            pair('%s of an empty model after a change of %s of another' % (what, k), f, g)
            pair('%s of an empty model defined after a change of %s of another' % (what, k), late, g)

    # two models from one set of arguments, and the arguments themselves
    def args(I, s):
        return W.arguments(I, s, **rich())

    for k in OWNED[:2] + ('shock', 'path', 'variable', 'equation', 'equations') + TOUCHED:
        for what in STORED:
            def f(I, s):
                kw = args(I, s)
                m, n = I.instantiate(MO, [], dict(kw), s), I.instantiate(MO, [], dict(kw), s)
                touch(k, W, I, m, s)
                return W.see(I, n, what, s)

            def late(I, s):
                kw = args(I, s)
                touch(k, W, I, I.instantiate(MO, [], dict(kw), s), s)
                return W.see(I, I.instantiate(MO, [], dict(kw), s), what, s)

            def g(I, s):
                return W.see(I, I.instantiate(MO, [], args(I, s), s), what, s)
            pair('%s after a change of %s of a model with the same definition' % (what, k), f, g)
            pair('%s of a model defined after a change of %s of one with the same definition' % (what, k), late, g)

        def given(I, s):
            kw = args(I, s)
            m = I.instantiate(MO, [], dict(kw), s)
            touch(k, W, I, m, s)
            for what in ('covariance', 'solution', 'steadystate'):
                if k not in ('variable', 'equation', 'equations', 'equation dropped', 'equation replaced'):
                    W.see(I, m, what, s)
            return mk('tuple', *[I.R(kw[x], s) for x in sorted(kw)])

        def untouched(I, s):
            kw = args(I, s)
            return mk('tuple', *[I.R(kw[x], s) for x in sorted(kw)])
        pair('arguments of a model after a change of ' + k, given, untouched)

    # arguments with entries left out
    sparse = [('only some shocks', rich()), ('no shock', dict(rich(), shocks={})), ('only initial values', dict(rich(), terminal={}, historical={}))]
    sparse[0][1]['shocks'] = {'u': {'variance': sym('m1')}}
    for label, d in sparse + list(variants()):
        def kept(I, s, d=d):
            kw = W.arguments(I, s, **d)
            for _ in range(2):
                m = I.instantiate(MO, [], dict(kw), s)
            W.see(I, m, 'covariance', s)
            return mk('tuple', *[I.R(kw[x], s) for x in sorted(kw)])

        def unused(I, s, d=d):
            kw = W.arguments(I, s, **d)
            return mk('tuple', *[I.R(kw[x], s) for x in sorted(kw)])
        pair('arguments of a model with ' + label, kept, unused)
        for what in STORED:
            def again(I, s, d=d):
                kw = W.arguments(I, s, **d)
                I.instantiate(MO, [], dict(kw), s)
                return W.see(I, I.instantiate(MO, [], kw, s), what, s)

            def once(I, s, d=d):
                return W.see(I, I.instantiate(MO, [], W.arguments(I, s, **d), s), what, s)
            pair('%s of the second model with the same definition, %s' % (what, label), again, once)

        def blank_after(I, s, d=d):
            W.model(I, s, **d)
            return mk('tuple', *[W.see(I, blank(I, s), 'stored_' + w if w == 'variables' else w, s) for w in EMPTY])

        def blank_alone(I, s):
            return mk('tuple', *[W.see(I, blank(I, s), 'stored_' + w if w == 'variables' else w, s) for w in EMPTY])
        pair('an empty model after a model with ' + label, blank_after, blank_alone)

    # arguments of changes
    moments = {'none': {}, 'one': {'u': {'variance': sym('m1')}}, 'another': {'w': {'variance': sym('m2')}}, 'all': {'u': {'variance': sym('m1')}, 'v': {'variance': sym('m2')}}}
    paths = {'none': {}, 'one': {'u': {'periods': [num(1)], 'values': [sym('m7')]}}, 'another': {'w': {'periods': [num(2)], 'values': [sym('m8')]}}}
    bounds = {'none': {}, 'one': {'u': sym('m3')}, 'another': {'w': sym('m4')}, 'all': {'u': sym('m3'), 'v': num(0)}}
    for method, kws in (('add_stoch', [('shocks', v) for v in moments.items()]), ('add_determ', [('shocks', v) for v in paths.items()]),
                        ('add_endog', [(k, v) for k in ('initial', 'terminal', 'historical') for v in bounds.items()])):
        for who in (['u'], ['u', 'v']):
            for k, (label, d) in kws:
                def used(I, s, after=None):
                    xs, t = W.names(I, who, s), W.table(I, d, s)
                    for i in range(2):
                        I.call(I.get_attr(W.model(I, s, **base()), method, s), [xs], {k: t}, s)
                    return mk('tuple', I.R(xs, s), I.R(t, s))

                def idle(I, s):
                    return mk('tuple', I.R(W.names(I, who, s), s), I.R(W.table(I, d, s), s))
                pair('arguments of %s of %s, with %s values for %s' % (method, ', '.join(who), k, label), used, idle)

                def second(I, s):
                    # the next model, with nothing said about these variables
                    I.call(I.get_attr(W.model(I, s, **base()), method, s), [W.names(I, who, s)], {k: W.table(I, d, s)}, s)
                    m = W.model(I, s, **base())
                    I.call(I.get_attr(m, method, s), [W.names(I, who, s)], {}, s)
                    return mk('tuple', *[W.see(I, m, 'stored_' + w if w == 'variables' else w, s) for w in ('shocks', 'variables', 'names')])

                def only(I, s):
                    m = W.model(I, s, **base())
                    I.call(I.get_attr(m, method, s), [W.names(I, who, s)], {}, s)
                    return mk('tuple', *[W.see(I, m, 'stored_' + w if w == 'variables' else w, s) for w in ('shocks', 'variables', 'names')])
                pair('a model after %s of %s in another, with %s values for %s' % (method, ', '.join(who), k, label), second, only)

    # a model defined from parts of another
    def made_from(parts):
        def f(I, m, s):
            kw = args(I, s)
            for p in parts:
                kw[p] = I.get_attr(m, p, s)
            return I.instantiate(MO, [], kw, s)
        return f

    for parts in (['exprs'], ['params'], ['exprs', 'params'], ['local_params'], ['exprs', 'params', 'local_params']):
        make = made_from(parts)
        for k in OWNED + ('parameter set', 'local parameter set', 'equation dropped', 'equation replaced'):
            for what in STORED:
                for side in (0, 1):
                    def f(I, s):
                        m = I.instantiate(MO, [], args(I, s), s)
                        ms = [m, make(I, m, s)]
                        touch(k, W, I, ms[side], s)
                        return W.see(I, ms[1 - side], what, s)
                    pair('%s of a model %s after a change of %s' % (what, ('made with the %s of another,' if side else 'whose %s another was made with,') % ', '.join(parts), k),
                         f, lambda I, s: W.see(I, I.instantiate(MO, [], args(I, s), s), what, s))
