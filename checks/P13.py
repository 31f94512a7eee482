"""Copies of a model."""
from sa.terms import sym, mk, const, num
from checks.P12 import MO, HISTORIES, SEEN, World, base, call, cfg, change, after, X, Y, Z

MINIMUM = 60
DIRECT = ('parameter set', 'local parameter set', 'equation dropped', 'equation replaced', 'boundary value', 'variance', 'variance of a partner')
STORED = ('variables', 'shocks', 'parameters', 'definition')


def rich(**kw):
    d = base(**kw)
    d['stoch'] = ['e', 'u']
    d['shocks'] = {'e': {'variance': sym('m0'), 'corr': sym('m2'), 'other': const('u')}, 'u': {'variance': sym('m1')},
                   'd': {'periods': [num(1), num(4)], 'values': [sym('m7'), sym('m8')]}}
    d['determ'] = ['d']
    d['initial'] = {'x': sym('m3')}
    d['terminal'] = {'x': sym('m4'), 'y': sym('m5')}
    d['historical'] = {'y': sym('m6')}
    d['local_params'] = {'h': sym('value of h')}
    d['name'] = const('a model')
    return d


def variants():
    """Models with every kind of thing that a copy must take over."""
    yield 'nothing declared', base(shocks={})
    yield 'zeros', base(shocks={'e': {'variance': num(0)}}, initial={'x': num(0)}, terminal={'x': num(0), 'y': num(0)}, historical={'x': num(0)},
                        local_params={'h': num(0)}, values={'a': num(0)})
    for pair in ({'corr': sym('m2')}, {'cov': sym('m3')}, {'corr': sym('m2'), 'cov': sym('m3')}, {'corr': num(0)}, {'cov': num(0)}):
        for names in (('e', 'u'), ('u', 'e')):
            for v in ({}, {'variance': sym('m0')}):
                yield 'pair %s of %s%s' % (sorted(pair), names[0], ', variance' if v else ''), base(
                    stoch=['e', 'u', 'v'], shocks={names[0]: dict(pair, other=const(names[1]), **v), names[1]: {'variance': sym('m1')}})
    for kind in ('initial', 'terminal', 'historical'):
        for who in (['x'], ['y'], ['x', 'y']):
            yield '%s of %s' % (kind, who), base(**{kind: {n: sym('m%d' % (3 + i)) for i, n in enumerate(who)}})
    yield 'two helpers', base(local_params={'h': sym('value of h'), 'a': num(2)})
    yield 'paths', base(determ=['d', 'f'], shocks={'d': {'periods': [num(1)], 'values': [sym('m7')]}, 'f': {}, 'e': {'variance': sym('m0')}})
    yield 'paths of zeros', base(determ=['d', 'f'], shocks={'d': {'periods': [num(0)], 'values': [num(0)]}, 'f': {'periods': num(0), 'values': num(0)}})
    yield 'paths of one number', base(determ=['d', 'f'], shocks={'d': {'periods': num(3), 'values': num(0)}, 'f': {'periods': num(0), 'values': num(2)}})
    yield 'derived parameters', derived()
    yield 'more equations', base(endog=['y', 'z', 'x'], eqs=[Y, X, Z])
    yield 'no shocks', base(stoch=[], eqs=[('x', ('*', 'a', 'x(-1)')), Y])
    yield 'named', base(name=const('named'))


def derived(**kw):
    return base(params=('a', 'c', 'b', 'd', 'k'), values={
        'b': lambda W, I, s: W.expr(I, ('+', ('*', 2, 'a'), 1), s), 'd': lambda W, I, s: W.expr(I, ('-', 'c', 'b'), s),
        'k': lambda W, I, s: W.expr(I, ('*', 'd', ('*', 'd', 'b')), s)}, **kw)


def touch(k, W, I, m, s):
    """A change of one thing that belongs to the model."""
    def at(o, *path):
        for p in path:
            o = I.get_attr(o, p, s) if isinstance(p, str) else I.get_item(o, num(p), s)
        return o
    if k == 'parameter set':
        I.set_item(at(m, 'params'), const('a'), num(7), s)
    elif k == 'local parameter set':
        I.set_item(at(m, 'local_params'), const('h'), num(7), s)
    elif k == 'equation dropped':
        I.del_item(at(m, 'exprs'), num(0), s)
    elif k == 'equation replaced':
        I.set_item(at(m, 'exprs'), num(0), W.equation(I, 'x', ('+', 'y', 'e'), s), s)
    elif k == 'boundary value':
        I.set_attr(at(m, 'endog', 0), 'initial', num(7), s)
    elif k == 'variance':
        I.set_attr(at(m, 'stoch', 0), 'variance', num(7), s)
    elif k == 'variance of a partner':
        I.set_attr(at(m, 'stoch', 1), 'variance', num(7), s)
    else:
        change(k, W, I, m, s)


def run(B):
    B.defer = True
    B.rule = ('what a copy of a model gives is normalised and compared with the normal form of what the model gives, and what a '
              'model gives after its copy was changed (or the other way round) with what an untouched model gives.')
    for a in ('copy', 'add_params', 'add_exprs'):
        B.anchor(MO + '.' + a)
    W = World(B)

    def pair(label, f, g):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            c, e = B.value(I, lambda s: f(I, s)), B.value(J, lambda s: g(J, s))
            B.match(label, c, e, raises=True, alive=True)
        B.guard(label, go)

    def copied(I, m, s):
        return call(W, I, m, 'copy', [], {}, s)

    for what in SEEN:
        pair('%s of a copy' % what, lambda I, s: W.see(I, copied(I, W.model(I, s, **rich()), s), what, s),
             lambda I, s: W.see(I, W.model(I, s, **rich()), what, s))

        def twice(I, s):
            m = W.model(I, s, **rich())
            W.see(I, m, what, s)
            return W.see(I, copied(I, copied(I, m, s), s), what, s)
        pair('%s of a copy of a copy' % what, twice, lambda I, s: W.see(I, W.model(I, s, **rich()), what, s))
        for h in (['parameter', 'shock'], ['variable', 'equation']):
            def changed(I, s):
                m = W.model(I, s, **base())
                for k in h:
                    change(k, W, I, m, s)
                return W.see(I, copied(I, m, s), what, s)
            pair('%s of a copy after %s' % (what, ', '.join(h)), changed,
                 lambda I, s: W.see(I, W.model(I, s, **after(h)), what, s))
    for tag, d in variants():
        for what in SEEN:
            pair('%s of a copy: %s' % (what, tag), lambda I, s: W.see(I, copied(I, W.model(I, s, **d), s), what, s),
                 lambda I, s: W.see(I, W.model(I, s, **d), what, s))
    for k in ('parameter', 'new parameter', 'shock', 'path') + DIRECT:
        for what in SEEN if k not in DIRECT else STORED:
            for side in (0, 1):
                def apart(I, s):
                    m = W.model(I, s, **rich())
                    ms = [m, copied(I, m, s)]
                    touch(k, W, I, ms[side], s)
                    return W.see(I, ms[1 - side], what, s)
                pair('%s of a %s whose %s has a change of %s' % ((what,) + (('copy', 'original') if side == 0 else ('model', 'copy')) + (k,)),
                     apart, lambda I, s: W.see(I, W.model(I, s, **rich()), what, s))

    # a copy goes on like the model
    for h in HISTORIES:
        for what in SEEN:
            def gone_on(I, s):
                m = W.model(I, s, **base())
                if len(what) % 2:
                    W.see(I, m, what, s)
                c = copied(I, m, s)
                for k in h:
                    change(k, W, I, c, s)
                return W.see(I, c, what, s)
            pair('%s of a copy, then %s' % (what, ', '.join(h)), gone_on, lambda I, s: W.see(I, W.model(I, s, **after(h)), what, s))
    for h in (['parameter'], ['parameters'], ['new parameter', 'parameter'], ['shock', 'parameters'], ['relations', 'parameter'], ['equations', 'variables', 'parameter']):
        for what in ('parameters', 'definition', 'steady', 'dynamic'):
            for times in (1, 2):
                def kept(I, s, copies):
                    m = W.model(I, s, **derived())
                    for k in h:
                        if copies:
                            for i in range(times):
                                m = copied(I, m, s)
                        change(k, W, I, m, s)
                    return W.see(I, m, what, s)
                pair('%s of a copy with derived parameters, then %s (%d)' % (what, ', '.join(h), times), lambda I, s: kept(I, s, True), lambda I, s: kept(I, s, False))
