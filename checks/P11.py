"""Moments of shocks."""
from sa.interp import Cfg
from sa.terms import sym, mk, const, num

BASE = 'pynare.parsing.base:'
AST = 'pynare.parsing.ast:'
VA = 'pynare.core.variables:'
MINIMUM = 30
NAMES = ['e', 'u', 'v']
REST = ('set_lead_lags', 'VariableIndexManager', 'SteadyRepr', 'DynamicRepr', 'StateSpace')


def run(B):
    B.defer = True
    B.rule = ('the covariance matrix of the shocks is normalised for definitions with arbitrary numbers, in a shocks block or in a dictionary, '
              'and compared with the one written down entry by entry.')
    B.anchor('pynare.core.generic:DynamicModel.sigma')
    B.anchor(VA + '_create_stoch_vars')
    B.anchor('pynare.parsing.factory:DynareModelFactory.visit_ShocksBlock')

    def part(I, args, kw, st):
        n = args[-1]
        if I.hint(n) == 'spec.given:Part':
            return I.get_attr(n, 'meaning', st)
        return None

    def cfg():
        o = {'ABCVisitor.visit': part}
        o.update({k: True for k in REST})
        return Cfg(opaque=o, recursion=8, sym_types={'m%d' % i: 'num' for i in range(6)})

    def tup(xs):
        return mk('tuple', *[const(x) if isinstance(x, str) else x for x in xs])

    def listing(I, xs, s):
        return I.call(mk('func', 'spec.given:listed'), xs, {}, s)

    def var(I, n, s):
        t = I.instantiate(BASE + 'Token', [const('ID'), const(n)], {}, s)
        return I.instantiate(AST + 'Var', [t], {}, s)

    def block(I, defs, s):
        b = I.instantiate(AST + 'ShocksBlock', [listing(I, [], s)], {}, s)
        for i, (kind, a, o) in enumerate(defs):
            kw = {'shock': var(I, a, s), 'expr': I.instantiate('spec.given:Part', [sym('m%d' % i)], {}, s)}
            if o:
                kw['other'] = var(I, o, s)
            I.call(I.get_attr(b, 'append', s), [I.instantiate(AST + 'StochasticShock', [const(kind)], kw, s)], {}, s)
        return b

    def from_block(I, names, defs, s):
        f = I.instantiate('spec.given:Shocking', [], {}, s)
        I.call(I.get_attr(f, 'visit_ShocksBlock', s), [block(I, defs, s)], {}, s)
        return I.get_attr(I.get_attr(f, 'outline', s), '_shocks', s)

    def from_dict(I, names, defs, s):
        d = {}
        for i, (kind, a, o) in enumerate(defs):
            e = d.setdefault(a, [])
            e += [const({'correlated': 'corr', 'covarying': 'cov'}.get(kind, kind)), sym('m%d' % i)]
            if o:
                e += [const('other'), const(o)]
        xs = []
        for k, e in d.items():
            xs += [const(k), mk('dict', *e)]
        return I.call(mk('func', 'spec.given:single'), [mk('dict', *xs)], {}, s)

    def sigma(I, names, defs, how, s):
        sh = how(I, names, defs, s)
        vs = I.call(mk('func', VA + '_create_stoch_vars'), [listing(I, [const(n) for n in names], s)], {'shocks': sh}, s)
        return I.get_attr(I.instantiate('spec.given:Stochastic', [vs], {}, s), 'sigma', s)

    def check(n, *defs):
        names = NAMES[:n]
        defs = [(d + (None,))[:3] for d in defs]
        label = '%d shocks, %s' % (n, '; '.join('%s %s' % (d[0], ','.join(x for x in d[1:] if x)) for d in defs))
        for tag, how in (('block', from_block), ('dictionary', from_dict)):
            if tag == 'dictionary' and (any(d[0] == 'stderr' for d in defs) or len({d[1] for d in defs if d[2]}) < len([d for d in defs if d[2]])):
                # not expressible in a dictionary
                continue

            def go():
                I, J = B.engine(cfg()), B.engine(cfg())
                c = B.value(I, lambda s: sigma(I, names, defs, how, s))
                e = B.value(J, lambda s: J.call(mk('func', 'spec.shocks:covariance'), [
                    tup(names), mk('tuple', *[tup([d[0], d[1], d[2] or '', sym('m%d' % i)]) for i, d in enumerate(defs)])], {}, s))
                B.match('%s: %s' % (label, tag), c, e, raises=True)
            B.guard('%s: %s' % (label, tag), go)

    V, S, C, K = 'variance', 'stderr', 'correlated', 'covarying'
    check(1, (V, 'e'))
    check(1, (S, 'e'))
    check(2, (V, 'e'), (V, 'u'))
    check(2, (V, 'u'), (V, 'e'))
    check(2, (S, 'e'), (V, 'u'))
    check(2, (S, 'u'), (S, 'e'))
    for p in (C, K):
        for a, b in (('e', 'u'), ('u', 'e')):
            check(2, (V, 'e'), (V, 'u'), (p, a, b))
            check(2, (p, a, b), (V, 'e'), (V, 'u'))
            check(2, (V, 'u'), (p, a, b), (S, 'e'))
        for a, b in (('e', 'u'), ('u', 'v'), ('v', 'e'), ('e', 'v')):
            check(3, (V, 'e'), (V, 'u'), (V, 'v'), (p, a, b))
        for q in (C, K):
            check(3, (V, 'e'), (V, 'u'), (V, 'v'), (p, 'e', 'u'), (q, 'v', 'e'))
            check(3, (V, 'e'), (p, 'u', 'v'), (V, 'u'), (V, 'v'), (q, 'e', 'v'))
            check(3, (V, 'e'), (V, 'u'), (V, 'v'), (p, 'e', 'u'), (q, 'e', 'v'))
    check(2, (V, 'e'), (K, 'u', 'e'))
    check(2, (K, 'e', 'u'), (V, 'u'))
    check(2, (S, 'u'), (C, 'e', 'u'))
    check(3, (V, 'e'), (V, 'v'), (K, 'u', 'e'))
