"""Functions and derivatives of model equations."""
from sa.interp import Cfg
from sa.terms import sym, mk, const, num
from sa.nests import chains, equation, worth
from sa.shapes import KINDS

BASE = 'pynare.parsing.base:'
AST = 'pynare.parsing.ast:'
EX = 'pynare.core.expressions:'
MINIMUM = 250
ENDO = ['x', 'y', 'z']
EXO = ['e', 'u']
COLUMNS = ['xm1', 'x', 'y', 'z', 'yp1', 'zp1', 'e', 'u']

LARGE = [
    ('seven variables', (('capital', 'backward'), ('consumption', 'forward'), ('output', 'static'), ('z', 'mixed'), ('investment_rate', 'lag and lead'),
                         ('n', 'forward'), ('w', 'backward')), ('eps_productivity', 'e', 'nu', 'eta')),
    ('prefixes', (('k', 'mixed'), ('ka', 'backward'), ('kap', 'forward'), ('kapp', 'static'), ('p', 'mixed')), ('kapp_a', 'e', 'ee')),
    ('four static variables', tuple((n, 'static') for n in ('a1', 'a2', 'a', 'a3')), ('u1', 'u', 'u2')),
    ('one variable', (('theta_1', 'mixed'),), ('epsilon', 'eps')),
    ('lags and leads only', (('x', 'lag only'), ('y', 'lead only'), ('z', 'lag only'), ('w', 'lag and lead')), ('long_shock_name',)),
    ('no shocks', (('x', 'backward'), ('y', 'forward'), ('z', 'static')), ()),
    ('nine variables', tuple((n, k) for n, k in zip('ihgfedcba', ('mixed', 'static', 'forward') * 3)), ('u', 'v')),
]


def run(B):
    B.defer = True
    B.rule = ('the evaluation of the steady-state and dynamic function, and of the Jacobian and Hessian, is normalised for every kind of '
              'node, leaf and argument count, and compared with the value of the equation written down in the variables of the function.')
    B.anchor(EX + 'steady_func')
    B.anchor(EX + 'dynamic_func')

    def part(I, args, kw, st):
        n = args[-1]
        if I.hint(n) == 'spec.given:Part':
            c = I.hint(args[0])
            return I.get_attr(n, 'meaning', st)
        return None

    cfg = lambda: Cfg(opaque={'ABCVisitor.visit': part, '_ASTSubstitution.visit': part}, recursion=8)

    def tok(I, t, v, s):
        return I.instantiate(BASE + 'Token', [const(t), const(v) if isinstance(v, str) else v], {}, s)

    def leaf(I, what, s):
        """(tree, dynamic value, steady value)"""
        kind, name = what[0], what[1]
        if kind == 'num':
            return I.instantiate(AST + 'Num', [tok(I, 'NUMBER', sym('number'), s)], {}, s)
        v = I.instantiate(AST + 'Var', [tok(I, 'ID', name, s)], {}, s)
        if kind == 'period':
            d = what[2]
            return I.instantiate(AST + 'PeriodVar', [v, tok(I, 'PLUS' if d == '+' else 'MINUS', d, s), tok(I, 'NUMBER', num(what[3]), s)], {}, s)
        return v

    leaves = [('num', ''), ('param', 'alpha'), ('var', 'x'), ('var', 'y'), ('var', 'z'), ('exo', 'e'), ('exo', 'u'),
              ('period', 'x', '-', 1), ('period', 'y', '+', 1), ('period', 'z', '+', 1), ('period', 'y', '+', 0)]

    def dynamic_value(what):
        if what[0] == 'num':
            return sym('number')
        if what[0] == 'param':
            return sym('value of alpha')
        if what[0] == 'period':
            return sym(what[1] + ('' if what[3] == 0 else 'm1' if what[2] == '-' else 'p1'))
        return sym(what[1])

    def steady_value(what):
        if what[0] == 'num':
            return sym('number')
        if what[0] == 'param':
            return sym('value of alpha')
        if what[0] == 'exo':
            return num(0)
        return sym(what[1])

    def tree(I, where, what, s):
        l = leaf(I, what, s)
        other = I.instantiate(AST + 'Num', [tok(I, 'NUMBER', sym('c'), s)], {}, s)
        if where[0] == 'equation':
            return I.instantiate(AST + 'ModelExpression', [l, other] if where[1] == 'left' else [other, l], {}, s)
        if where[0] == 'binary':
            t = I.instantiate(AST + 'BinaryOp', [l, tok(I, 'MUL', 'MUL', s), other] if where[1] == 'left' else [other, tok(I, 'MUL', 'MUL', s), l], {}, s)
        if where[0] == 'unary':
            t = I.instantiate(AST + 'UnaryOp', [tok(I, 'MINUS', 'MINUS', s), l], {}, s)
        if where[0] == 'function':
            t = I.instantiate(AST + 'Function', [tok(I, 'FUNCTION', 'exp', s), l], {}, s)
        zero = I.instantiate(AST + 'Num', [tok(I, 'NUMBER', num(0), s)], {}, s)
        return I.instantiate(AST + 'ModelExpression', [t, zero] if where[-1] == 'left' else [zero, t], {}, s)

    def value(J, where, v, s):
        c = sym('c')
        return J.call(mk('func', 'spec.functions:value'), [const(where[0]), const(where[1]), const(where[-1]), v, c], {}, s)

    def written(I, where, what, s):
        return equation(I, leaf(I, what, s), where[1], where[2], s) if where[0] == 'nested' else tree(I, where, what, s)

    places = [('equation', 'left'), ('equation', 'right')] + [
        (k, p, q) for k in ('binary', 'unary', 'function') for p in ('left', 'right') for q in ('left', 'right') if k == 'binary' or p == 'left']

    def names(I, xs, s):
        r = mk('tuple', *[const(x) for x in xs])
        return r

    def dyn(I, where, what, s):
        ps = I.call(mk('func', 'spec.functions:params'), [const('alpha'), sym('value of alpha')], {}, s)
        llx = I.call(mk('func', 'spec.functions:incidence'), [], {}, s)
        f = I.call(mk('func', EX + 'dynamic_func'), [written(I, where, what, s), names(I, ENDO, s), names(I, EXO, s), llx, ps], {}, s)
        return I.call(f, [mk('tuple', *[sym(c) for c in COLUMNS])], {}, s)

    def std(I, where, what, s):
        ps = I.call(mk('func', 'spec.functions:params'), [const('alpha'), sym('value of alpha')], {}, s)
        f = I.call(mk('func', EX + 'steady_func'), [written(I, where, what, s), names(I, ENDO, s), ps], {}, s)
        return I.call(f, [mk('tuple', *[sym(c) for c in ENDO])], {}, s)

    for tag, how, meaning in (('dynamic', dyn, dynamic_value), ('steady', std, steady_value)):
        for where in places:
            for what in leaves:
                label = '%s function: %s in %s' % (tag, ' '.join(map(str, what)), ' '.join(where))

                def go():
                    I, J = B.engine(cfg()), B.engine(cfg())
                    c = B.value(I, lambda s: how(I, where, what, s))
                    e = B.value(J, lambda s: value(J, where, meaning(what), s))
                    B.match(label, c, e, raises=True)
                B.guard(label, go)

    few = [('param', 'alpha'), ('var', 'y'), ('exo', 'e'), ('period', 'x', '-', 1)]
    for tag, how, meaning in (('dynamic', dyn, dynamic_value), ('steady', std, steady_value)):
        for i, ch in enumerate(chains(B.tier)):
            for j, what in enumerate(few):
                if B.tier != 'thorough' and (i + j) % 2:
                    continue
                side = ('left', 'right')[(i + j // 2) % 2]
                label = '%s function: %s in %s, %s' % (tag, ' '.join(map(str, what)), ' in '.join(ch), side)

                def go():
                    I, J = B.engine(cfg()), B.engine(cfg())
                    c = B.value(I, lambda s: how(I, ('nested', ch, side), what, s))
                    e = B.value(J, lambda s: worth(J, meaning(what), ch, s, side))
                    B.match(label, c, e, raises=True)
                B.guard(label, go)

    # derivatives
    def model(I, s, n=2):
        fs = I.call(mk('func', 'spec.functions:pair'), [sym('f1'), sym('f2')], {}, s)
        ss = I.call(mk('func', 'spec.functions:vector'), [sym('x'), sym('y'), sym('z')], {}, s)
        llx = I.call(mk('func', 'spec.functions:incidence'), [], {}, s)
        return I.instantiate('spec.given:Derived', [fs, ss, llx, names(I, EXO, s)], {}, s)

    def array(cls):
        return lambda I, s: I.get_attr(I.instantiate('pynare.core.linearizing:' + cls, [model(I, s)], {}, s), 'array', s)

    def point(cls):
        return lambda I, s: I.get_attr(I.instantiate('pynare.core.linearizing:' + cls, [model(I, s)], {}, s), 'ss', s)

    def spec(name):
        return lambda J, s: J.call(mk('func', 'spec.functions:' + name), [model(J, s)], {}, s)

    for cls, f in (('SteadyJacobian', 'steady_point'), ('ModelJacobian', 'model_point'), ('ModelHessian', 'model_point')):
        for tag, how, what in (('point', point(cls), spec(f)), ('array', array(cls), spec(cls))):
            def go():
                I, J = B.engine(cfg()), B.engine(cfg())
                c = B.value(I, lambda s: how(I, s))
                e = B.value(J, lambda s: what(J, s))
                B.match('%s: %s' % (cls, tag), c, e, raises=True)
            B.guard('%s: %s' % (cls, tag), go)

    # derivatives of models with other numbers of variables, equations and shocks
    for lags in ('0', '-', '+', '*', '0+', '-0', '+-', '*0', '-+', '0*-', '+0*', '--+', '-+0*', '*-0+-', '0*+-*0+'):
        for ne in (0, 1, 2, 3, 5):
            for nf in (1, 2, 3, 6, 8):
                if nf > 3 and (ne + len(lags)) % 3:
                    continue
                if B.tier != 'thorough' and (len(lags) + ne + nf) % 2 and ne < 3:
                    continue
                vs = 'xyzwvut'[:len(lags)]
                rows = [[p in {'0': (0,), '-': (-1, 0), '+': (0, 1), '*': (-1, 0, 1)}[k] for k in lags] for p in (-1, 0, 1)]
                count = iter(range(99))
                llx = mk('arr', *[mk('arr', *[num(next(count)) if t else mk('ext', 'numpy.nan') for t in r]) for r in rows])
                at = [sym(v) for r in rows for v, t in zip(vs, r) if t] + [num(0)] * ne

                def derived(I, s):
                    fs = I.call(mk('func', 'spec.given:listed'), [sym('f%d' % i) for i in range(nf)], {}, s)
                    ss = I.call(mk('func', 'spec.functions:whole'), [mk('arr', *[sym(v) for v in vs])], {}, s)
                    return I.instantiate('spec.given:Derived', [fs, ss, I.call(mk('func', 'spec.functions:whole'), [llx], {}, s),
                                                                names(I, ['e%d' % i for i in range(ne)], s)], {}, s)
                for cls in ('ModelJacobian', 'ModelHessian', 'SteadyJacobian'):
                    def go():
                        I, J = B.engine(cfg()), B.engine(cfg())
                        c = B.value(I, lambda s: I.get_attr(I.instantiate('pynare.core.linearizing:' + cls, [derived(I, s)], {}, s), 'array', s))
                        p = mk('arr', *[sym(v) for v in vs]) if cls == 'SteadyJacobian' else mk('arr', *at)
                        e = B.value(J, lambda s: J.call(mk('func', 'spec.functions:derivatives_' + cls), [p] + [sym('f%d' % i) for i in range(nf)], {}, s))
                        B.match(label, c, e, raises=True)
                    label = '%s: %d function(s), variables %s, %d shock(s)' % (cls, nf, lags, ne)
                    B.guard(label, go)

    # the vector of all equations
    def vectorized(I, name, args, kw, st):
        return args[0] if name == 'numpy.vectorize' else None

    def system(I, s):
        eqs = [tree(I, ('equation', 'left'), ('var', 'x'), s), tree(I, ('equation', 'right'), ('period', 'y', '+', 1), s),
               tree(I, ('equation', 'left'), ('exo', 'u'), s), tree(I, ('equation', 'left'), ('param', 'alpha'), s)]
        ps = I.call(mk('func', 'spec.functions:params'), [const('alpha'), sym('value of alpha')], {}, s)
        llx = I.call(mk('func', 'spec.functions:incidence'), [], {}, s)
        es = I.call(mk('func', 'spec.functions:four'), eqs, {}, s)
        return I.instantiate('spec.given:Equations', [names(I, ENDO, s), names(I, EXO, s), llx, num(6), ps, es], {}, s)

    def of_system(cls, cols):
        return lambda I, s: I.call(I.instantiate(EX + cls, [system(I, s)], {}, s), [mk('tuple', *[sym(c) for c in cols])], {}, s)

    for cls, tag, cols, f in (('SteadyRepr', 'all equations', ENDO, 'steady_system'), ('SteadyRepr', 'too many arguments', COLUMNS, 'too_many'),
                              ('DynamicRepr', 'all equations', COLUMNS, 'dynamic_system'), ('DynamicRepr', 'without shocks', COLUMNS[:6], 'no_shocks'),
                              ('DynamicRepr', 'too many arguments', COLUMNS + ['w'], 'too_many'),
                              ('DynamicRepr', 'too few arguments', ENDO, 'too_many')):
        def go():
            I, J = B.engine(Cfg(opaque=cfg().opaque, recursion=8, hooks=[vectorized])), B.engine(cfg())
            c = B.value(I, lambda s: of_system(cls, cols)(I, s))
            e = B.value(J, lambda s: J.call(mk('func', 'spec.functions:' + f), [sym('x'), sym('y'), sym('yp1'), sym('u'), sym('value of alpha'), sym('c')], {}, s))
            B.match('%s: %s' % (cls, tag), c, e, raises=True)
        B.guard('%s: %s' % (cls, tag), go)

    # larger models: an equation for every appearance
    for tag, vs, shocks in LARGE:
        cols = [(v, q) for q in (-1, 0, 1) for v, k in vs for p in KINDS[k] if p == q]
        marks = {c: sym('%s at %+d' % c) for c in cols}
        marks.update({(e, None): sym('shock ' + e) for e in shocks})
        points = {v: sym('steady ' + v) for v, k in vs}
        count = iter(range(99))
        table = mk('arr', *[mk('arr', *[num(next(count)) if q in KINDS[k] else mk('ext', 'numpy.nan') for v, k in vs]) for q in (-1, 0, 1)])
        written_eqs = [c for c in cols if c[1]] + [(e, None) for e in shocks] + [(v, 0) for v, k in vs if 0 in KINDS[k]]
        written_eqs = written_eqs[::-1] + [('alpha', None)] + written_eqs[:2]

        def side(i):
            return places[i % len(places)]

        def large(I, s):
            eqs = []
            for i, (n, q) in enumerate(written_eqs):
                what = ('param', n) if n == 'alpha' else ('var', n) if not q else ('period', n, '-' if q < 0 else '+', abs(q))
                eqs.append(tree(I, side(i), what, s))
            ps = I.call(mk('func', 'spec.functions:params'), [const('alpha'), sym('value of alpha')], {}, s)
            es = I.call(mk('func', 'spec.given:listed'), eqs, {}, s)
            return I.instantiate('spec.given:Equations', [names(I, [v for v, k in vs], s), names(I, list(shocks), s),
                                                          I.call(mk('func', 'spec.functions:whole'), [table], {}, s), num(len(cols)), ps, es], {}, s)

        def wanted(J, s, steady, shocked=True):
            r = []
            for i, (n, q) in enumerate(written_eqs):
                v = sym('value of alpha') if n == 'alpha' else num(0) if q is None and (steady or not shocked) else points[n] if steady else marks[(n, q)]
                r.append(value(J, side(i), v, s))
            return J.call(mk('func', 'spec.functions:whole'), [mk('arr', *r)], {}, s)

        for cls, kind, at in (('SteadyRepr', 'steady', [points[v] for v, k in vs]), ('DynamicRepr', 'dynamic', [marks[c] for c in cols] + [marks[(e, None)] for e in shocks]),
                              ('DynamicRepr', 'unshocked', [marks[c] for c in cols])):
            def go():
                I, J = B.engine(Cfg(opaque=cfg().opaque, recursion=8, hooks=[vectorized])), B.engine(cfg())
                c = B.value(I, lambda s: I.call(I.instantiate(EX + cls, [large(I, s)], {}, s), [mk('tuple', *at)], {}, s))
                e = B.value(J, lambda s: wanted(J, s, kind == 'steady', kind == 'dynamic'))
                B.match('%s: %s, %s' % (cls, tag, kind), c, e, raises=True, alive=True)
            B.guard('%s: %s, %s' % (cls, tag, kind), go)
