"""Derived quantities after the definition of a model changed."""
from sa.interp import Cfg
from sa.terms import sym, mk, const, num, NONE

BASE = 'pynare.parsing.base:'
AST = 'pynare.parsing.ast:'
MO = 'pynare.core.model:Model'
MINIMUM = 300
SEEN = ('names variables shocks definition incidence types steady dynamic covariance statespace jacobian hessian solution '
        'solution_first steadystate groups').split()


def made(kind, state, order=None):
    def f(I, args, kw, st):
        s = I.call(mk('func', 'spec.history:' + state), [args[0]], {}, st) if state else \
            mk('tuple', *[I.R(I.deref(a, st), st) for a in list(args) + [kw[k] for k in sorted(kw)]])
        return I.instantiate('spec.history:Made', [const(kind), s, NONE if order is None else num(order)], {}, st)
    return f


def cfg():
    return cfg_for(['m0', 'm1', 'm2', 'm3', 'm4', 'm5', 'm6', 'm7', 'm8', 'value of a', 'value of b', 'value of c', 'value of h'])


def cfg_for(numbers):
    return Cfg(recursion=8, sym_types={x: 'num' for x in numbers}, opaque={
        'steady_func': made('steady function', None), 'dynamic_func': made('dynamic function', None),
        'vectorize_functions': True, 'StateSpace': made('state space', 'place'),
        'FirstOrderSolution': made('first', 'dynamics', 1), 'SecondOrderSolution': made('second', 'dynamics', 2),
        'ModelJacobian': made('Jacobian', 'derivative'), 'ModelHessian': made('Hessian', 'derivative'),
        'SteadyJacobian': made('steady Jacobian', 'statics'), 'SteadyState': made('steady state', 'statics')})


class World:
    """Builds models in one engine."""

    def __init__(self, B):
        self.B = B

    def tok(self, I, t, v, s):
        return I.instantiate(BASE + 'Token', [const(t), const(v) if isinstance(v, str) else v], {}, s)

    def leaf(self, I, what, s):
        if isinstance(what, int):
            return I.instantiate(AST + 'Num', [self.tok(I, 'NUMBER', num(what), s)], {}, s)
        v = I.instantiate(AST + 'Var', [self.tok(I, 'ID', what.split('(')[0], s)], {}, s)
        if '(' not in what:
            return v
        p = what.split('(')[1][:-1]
        return I.instantiate(AST + 'PeriodVar', [v, self.tok(I, 'MINUS' if p[0] == '-' else 'PLUS', p[0], s),
                                                 self.tok(I, 'NUMBER', num(int(p[1:])), s)], {}, s)

    def expr(self, I, t, s):
        if isinstance(t, tuple):
            op = {'*': 'MUL', '+': 'PLUS', '-': 'MINUS'}[t[0]]
            return I.instantiate(AST + 'BinaryOp', [self.expr(I, t[1], s), self.tok(I, op, op, s), self.expr(I, t[2], s)], {}, s)
        return self.leaf(I, t, s)

    def equation(self, I, l, r, s):
        return I.instantiate(AST + 'ModelExpression', [self.expr(I, l, s), self.expr(I, r, s)], {}, s)

    def names(self, I, xs, s):
        return I.call(mk('func', 'spec.given:listed'), [const(x) for x in xs], {}, s)

    def table(self, I, d, s):
        xs = []
        for k, v in d.items():
            v = v(self, I, s) if callable(v) else v
            xs += [const(k), self.table(I, v, s) if isinstance(v, dict) else
                   I.call(mk('func', 'spec.given:listed'), v, {}, s) if isinstance(v, list) else v]
        return I.call(mk('func', 'spec.given:single'), [mk('dict', *xs)], {}, s)

    def model(self, I, s, **kw):
        return I.instantiate(MO, [], self.arguments(I, s, **kw), s)

    def arguments(self, I, s, endog, stoch, params, eqs, shocks=None, determ=(), **rest):
        kw = {'endog': self.names(I, endog, s), 'stoch': self.names(I, stoch, s), 'determ': self.names(I, determ, s),
              'params': self.table(I, params, s), 'shocks': self.table(I, shocks or {}, s),
              'exprs': I.call(mk('func', 'spec.given:listed'), [self.equation(I, l, r, s) for l, r in eqs], {}, s)}
        for k, v in rest.items():
            kw[k] = self.table(I, v, s) if isinstance(v, dict) else v
        return kw

    def see(self, I, m, what, s):
        return I.call(mk('func', 'spec.history:' + what), [m], {}, s)


X = ('x', ('+', ('*', 'a', 'x(-1)'), 'e'))
Y = ('y', ('*', 'b', 'y(+1)'))
Z = ('z', ('+', 'x', 'z(-1)'))
V = ('y', ('*', 'x(+1)', 'b'))
U = (('+', 'y(-1)', 'e'), 'x')


def base(endog=('x', 'y'), stoch=('e',), params=('a', 'b'), eqs=(X, Y), values=None, **kw):
    values = values or {}
    d = dict(endog=list(endog), stoch=list(stoch), params={p: values.get(p, sym('value of ' + p)) for p in params}, eqs=list(eqs))
    d['shocks'] = {x: {'variance': sym('m0')} for x in stoch}
    d.update(kw)
    return d


def call(W, I, m, name, args, kw, s):
    return I.call(I.get_attr(m, name, s), args, kw, s)


def change(k, W, I, m, s):
    if k == 'parameter':
        call(W, I, m, 'add_params', [], {'a': num(7)}, s)
    elif k == 'new parameter':
        call(W, I, m, 'add_params', [], {'c': num(3)}, s)
    elif k == 'equation':
        call(W, I, m, 'add_exprs', [W.equation(I, *Z, s)], {}, s)
    elif k == 'equations':
        call(W, I, m, 'add_exprs', [I.call(mk('func', 'spec.given:listed'), [W.equation(I, *Z, s)], {}, s)], {}, s)
    elif k == 'relation':
        call(W, I, m, 'add_exprs', [W.equation(I, *V, s)], {}, s)
    elif k == 'relations':
        call(W, I, m, 'add_exprs', [I.call(mk('func', 'spec.given:listed'), [W.equation(I, *V, s), W.equation(I, *U, s)], {}, s)], {}, s)
    elif k == 'tuple of relations':
        call(W, I, m, 'add_exprs', [mk('tuple', W.equation(I, *V, s))], {}, s)
    elif k == 'parameters':
        call(W, I, m, 'add_params', [], {'b': num(5), 'a': num(6)}, s)
    elif k == 'shocks':
        call(W, I, m, 'add_stoch', [W.names(I, ['u', 'v'], s)],
             {'shocks': W.table(I, {'u': {'variance': sym('m1')}, 'v': {'variance': sym('m2'), 'other': const('u'), 'cov': sym('m3')}}, s)}, s)
    elif k == 'paths':
        call(W, I, m, 'add_determ', [W.names(I, ['d'], s)], {'shocks': W.table(I, {'d': {'periods': [num(1), num(4)], 'values': [sym('m7'), sym('m8')]}}, s)}, s)
    elif k == 'variable':
        call(W, I, m, 'add_endog', [const('z')], {}, s)
    elif k == 'variable with values':
        call(W, I, m, 'add_endog', [const('z')], {'initial': W.table(I, {'z': sym('m4')}, s), 'terminal': W.table(I, {'z': sym('m5')}, s)}, s)
    elif k == 'variables':
        call(W, I, m, 'add_endog', [W.names(I, ['z'], s)], {}, s)
    elif k == 'shock':
        call(W, I, m, 'add_stoch', [const('u')], {'shocks': W.table(I, {'u': {'variance': sym('m1')}}, s)}, s)
    elif k == 'path':
        call(W, I, m, 'add_determ', [const('d')], {'shocks': W.table(I, {'d': {'periods': [num(1), num(4)], 'values': [sym('m7'), sym('m8')]}}, s)}, s)


def after(steps):
    d = base()
    for k in steps:
        if k == 'parameter':
            d['params']['a'] = num(7)
        elif k == 'new parameter':
            d['params']['c'] = num(3)
        elif k in ('equation', 'equations'):
            d['eqs'] = d['eqs'] + [Z]
        elif k in ('variable', 'variables', 'variable with values'):
            d['endog'] = d['endog'] + ['z']
            if 'with' in k:
                d['initial'], d['terminal'] = {'z': sym('m4')}, {'z': sym('m5')}
        elif k in ('relation', 'tuple of relations'):
            d['eqs'] = d['eqs'] + [V]
        elif k == 'relations':
            d['eqs'] = d['eqs'] + [V, U]
        elif k == 'parameters':
            d['params'].update(a=num(6), b=num(5))
        elif k == 'shocks':
            d['stoch'] = d['stoch'] + ['u', 'v']
            d['shocks']['u'] = {'variance': sym('m1')}
            d['shocks']['v'] = {'variance': sym('m2'), 'other': const('u'), 'cov': sym('m3')}
        elif k == 'shock':
            d['stoch'] = d['stoch'] + ['u']
            d['shocks']['u'] = {'variance': sym('m1')}
        elif k in ('path', 'paths'):
            d['determ'] = ['d']
            d['shocks']['d'] = {'periods': [num(1), num(4)], 'values': [sym('m7'), sym('m8')]}
    return d


HISTORIES = [['parameter'], ['new parameter'], ['parameters'], ['shock'], ['shocks'], ['path'], ['paths'], ['relation'], ['relations'],
             ['tuple of relations'], ['variable', 'equation'], ['equation', 'variable'], ['equations', 'variables'],
             ['variable with values', 'equations'], ['parameter', 'relation'], ['relations', 'parameters'], ['shock', 'path'],
             ['parameter', 'parameters'], ['relation', 'shocks'], ['variable', 'equation', 'parameter', 'shock']]
ORDERED = [['parameter'], ['relations'], ['shock'], ['variables', 'equation']]


def run(B):
    B.defer = True
    B.rule = ('what a model gives after changes of its definition, looked at before or not, is normalised and compared with the normal form '
              'of the same quantity of a model defined like that from the start.')
    for a in ('add_endog', 'add_params', 'add_exprs', 'add_stoch', 'add_determ', 'solution', 'sigma', 'steady_repr', 'dynamic_repr', 'statespace'):
        B.anchor(MO + '.' + a)
    W = World(B)

    def check(label, history, what, look, since=(), then=()):
        def altered(I, s):
            m = W.model(I, s, **base())
            for h in look:
                W.see(I, m, h, s)
            for k in history:
                change(k, W, I, m, s)
            for h in since:
                W.see(I, m, h, s)
            for k in then:
                change(k, W, I, m, s)
            return W.see(I, m, what, s)

        def fresh(I, s):
            return W.see(I, W.model(I, s, **after(list(history) + list(then))), what, s)

        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            c, e = B.value(I, lambda s: altered(I, s)), B.value(J, lambda s: fresh(J, s))
            B.match(label, c, e, raises=True, alive=True)
        B.guard(label, go)

    for h in HISTORIES:
        for what in SEEN:
            check('%s after %s' % (what, ', '.join(h)), h, what, [])
            if B.tier == 'thorough':
                check('%s after %s, looked at before' % (what, ', '.join(h)), h, what, [what])
            check('%s after %s, everything looked at before' % (what, ', '.join(h)), h, what, SEEN)
    for h in ORDERED if B.tier == 'thorough' else ORDERED[:2]:
        for first in SEEN:
            for what in SEEN:
                if what != first:
                    check('%s after %s, %s looked at since' % (what, ', '.join(h), first), h, what, [what], [first])
    # a change, a look and another change
    for h, g in ((['parameter'], ['relation']), (['relation'], ['parameter']), (['shock'], ['parameters']), (['relations'], ['shock'])):
        for what in SEEN:
            check('%s after %s and then %s, looked at between' % (what, h[0], g[0]), h, what, SEEN, [what], g)
