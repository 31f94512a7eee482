"""Values of expressions."""
from sa.interp import Cfg
from sa.nests import chains, nested, worth
from sa.terms import sym, mk, const, num, app, NONE, TRUE

BASE = 'pynare.parsing.base:'
AST = 'pynare.parsing.ast:'
EX = 'pynare.core.expressions:'
MINIMUM = 100
ARITH = 'PLUS MINUS MUL DIV POWER'.split()
COMP = ['<', '<=', '>', '>=', '==']
FUNCS = 'exp log ln log10 sqrt abs sign sin cos tan asin acos atan max min normcdf normpdf erf'.split()


def run(B):
    B.defer = True
    B.rule = ('each evaluator of expressions is normalised for each kind of node, the values of its parts being arbitrary (the '
              'step of an induction over expressions), and compared with the normal form of the meaning of the node.')
    B.anchor(BASE + 'BaseEvaluator')
    B.anchor('pynare.parsing.api:evaluate')

    def part(I, args, kw, st):
        """The value of an arbitrary part of the expression"""
        n = args[-1]
        if I.hint(n) == 'spec.given:Part':
            return I.get_attr(n, 'meaning', st)
        return None

    cfg = lambda: Cfg(opaque={'ABCVisitor.visit': part}, sym_types={'scope': 'dict'}, recursion=8)

    def tok(I, t, v, s):
        return I.instantiate(BASE + 'Token', [const(t), const(v) if isinstance(v, str) else v], {}, s)

    def sub(I, name, s):
        return I.instantiate('spec.given:Part', [sym(name)], {}, s)

    def node(kind, op):
        def f(I, s):
            if kind in ('BinaryOp', 'CompOp'):
                return I.instantiate(AST + kind, [sub(I, 'a', s), tok(I, op, op, s), sub(I, 'b', s)], {}, s)
            if kind == 'UnaryOp':
                return I.instantiate(AST + kind, [tok(I, op, op, s), sub(I, 'a', s)], {}, s)
            if kind == 'Function':
                return I.instantiate(AST + kind, [tok(I, 'FUNCTION', op, s), sub(I, 'a', s)], {}, s)
            if kind == 'Num':
                return I.instantiate(AST + kind, [tok(I, 'NUMBER', sym('number'), s)], {}, s)
            if kind == 'Var':
                return I.instantiate(AST + kind, [tok(I, 'ID', 'name', s)], {}, s)
            if kind == 'ModelExpression':
                return I.instantiate(AST + kind, [sub(I, 'a', s), sub(I, 'b', s)], {}, s)
        return f

    nodes = [('BinaryOp', o, 'binary', 2) for o in ARITH] + [('UnaryOp', o, 'unary', 1) for o in ('PLUS', 'MINUS')]
    comps = [('CompOp', o, 'compare', 2) for o in COMP]
    funcs = [('Function', f, 'function', 1) for f in FUNCS]
    residual = [('ModelExpression', 'MINUS', 'binary', 2)]

    def by_evaluator(I, n, s):
        return I.call(mk('cls', BASE + 'BaseEvaluator'), [n, sym('scope')], {}, s)

    def by_evaluate(I, n, s):
        return I.call(mk('func', 'pynare.parsing.api:evaluate'), [n], {'scope': sym('scope')}, s)

    def by_steady(I, n, s):
        o = I.instantiate(EX + 'SteadyFunc', [n], {}, s)
        return I.call(o, [I.call(mk('func', 'spec.given:empty'), [], {}, s)], {}, s)

    def by_dynamic(I, n, s):
        o = I.instantiate(EX + 'DynamicFunc', [n], {}, s)
        return I.call(o, [I.call(mk('func', 'spec.given:empty'), [], {}, s)], {}, s)

    def by_parameter(I, n, s):
        return I.call(mk('func', 'pynare.core.variables:evaluate_parameter'), [n, sym('scope')], {}, s)

    for who, how, what in (('expressions', by_evaluator, nodes + comps + funcs), ('evaluate', by_evaluate, nodes + comps + funcs),
                           ('steady-state functions', by_steady, nodes + funcs + residual),
                           ('dynamic functions', by_dynamic, nodes + funcs + residual),
                           ('parameters', by_parameter, nodes + funcs)):
        for kind, op, spec, n in what:
            label = '%s: %s %s' % (who, kind, op)

            def go():
                I, J = B.engine(cfg()), B.engine(cfg())
                c = B.value(I, lambda s: how(I, node(kind, op)(I, s), s))
                e = B.value(J, lambda s: J.call(mk('func', 'spec.values:' + spec), [const(op)] + [sym('a'), sym('b')][:n], {}, s))
                B.match(label, c, e, raises=op not in ('max', 'min', 'normcdf', 'normpdf') or c[0] is NONE)
            B.guard(label, go)
        def leaf():
            I = B.engine(cfg())
            c = B.value(I, lambda s: how(I, node('Num', None)(I, s), s))
            B.match(who + ': number', c, (sym('number'), c[1], c[2]))
        B.guard(who + ': number', leaf)

    # variables
    def scope(*kind):
        return lambda I, s: I.call(mk('cls' if kind[0] == 'Scope' else 'func', 'spec.given:' + kind[0]), [const('name'), sym('v')], {}, s)

    def var(I, s):
        return node('Var', None)(I, s)

    def period(n, d):
        def f(I, s):
            return I.instantiate(AST + 'PeriodVar', [var(I, s), tok(I, 'PLUS' if d == '+' else 'MINUS', d, s), tok(I, 'NUMBER', num(n), s)], {}, s)
        return f

    def in_scope(kind):
        return lambda I, s: I.call(mk('cls', BASE + 'BaseEvaluator'), [var(I, s), scope(kind)(I, s)], {}, s)

    def by_api(kind):
        return lambda I, s: I.call(mk('func', 'pynare.parsing.api:evaluate'), [var(I, s)], {'scope': scope(kind)(I, s)}, s)

    def of_parameter(kind):
        return lambda I, s: I.call(mk('func', 'pynare.core.variables:evaluate_parameter'), [var(I, s), scope(kind)(I, s)], {}, s)

    def of_func(cls, what, kind):
        def f(I, s):
            o = I.instantiate(EX + cls, [what(I, s)], {}, s)
            return I.call(o, [scope(kind)(I, s)], {}, s)
        return f

    def simple(label, how, expect):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            c = B.value(I, lambda s: how(I, s))
            e = B.value(J, lambda s: expect(J, s))
            B.match(label, c, e, raises=True)
        B.guard(label, go)

    def v(J, s):
        return sym('v')

    def zero(J, s):
        return num(0)

    def unassigned(J, s):
        return J.call(mk('func', 'spec.values:unassigned'), [], {}, s)

    simple('variable in a dictionary', in_scope('holding'), v)
    simple('variable not in the dictionary', in_scope('without'), unassigned)
    simple('variable in a scope', in_scope('Scope'), v)
    simple('evaluate: variable in a dictionary', by_api('holding'), v)
    simple('evaluate: variable not in the dictionary', by_api('without'), unassigned)
    simple('parameter: reference to another parameter', of_parameter('holding'), v)
    simple('parameter: reference to no parameter', of_parameter('without'), unassigned)
    simple('parameter: number', lambda I, s: I.call(mk('func', 'pynare.core.variables:evaluate_parameter'), [num(3), sym('scope')], {}, s),
           lambda J, s: num(3))
    simple('steady-state functions: endogenous variable', of_func('SteadyFunc', var, 'holding'), v)
    simple('steady-state functions: exogenous variable', of_func('SteadyFunc', var, 'without'), zero)
    for n, d in ((1, '+'), (1, '-'), (0, '+')):
        simple('steady-state functions: variable at %s%d' % (d, n), of_func('SteadyFunc', period(n, d), 'holding'), v)
        simple('steady-state functions: exogenous variable at %s%d' % (d, n), of_func('SteadyFunc', period(n, d), 'without'), zero)
    simple('dynamic functions: variable', of_func('DynamicFunc', var, 'holding'), v)
    simple('dynamic functions: variable at 0', of_func('DynamicFunc', period(0, '+'), 'timed'), lambda J, s: sym('v'))
    simple('dynamic functions: variable at +1', of_func('DynamicFunc', period(1, '+'), 'timed'),
           lambda J, s: J.call(mk('func', 'spec.values:lead'), [sym('v')], {}, s))
    simple('dynamic functions: variable at -1', of_func('DynamicFunc', period(1, '-'), 'timed'),
           lambda J, s: J.call(mk('func', 'spec.values:lag'), [sym('v')], {}, s))

    # operators applied to operators
    def of_nested(who, ch):
        def f(I, s):
            t = nested(I, var(I, s), ch, s)
            if who == 'steady-state functions' or who == 'dynamic functions':
                o = I.instantiate(EX + ('SteadyFunc' if who[0] == 's' else 'DynamicFunc'), [t], {}, s)
                return I.call(o, [scope('holding')(I, s)], {}, s)
            where = {'expressions': mk('cls', BASE + 'BaseEvaluator'), 'evaluate': mk('func', 'pynare.parsing.api:evaluate'),
                     'parameters': mk('func', 'pynare.core.variables:evaluate_parameter')}[who]
            return I.call(where, [t, scope('holding')(I, s)], {}, s)
        return f

    who = ['expressions', 'evaluate', 'parameters', 'steady-state functions', 'dynamic functions']
    for i, ch in enumerate(chains(B.tier)):
        for j, w in enumerate(who):
            if B.tier == 'thorough' or (i + j) % 3 == 0:
                simple('%s: variable in %s' % (w, ' in '.join(ch)), of_nested(w, ch), lambda J, s: worth(J, sym('v'), ch, s))

    # text
    def parsed(I, args, kw, st):
        e = kw.get('exp', args[1] if len(args) > 1 else const('standard'))
        return I.instantiate('spec.given:Part', [app('meaning', args[0], e)], {}, st)

    for exp in ('standard', 'python', None):
        def go():
            I = B.engine(Cfg(opaque={'ABCVisitor.visit': part, 'parse_string': parsed}, sym_types={'scope': 'dict', 'text': 'str'}))
            kw = {'exp': const(exp)} if exp else {}
            c = B.value(I, lambda s: I.call(mk('func', 'pynare.parsing.api:evaluate'), [sym('text'), sym('scope')], kw, s))
            B.match('evaluate: text in %s notation' % (exp or 'default'), c, (app('meaning', sym('text'), const(exp or 'standard')), TRUE, sym('normal')))
        B.guard('evaluate: text', go)
