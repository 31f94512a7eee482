"""Values of parameters that are defined through others."""
import itertools
from sa.interp import Cfg
from sa.terms import sym, mk, const, num, TRUE, FALSE
from checks.P12 import AST, World, base, cfg as model_cfg

VAR = 'pynare.core.variables:'
MINIMUM = 200
FUNCS = ('exp', 'log', 'sqrt', 'abs', 'sin')
OPS = {'+': 'PLUS', '-': 'MINUS', '*': 'MUL', '/': 'DIV', '^': 'POWER'}

CASES = {
    'chain': {'a': sym('p1'), 'b': ('+', 'a', 1), 'c': ('*', 2, 'b'), 'd': ('exp', 'c')},
    'diamond': {'a': sym('p1'), 'b': ('-', 'a', 1), 'c': ('log', 'a'), 'd': ('/', 'b', 'c')},
    'two roots': {'a': sym('p1'), 'b': sym('p2'), 'c': ('^', 'a', 'b'), 'd': ('-', ('*', 'c', 'a'), ('neg', 'b'))},
    'several references': {'a': sym('p1'), 'b': ('*', 'a', 'a'), 'c': ('+', 'b', ('*', 'b', 'a')), 'd': ('sqrt', ('+', 'c', 'a'))},
    'inverse signs': {'a': sym('p1'), 'b': ('neg', 'a'), 'c': ('-', 'b', 'a'), 'd': ('pos', ('-', 'a', 'c'))},
    'copies': {'a': sym('p1'), 'b': 'a', 'c': 'b', 'd': 'c'},
    'separate': {'a': sym('p1'), 'b': ('+', 'a', 1), 'c': sym('p2'), 'd': ('*', 'c', 3)},
    'constants': {'a': ('+', 1, 2), 'b': 5, 'c': ('*', 'a', 'b'), 'd': ('-', 'c', 'a')},
}
LONG = {'a': sym('p1'), 'b': ('+', 'a', 1), 'c': ('*', 'b', 'b'), 'd': ('-', 'c', 'a'), 'e': ('/', 'd', 'c'), 'f': ('+', 'e', 'b')}
LOOPS = {
    'a parameter of itself': {'a': ('+', 'a', 1)},
    'two parameters of each other': {'a': ('+', 'b', 1), 'b': ('*', 'a', 2)},
    'a loop of three': {'a': 'b', 'b': ('exp', 'c'), 'c': ('neg', 'a')},
    'a loop after a number': {'a': sym('p1'), 'b': ('+', 'a', 'c'), 'c': ('*', 'b', 'a')},
    'a loop that others depend on': {'a': ('+', 'b', 1), 'b': ('+', 'a', 1), 'c': sym('p1'), 'd': ('+', 'a', 'c')},
}


def ast_of(I, W, t, s):
    if isinstance(t, tuple) and t[0] in OPS:
        o = OPS[t[0]]
        return I.instantiate(AST + 'BinaryOp', [ast_of(I, W, t[1], s), W.tok(I, o, o, s), ast_of(I, W, t[2], s)], {}, s)
    if isinstance(t, tuple) and t[0] in ('neg', 'pos'):
        o = 'MINUS' if t[0] == 'neg' else 'PLUS'
        return I.instantiate(AST + 'UnaryOp', [W.tok(I, o, o, s), ast_of(I, W, t[1], s)], {}, s)
    if isinstance(t, tuple):
        return I.instantiate(AST + 'Function', [W.tok(I, 'FUNCTION', t[0], s), ast_of(I, W, t[1], s)], {}, s)
    return W.leaf(I, t, s)


def definition(I, W, v, s):
    if isinstance(v, (tuple, str)):
        return ast_of(I, W, v, s)
    return num(v) if isinstance(v, int) else v


def meaning(J, t, env, s):
    def call(f, *xs):
        return J.call(mk('func', 'spec.values:' + f), list(xs), {}, s)
    if isinstance(t, tuple) and t[0] in OPS:
        return call('binary', const(OPS[t[0]]), meaning(J, t[1], env, s), meaning(J, t[2], env, s))
    if isinstance(t, tuple) and t[0] in ('neg', 'pos'):
        return call('unary', const('MINUS' if t[0] == 'neg' else 'PLUS'), meaning(J, t[1], env, s))
    if isinstance(t, tuple):
        return call('function', const(t[0]), meaning(J, t[1], env, s))
    if isinstance(t, str):
        return meaning(J, env[t], env, s)
    return num(t) if isinstance(t, int) else t

SYSTEMS = {
    'numbers first': {'a': sym('p1'), 'b': sym('p2'), 'c': 3, 'd': ('+', 'a', 'b'), 'e': ('*', 'd', 'c'), 'f': ('-', 'e', 'b'), 'g': ('exp', 'f')},
    'numbers last': {'a': ('*', 'e', 'f'), 'b': ('-', 'a', 'g'), 'c': ('log', 'b'), 'd': ('+', 'c', 'a'), 'e': sym('p1'), 'f': 2, 'g': sym('p2')},
    'two groups': {'a': sym('p1'), 'b': ('+', 'a', 1), 'c': ('*', 'b', 'a'), 'd': sym('p2'), 'e': ('/', 'd', 2), 'f': ('-', 'e', 'd')},
    'five numbers': {'a': 1, 'b': sym('p1'), 'c': 0, 'd': sym('p2'), 'e': -4, 'f': ('+', 'b', ('*', 'd', 'e')), 'g': ('-', 'f', 'a')},
    'six in a row': {'a': sym('p1'), 'b': ('+', 'a', 1), 'c': ('*', 'b', 2), 'd': ('-', 'c', 3), 'e': ('/', 'd', 4), 'f': ('neg', 'e')},
}


def used(t):
    return {t} if isinstance(t, str) else set().union(*map(used, t[1:])) if isinstance(t, tuple) else set()


def free(d):
    """A parameter that no other refers to."""
    return max(k for k in d if not any(k in used(v) for v in d.values()))


def histories(d):
    roots = [k for k in sorted(d) if not isinstance(d[k], tuple)]
    made = [k for k in sorted(d) if isinstance(d[k], tuple)]
    end = free(d)
    for r in roots:
        yield [('set', r, sym('p3'))]
    for m in made:
        yield [('set', m, 7)]
    yield [('set', 'new', ('+', made[-1], roots[0]))]
    yield [('set', 'new', 9)]
    yield [('set', end, ('*', roots[-1], roots[-1]))]
    yield [('set', roots[0], 5), ('set', roots[0], sym('p3'))]
    yield [('set', made[0], 6), ('set', roots[-1], 8)]
    yield [('del', end)]
    yield [('del', end), ('set', roots[0], sym('p3'))]
    yield [('del', end), ('set', end, 4), ('set', roots[-1], sym('p3'))]
    yield [('set', 'new', ('+', made[-1], 1)), ('del', 'new'), ('set', roots[0], 2)]
    for copied in ('recalibrated', 'deep', 'shallow'):
        yield [(copied,), ('set', roots[0], sym('p3'))]
        yield [('set', made[0], ('+', roots[0], 3)), (copied,), ('set', roots[0], sym('p3'))]
        yield [(copied,), (copied,), ('set', roots[-1], 2), ('set', 'new', ('neg', made[-1]))]


def run(B):
    B.defer = True
    B.rule = ('the calibration of every order of declaration of each system of definitions is normalised and compared with the values '
              'that the definitions have when each is evaluated after those it refers to.')
    B.anchor(VAR + 'ModelCalibration')
    W = World(B)

    def cfg():
        def parsed(I, args, kw, st):
            return ast_of(I, W, eval(args[0].args[1]), st)
        return Cfg(recursion=8, sym_types={p: 'num' for p in ('p1', 'p2', 'p3', 'a')}, opaque={'parse_string': parsed})

    def table(I, d, order, s, how=None):
        return W.table(I, {k: const(repr(d[k])) if how == 'text' and isinstance(d[k], (tuple, str)) else
                           ast_of(I, W, d[k], s) if how == 'nodes' and isinstance(d[k], int) else definition(I, W, d[k], s) for k in order}, s)

    def calibration(I, d, order, s, how=None):
        return I.instantiate(VAR + 'ModelCalibration', [table(I, d, order, s, how)], {}, s)

    def values(I, m, d, s):
        return mk('tuple', *[I.get_item(m, const(k), s) for k in sorted(d)])

    def pair(label, f, g, only=None, alive=True):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            B.match(label, B.value(I, lambda s: f(I, s), only=only), B.value(J, lambda s: g(J, s), only=only), raises=True, alive=alive)
        B.guard(label, go)

    def expected(d):
        return lambda J, s: mk('tuple', *[meaning(J, d[k], d, s) for k in sorted(d)])

    cases = dict(CASES)
    for name, d in cases.items():
        for i, order in enumerate(itertools.permutations(sorted(d))):
            pair('%s, declared as %s' % (name, ' '.join(order)), lambda I, s: values(I, calibration(I, d, order, s), d, s), expected(d), only=())
    for order in ('abcdef', 'fedcba', 'fbdace', 'cfbead', 'badcfe', 'fecdba'):
        pair('long chain, declared as ' + ' '.join(order), lambda I, s: values(I, calibration(I, LONG, order, s), LONG, s), expected(LONG), only=())
    for name, d in cases.items():
        for how in ('text', 'nodes'):
            for order in (sorted(d), sorted(d, reverse=True)):
                pair('%s, given as %s, declared as %s' % (name, how, ' '.join(order)),
                     lambda I, s: values(I, calibration(I, d, order, s, how), d, s), expected(d), only=())

    # changes of a definition
    for name, k, v in (('chain', 'a', sym('p3')), ('chain', 'b', ('*', 'a', 5)), ('chain', 'c', 4), ('diamond', 'a', sym('p3')), ('diamond', 'b', 'c'),
                       ('two roots', 'b', ('+', 'a', 2)), ('copies', 'a', 3), ('separate', 'c', 'b'), ('chain', 'e', ('+', 'd', 'a'))):
        d = cases[name]
        new = dict(d)
        new[k] = v

        def changed(I, s):
            m = calibration(I, d, sorted(d), s)
            I.set_item(m, const(k), definition(I, W, v, s), s)
            return values(I, m, new, s)
        pair('%s, after another definition of %s' % (name, k), changed, expected(new), only=())

    # histories of changes of longer systems
    def play(I, m, d, h, s):
        """The calibration after the changes of `h`, and the definitions it then has."""
        d = dict(d)
        for step in h:
            if step[0] == 'set':
                I.set_item(m, const(step[1]), definition(I, W, step[2], s), s)
                d[step[1]] = step[2]
            elif step[0] == 'del':
                I.del_item(m, const(step[1]), s)
                del d[step[1]]
            else:
                m = I.call(mk('func', 'spec.history:' + step[0]), [m], {}, s)
        return m, d

    def final(d, h):
        d = dict(d)
        for step in h:
            if step[0] == 'set':
                d[step[1]] = step[2]
            elif step[0] == 'del':
                del d[step[1]]
        return d

    for name, d in SYSTEMS.items():
        for order in (sorted(d), sorted(d, reverse=True), sorted(d)[1::2] + sorted(d)[::2]):
            for h in histories(d):
                if B.tier != 'thorough' and order != sorted(d) and len(h) > 2:
                    continue
                new = final(d, h)
                said = '; '.join(' '.join(map(str, x)) for x in h)

                def after(I, s):
                    m = play(I, calibration(I, d, order, s), d, h, s)[0]
                    return mk('tuple', I.R(I.call(mk('func', 'spec.history:calibrated'), [m], {}, s), s), I.call(mk('func', 'spec.history:size'), [m], {}, s))

                def stated(J, s):
                    return mk('tuple', mk('list', *[mk('tuple', const(k), meaning(J, new[k], new, s)) for k in sorted(new)]), num(len(new)))
                pair('%s, declared as %s, after: %s' % (name, ' '.join(order), said), after, stated, only=())

                def kept(I, s):
                    m = calibration(I, d, order, s)
                    play(I, I.call(mk('func', 'spec.history:recalibrated'), [m], {}, s), d, h, s)
                    return I.R(I.call(mk('func', 'spec.history:calibrated'), [m], {}, s), s)
                if len(h) < 3 and order == sorted(d):
                    pair('%s, after changes of a copy: %s' % (name, said), kept,
                         lambda J, s: mk('list', *[mk('tuple', const(k), meaning(J, d[k], d, s)) for k in sorted(d)]), only=())
        for k in sorted(d):
            def asked(I, s):
                m = calibration(I, d, sorted(d), s)
                return mk('tuple', *[I.call(mk('func', 'spec.history:holds'), [m, const(n)], {}, s) for n in (k, k + k)])
            pair('%s, has %s' % (name, k), asked, lambda J, s: mk('tuple', TRUE, FALSE), only=())
        for gone in ([], [free(d)]):
            def missing(I, s):
                m = play(I, calibration(I, d, sorted(d), s), d, [('del', k) for k in gone], s)[0]
                return I.get_item(m, const((gone or ['zz'])[0]), s)
            pair('%s, a name that is not there (%s)' % (name, ' '.join(gone)), missing,
                 lambda J, s: J.call(mk('func', 'spec.history:no_parameter'), [], {}, s), only=('KeyError',), alive=False)

    # all parameters, and their names
    for name, d in cases.items():
        def listed(I, s):
            m = calibration(I, d, sorted(d, reverse=True), s)
            return I.R(I.call(mk('func', 'spec.history:calibrated'), [m], {}, s), s)

        def names(J, s):
            return mk('list', *[mk('tuple', const(k), meaning(J, d[k], d, s)) for k in sorted(d)])
        pair('%s, listed' % name, listed, names, only=())

    # of a model, beside its local variables
    for name, d in cases.items():
        def scope(I, s):
            m = W.model(I, s, endog=['x'], stoch=[], params={k: definition(I, W, d[k], s) for k in sorted(d, reverse=True)}, eqs=[('x', 1)],
                        local_params={'h': sym('p3')})
            c = I.get_attr(m, 'model_scope', s)
            return mk('tuple', *[I.get_item(c, const(k), s) for k in sorted(d) + ['h']])

        def known(J, s):
            return mk('tuple', *[meaning(J, d[k], d, s) for k in sorted(d)] + [sym('p3')])

        def go():
            c2 = model_cfg()
            c2.sym_types = dict(c2.sym_types, p1='num', p2='num', p3='num')
            I, J = B.engine(c2), B.engine(cfg())
            B.match(label, B.value(I, lambda s: scope(I, s)), B.value(J, lambda s: known(J, s)), raises=False, alive=True)
        label = '%s, parameters of a model' % name
        B.guard(label, go)

    # definitions without a solution
    def error(e):
        return lambda J, s: J.call(mk('func', 'spec.history:' + e), [], {}, s)

    for name, d in LOOPS.items():
        for order in itertools.permutations(sorted(d)):
            pair('%s, declared as %s' % (name, ' '.join(order)), lambda I, s: calibration(I, d, order, s), error('no_calibration'),
                 only=('CalibrationError',), alive=False)

    def unknown(I, s):
        return calibration(I, {'a': ('+', 'z', 1)}, ['a'], s)

    def go():
        I = B.engine(cfg())
        c = B.value(I, lambda s: unknown(I, s))
        if c[0] is None:
            B.ok(label)
        else:
            B.bad(label, 'a parameter that refers to no parameter has the value %s' % (c[0],))
    label = 'a reference to no parameter'
    B.guard(label, go)
