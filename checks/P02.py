"""The structure of expressions."""
import itertools
from sa.interp import Cfg
from sa.terms import sym, mk, const, num, T
from checks.P12 import World

SYMBOLS = set(', ; : # ( ) [ ] + - * / ^ = < <= > >= == { !'.split())
KEYWORDS = set(('var varexo varexo_det parameters model end initval endval histval shocks periods values corr stderr steady '
                'predetermined_variables stoch_simul').split())
FUNCTIONS = set('exp log ln log10 sqrt abs sign sin cos tan asin acos atan max min normcdf normpdf erf'.split())
OPS = {'+': 'PLUS', '-': 'MINUS', '*': 'MUL', '/': 'DIV', '^': 'POWER'}
COMPS = ('<', '<=', '>', '>=', '==')
FIELDS = 'endog stoch determ params shocks exprs local_params initial terminal historical language name'.split()
MINIMUM = 300


class Texts(World):
    """Texts as streams of tokens."""

    def __init__(self, B):
        super().__init__(B)
        self.texts = []

    def text(self, items):
        if isinstance(items, str):
            items = [float(x) if x[0].isdigit() else x for x in items.split()]
        self.texts.append(list(items))
        return const('text %d' % (len(self.texts) - 1))

    def token(self, I, x, s):
        def call(f, v):
            return I.call(mk('func', 'spec.tokens:' + f), [v], {}, s)
        if isinstance(x, T):
            return call('number', x)
        if isinstance(x, (int, float)):
            return call('number', num(int(x) if x == int(x) else x))
        if x in SYMBOLS:
            return call('symbol', const(x))
        if x in KEYWORDS:
            return call('keyword', const(x))
        if x in FUNCTIONS:
            return call('function', const(x))
        if x[0] == '"':
            return call('string', const(x[1:-1]))
        return call('identifier', const(x))

    def source(self, kind):
        def lexer(I, args, kw, st):
            xs = self.texts[int(args[0].args[1].split()[1])]
            xs = I.call(mk('func', 'spec.given:listed'), [self.token(I, x, st) for x in xs], {}, st)
            return I.instantiate('spec.tokens:' + kind, [xs], {}, st)
        return lexer

    def defined(self, I, args, kw, st):
        kw = dict(zip(FIELDS, args), **kw)
        return I.instantiate('spec.tokens:Defined', [kw.get(f) or mk('list') for f in FIELDS], {}, st)

    def opaque(self):
        return {'pynare.core.model:Model': self.defined, 'BaseLexer': self.source('Expression'), 'DynareLexer': self.source('File')}


class Malformed(Exception):
    pass


class Grammar:
    """Reads an expression by the precedence of its operators."""

    LEVEL = {'+': 1, '-': 1, '*': 2, '/': 2, '^': 4}

    def __init__(self, items):
        self.items = list(items) + [None]
        self.i = 0

    @property
    def now(self):
        return self.items[self.i]

    def take(self, x=None):
        r = self.now
        if x is not None and r != x or r is None:
            raise Malformed(r)
        self.i += 1
        return r

    def operand(self):
        x = self.take()
        if x == '(':
            r = self.binary(1)
            self.take(')')
            return r
        if x in FUNCTIONS:
            self.take('(')
            r = (x, self.binary(1))
            self.take(')')
            return r
        if x in ('+', '-'):
            return ('neg' if x == '-' else 'pos', self.binary(4))
        if isinstance(x, str) and (x in SYMBOLS or x in KEYWORDS or x[0] == '"'):
            raise Malformed(x)
        if self.now == '(' and self.periods:
            self.take('(')
            d = self.take()
            n = self.take()
            self.take(')')
            if d not in ('+', '-') or not isinstance(n, (int, float)):
                raise Malformed(n)
            return ('at', x, d + str(int(n)))
        return x

    periods = False

    def binary(self, least):
        l = self.operand()
        while self.now in self.LEVEL and self.LEVEL[self.now] >= least:
            o = self.take()
            l = (o, l, self.binary(self.LEVEL[o] + (o != '^')))
        return l

    def comparison(self):
        l = self.binary(1)
        if self.now in COMPS:
            l = (self.take(), l, self.binary(1))
        if self.now is not None:
            raise Malformed(self.now)
        return l


def meaning(J, t, env, s):
    def call(f, *xs):
        return J.call(mk('func', 'spec.values:' + f), list(xs), {}, s)
    if isinstance(t, tuple) and t[0] in OPS:
        return call('binary', const(OPS[t[0]]), meaning(J, t[1], env, s), meaning(J, t[2], env, s))
    if isinstance(t, tuple) and t[0] in COMPS:
        return call('compare', const(t[0]), meaning(J, t[1], env, s), meaning(J, t[2], env, s))
    if isinstance(t, tuple) and t[0] in ('neg', 'pos'):
        return call('unary', const('MINUS' if t[0] == 'neg' else 'PLUS'), meaning(J, t[1], env, s))
    if isinstance(t, tuple) and t[0] == 'at':
        return env[t[1] + {'+1': 'p1', '-1': 'm1', '+0': '', '-0': ''}[t[2]]]
    if isinstance(t, tuple):
        return call('function', const(t[0]), meaning(J, t[1], env, s))
    if isinstance(t, str):
        return env[t]
    return num(int(t) if t == int(t) else t) if isinstance(t, (int, float)) else t


NAMES = 'abcde'
VALUES = {x: sym('value of ' + x) for x in [n + p for p in ('', 'm1', 'p1') for n in NAMES]}


def cases():
    ops = '+-*/^'
    for p in itertools.product(ops, repeat=2):
        yield ['a', p[0], 'b', p[1], 'c']
    for p in itertools.product('+-*/^', repeat=3):
        yield ['a', p[0], 'b', p[1], 'c', p[2], 'd']
    for p in itertools.product(ops, repeat=2):
        yield ['a', p[0], '(', 'b', p[1], 'c', ')']
        yield ['(', 'a', p[0], 'b', ')', p[1], 'c']
    for o in ops:
        for u in '+-':
            yield [u, 'a', o, 'b']
            yield ['a', o, u, 'b']
            yield [u, '(', 'a', o, 'b', ')']
            yield ['(', u, 'a', ')', o, 'b']
    for p in itertools.product(ops, repeat=2):
        yield ['a', p[0], '-', 'b', p[1], 'c']
    for u in itertools.product('+-', repeat=2):
        yield list(u) + ['a']
        yield list(u) + ['a', '^', 'b']
    for o in ops:
        yield ['exp', '(', 'a', ')', o, 'b']
        yield ['a', o, 'exp', '(', 'b', ')']
        yield ['exp', '(', 'a', o, 'b', ')']
        yield ['-', 'log', '(', 'a', ')', o, 'b']
        yield ['sqrt', '(', '-', 'a', o, 'abs', '(', 'b', ')', ')']
        yield [3.0, o, 'a']
        yield ['a', o, 2.5]
    yield ['a']
    yield ['(', 'a', ')']
    yield ['(', '(', 'a', ')', ')']
    yield ['(', '(', 'a', '-', 'b', ')', '*', '(', 'c', '-', '(', 'd', '-', 'e', ')', ')', ')']
    yield ['a', '-', 'b', '-', 'c', '-', 'd', '-', 'e']
    yield ['a', '/', 'b', '/', 'c', '*', 'd', '/', 'e']
    yield ['a', '^', 'b', '^', 'c', '^', 'd']
    yield ['-', 'a', '^', '-', 'b', '^', '-', 'c']
    yield ['a', '*', 'b', '^', 'c', '*', 'd', '-', 'e', '^', 'a']


def compared():
    for c in COMPS:
        yield ['a', c, 'b']
        yield ['a', '+', 'b', c, 'c', '*', 'd']
        yield ['-', 'a', c, '-', 'b']
        yield ['exp', '(', 'a', ')', c, '(', 'b', '-', 'c', ')']


def run(B):
    B.defer = True
    B.rule = ('the value of the expression that is read from a sequence of tokens is normalised, for arbitrary values of its variables, and '
              'compared with the value under the precedence and associativity of the operators.')
    B.anchor('pynare.parsing.api:evaluate')
    B.anchor('pynare.parsing.api:read_model')
    W = Texts(B)

    def cfg():
        return Cfg(recursion=30, inline_depth=120, unroll=400, sym_types={'value of ' + x: 'num' for x in VALUES}, opaque=W.opaque())

    def scope(I, s):
        return W.table(I, VALUES, s)

    def show(xs):
        return ' '.join(str(x) for x in xs)

    def expression(xs):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            c = B.value(I, lambda s: I.call(mk('func', 'spec.tokens:value'), [W.text(xs), scope(I, s)], {}, s))
            e = B.value(J, lambda s: meaning(J, Grammar(xs).comparison(), VALUES, s))
            B.match('expression: ' + show(xs), c, e, raises=True)
        B.guard('expression: ' + show(xs), go)

    for xs in itertools.chain(cases(), compared()):
        expression(xs)

    # in the equations of a model file, parameter definitions, local definitions, boundary values and shocks
    def listing(xss):
        return [x for xs in xss for x in xs]

    HEAD = 'var a b c d e ; varexo u ;'.split()

    def equations(xss):
        label = 'equations: ' + ' | '.join(show(xs) for xs in xss)
        forms = []
        for i, xs in enumerate(xss):
            # left, right, or without a right side
            forms.append([xs, ['d'], '='] if i % 3 == 0 else [['d'], xs, '='] if i % 3 == 1 else [xs, [], None])
        text = HEAD + ['model', ';'] + listing(f[0] + ([f[2]] if f[2] else []) + f[1] + [';'] for f in forms) + ['end', ';']

        def expected(J, s):
            r = []
            for l, rr, q in forms:
                l = meaning(J, Grammar(l).comparison(), VALUES, s)
                rr = meaning(J, Grammar(rr).comparison(), VALUES, s) if q else num(0)
                r.append(J.call(mk('func', 'spec.values:binary'), [const('MINUS'), l, rr], {}, s))
            return mk('list', *r)

        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            c = B.value(I, lambda s: I.call(mk('func', 'spec.tokens:equation_values'), [W.text(text), scope(I, s)], {}, s))
            B.match(label, c, B.value(J, lambda s: expected(J, s)), raises=True)
        B.guard(label, go)

    all_ = [xs for xs in cases()]
    for i in range(0, len(all_), 5):
        equations((all_[i:i + 5] + all_[:4])[:5])
