"""What a model file says reaches the model."""
from sa.interp import Cfg
from sa.terms import sym, mk, const, num, T, NONE
from checks import P12
from checks.P02 import Texts, Grammar, Malformed, meaning, SYMBOLS, KEYWORDS, FUNCTIONS

TYPES = {'var': 'endog', 'varexo': 'stoch', 'varexo_det': 'determ', 'parameters': 'params'}
BLOCKS = {'initval': 'initial', 'endval': 'terminal', 'histval': 'historical'}
MINIMUM = 60


class Unspecified(Exception):
    """Left open by the documentation."""


class IllFormed(Exception):
    """Follows the grammar, and breaks its other rules."""


def is_name(x):
    return isinstance(x, str) and x not in SYMBOLS and x not in KEYWORDS and x not in FUNCTIONS and x[0] != '"'


class File(Grammar):
    """Reads a model file to a description of the model."""

    def __init__(self, items):
        super().__init__(items)
        self.declared = []
        self.assigned = []
        self.statements = []
        self.bounds = {}
        self.shocks = None
        self.kind = {}
        self.read()

    def name(self):
        x = self.take()
        if not is_name(x):
            raise Malformed(x)
        return x

    def read(self):
        while self.now != 'model':
            if self.now in TYPES:
                t = self.take()
                n = 0
                while self.now != ';':
                    if self.now == ',':
                        self.take()
                        if not n:
                            raise Unspecified('comma before the first name')
                    self.declared.append((t, self.name()))
                    n += 1
                self.take(';')
                if not n:
                    raise Unspecified('declaration of nothing')
            elif self.now in KEYWORDS:
                raise Unspecified(self.now) if self.now == 'predetermined_variables' else Malformed(self.now)
            else:
                self.assigned.append(self.assignment())
        self.take('model')
        self.options()
        self.take(';')
        while self.now != 'end':
            self.statements.append(self.statement())
        self.take('end')
        self.take(';')
        while self.now is not None:
            if self.now in BLOCKS:
                b = self.take()
                self.options()
                self.take(';')
                xs = []
                while self.now != 'end':
                    xs.append(self.assignment())
                self.take('end')
                self.take(';')
                if b in self.bounds:
                    raise Unspecified('two blocks of a kind')
                self.bounds[b] = xs
            elif self.now == 'shocks':
                self.take()
                self.options()
                self.take(';')
                xs = []
                while self.now in ('var', 'corr'):
                    xs.append(self.shock())
                    self.take(';')
                self.take('end')
                self.take(';')
                if self.shocks is not None:
                    raise Unspecified('two blocks of a kind')
                self.shocks = xs
            else:
                raise Malformed(self.now)

    def assignment(self):
        n = self.name()
        self.take('=')
        e = self.binary(1)
        self.take(';')
        return n, e

    def options(self):
        if self.now != '(':
            return
        self.take()
        while True:
            self.name()
            if self.now == '=':
                self.take()
                if isinstance(self.now, str) and (self.now[0] == '"' or is_name(self.now)):
                    self.take()
                else:
                    self.binary(1)
            if self.now != ',':
                break
            self.take()
        self.take(')')

    def statement(self):
        if self.now == '#':
            self.take()
            n = self.name()
            self.take('=')
            self.periods = True
            e = self.binary(1)
            self.periods = False
            self.take(';')
            return ('local', n, e)
        if self.now == '[':
            self.take()
            while True:
                self.name()
                if self.now == '=':
                    self.take()
                    x = self.take()
                    if not (isinstance(x, str) and x[0] == '"'):
                        raise Malformed(x)
                if self.now != ',':
                    break
                self.take()
            self.take(']')
        self.periods = True
        l = self.binary(1)
        r = 0
        if self.now == '=':
            self.take()
            r = self.binary(1)
        self.periods = False
        self.take(';')
        return ('equation', l, r)

    def shock(self):
        k = self.take()
        a = self.name()
        if k == 'corr':
            self.take(',')
            b = self.name()
            self.take('=')
            return ('corr', a, b, self.binary(1))
        if self.now == ',':
            self.take()
            b = self.name()
            self.take('=')
            return ('cov', a, b, self.binary(1))
        if self.now == '=':
            self.take()
            return ('variance', a, None, self.binary(1))
        self.take(';')
        if self.now == 'periods':
            raise Unspecified('deterministic shocks')
        self.take('stderr')
        return ('stderr', a, None, self.binary(1))

    # ------------------------------------------------------------ rules

    def uses(self, e, known, timed=False):
        if isinstance(e, tuple) and e[0] == 'at':
            self.uses(e[1], known)
            if known.get(e[1]) in ('parameters', 'local'):
                raise IllFormed('parameter %s at another period' % e[1])
            if known[e[1]] != 'var':
                raise Unspecified('exogenous variable at another period')
        elif isinstance(e, tuple):
            for x in e[1:]:
                self.uses(x, known)
        elif isinstance(e, str) and e not in known:
            raise IllFormed('%s is not declared' % e)

    def values(self, e, known):
        """An expression whose value is needed while reading."""
        self.uses(e, known)
        for x in self.leaves(e):
            if known.get(x) not in ('parameters', 'local'):
                raise IllFormed('no value of %s' % x)

    def leaves(self, e):
        if isinstance(e, tuple):
            return [y for x in e[1:] for y in self.leaves(x)]
        return [e] if isinstance(e, str) and is_name(e) else []

    def check(self):
        """Raises what is wrong with the file beyond its grammar."""
        known = {}
        for t, n in self.declared:
            if n in known:
                raise IllFormed('%s is declared twice' % n)
            known[n] = t
        given = set()
        for n, e in self.assigned:
            if n in known and known[n] != 'parameters':
                raise IllFormed('%s is not a parameter' % n)
            if n not in known:
                raise Unspecified('helper variable')
            self.values(e, known)
            for x in self.leaves(e):
                if x not in given:
                    raise IllFormed('%s has no value yet' % x)
            if n in given:
                raise Unspecified('assigned twice')
            given.add(n)
        for x in self.statements:
            if x[0] == 'local':
                if x[1] in known:
                    raise IllFormed('%s is declared twice' % x[1])
                self.values(x[2], known)
                for y in self.leaves(x[2]):
                    if known[y] == 'parameters' and y not in given:
                        raise IllFormed('no value of %s' % y)
                known[x[1]] = 'local'
            else:
                for e in x[1:]:
                    self.uses(e, known)
        outer = {k: v for k, v in known.items() if v != 'local'}
        for b in self.bounds.values():
            for n, e in b:
                if n not in outer:
                    raise IllFormed('%s is not declared' % n)
                if outer[n] != 'var':
                    raise IllFormed('%s is not endogenous' % n)
                self.numbers(e, outer, given)
        for k, a, b, e in self.shocks or []:
            for n in (a, b):
                if n is not None and n not in outer:
                    raise IllFormed('%s is not declared' % n)
                if n is not None and outer[n] not in ('varexo', 'varexo_det'):
                    raise IllFormed('%s is not exogenous' % n)
                if n is not None and outer[n] == 'varexo_det':
                    raise Unspecified('moment of a deterministic variable')
            self.numbers(e, outer, given)

    def numbers(self, e, known, given):
        self.values(e, known)
        for x in self.leaves(e):
            if x not in given:
                raise IllFormed('no value of %s' % x)

    # ----------------------------------------------------------- meaning

    def means(self, J, s):
        """The description of the model as a term."""
        env = {}
        for n, e in self.assigned:
            env[n] = meaning(J, e, env, s)
        local = []
        lenv = dict(env)
        eqs = []
        for x in self.statements:
            if x[0] == 'local':
                lenv[x[1]] = meaning(J, x[2], lenv, s)
                local.append((x[1], lenv[x[1]]))
        venv = {n + p: sym('value of ' + n + p) for t, n in self.declared for p in ('', 'm1', 'p1')}
        venv.update({n: sym('value of ' + n) for n, v in local})
        for x in self.statements:
            if x[0] == 'equation':
                eqs.append(J.call(mk('func', 'spec.values:binary'), [const('MINUS'), meaning(J, x[1], venv, s), meaning(J, x[2], venv, s)], {}, s))

        def pairs(xs):
            return mk('list', *[mk('tuple', const(k), v) for k, v in sorted(dict(xs).items())])
        given = dict(self.assigned)
        r = [mk('list', *[const(n) for t, n in self.declared if TYPES[t] == k]) for k in ('endog', 'stoch', 'determ')]
        r.append(pairs([(n, meaning(J, given[n], venv, s) if n in given else NONE) for t, n in self.declared if t == 'parameters']))
        r.append(pairs(local))
        r.append(mk('list', *eqs))
        for b in ('initval', 'endval', 'histval'):
            r.append(pairs([(n, meaning(J, e, env, s)) for n, e in self.bounds.get(b, [])]))
        sh = {}
        for k, a, b, e in self.shocks or []:
            v = meaning(J, e, env, s)
            d = sh.setdefault(a, {})
            if k == 'stderr':
                d['variance'] = J.call(mk('func', 'spec.values:square'), [v], {}, s)
            else:
                d[k] = v
            if b is not None:
                d['other'] = const(b)
        r.append(mk('list', *[mk('tuple', const(k), pairs(v.items())) for k, v in sorted(sh.items())]))
        return mk('list', *r)

    def scope(self):
        ns = [n for t, n in self.declared] + [x[1] for x in self.statements if x[0] == 'local']
        return {n + p: sym('value of ' + n + p) for n in ns for p in ('', 'm1', 'p1')}


def words(text):
    r = []
    for x in text.split():
        r.append(sym(x[1:]) if x[0] == '@' else float(x) if x[0].isdigit() else x)
    return r


def show(items):
    return ' '.join('@' + x.args[0] if isinstance(x, T) else '%g' % x if isinstance(x, float) else x for x in items)


PLAIN = 'var x y ; varexo e u ; parameters a b ; a = @p1 ; b = @p2 ; model ; x = a * x ( - 1 ) + e ; y = b * y ( + 1 ) + x + u ; end ;'
FILES = {
    'plain': PLAIN,
    'commas': PLAIN.replace('var x y', 'var x , y').replace('e u ;', 'e , u ;', 1).replace('parameters a b', 'parameters a , b'),
    'several declarations': PLAIN.replace('var x y ;', 'var x ;').replace('a = @p1', 'var z y ; a = @p1').replace('end ;', 'z = y ; end ;')
    .replace('varexo e u ;', 'varexo e ; varexo w u ;'),
    'declarations in another order': 'parameters b a ; varexo u e ; var y x ; a = @p1 ; b = @p2 ; model ; x = a * x ( - 1 ) + e ; y = b * y ( + 1 ) + x + u ; end ;',
    'values before declarations': 'a = @p1 ; b = @p2 ; ' + PLAIN.replace('a = @p1 ; b = @p2 ; ', ''),
    'all types': 'var x ; varexo e ; varexo_det d g ; parameters a ; a = @p1 ; model ; x = a + e + d - g ; end ;',
    'definitions through others': 'var x ; varexo e ; parameters a b c ; a = @p1 ; b = 1 - a ; c = exp ( b ) / a ; model ; x = a * x ( - 1 ) + b + c ; end ;',
    'no parameters': 'var x ; varexo e ; model ; x = 0.5 * x ( - 1 ) + e ; end ;',
    'parameter without a value': 'var x ; varexo e ; parameters a b ; b = @p1 ; model ; x = a + b ; end ;',
    'no right side': 'var x ; varexo e ; model ; x - x ( - 1 ) - e ; end ;',
    'tags': 'var x y ; varexo e ; model ; [ name = "first" ] x = e ; [ name = "second" , static ] y = x ; end ;',
    'options': 'var x ; varexo e ; model ( linear ) ; x = e ; end ;',
    'more options': 'var x ; varexo e ; model ( linear , use = some , more = "text" , n = 2 * 3 ) ; x = e ; end ; shocks ( overwrite ) ; var e = @p1 ; end ;',
    'local variables': 'var x ; varexo e ; parameters a ; a = @p1 ; model ; # h = 1 - a ; # k = h * a ; x = h * x ( - 1 ) + k * e ; end ;',
    'local variables between equations': 'var x y ; varexo e ; parameters a ; a = @p1 ; model ; x = e ; # h = a / 2 ; y = h * x ; end ;',
    'initial values': PLAIN + ' initval ; x = @q1 ; y = a / b ; end ;',
    'initial values in another order': PLAIN + ' initval ; y = @q1 ; x = @q2 - 1 ; end ;',
    'some initial values': PLAIN + ' initval ; y = @q1 ; end ;',
    'terminal values': PLAIN + ' endval ; y = @q1 ; x = exp ( @q2 ) ; end ;',
    'historical values': PLAIN + ' histval ; x = @q1 ; y = - @q2 ; end ;',
    'all boundaries': PLAIN + ' initval ; x = @q1 ; y = @q2 ; end ; endval ; x = @q3 ; y = @q4 ; end ; histval ; x = @q5 ; y = @q6 ; end ;',
    'boundaries in another order': PLAIN + ' histval ; x = @q1 ; end ; endval ; x = @q3 ; y = @q4 ; end ; initval ; y = @q6 ; end ;',
    'variances': PLAIN + ' shocks ; var e = @q1 ; var u = @q2 ^ 2 ; end ;',
    'variances in another order': PLAIN + ' shocks ; var u = @q1 ; var e = @q2 ; end ;',
    'standard errors': PLAIN + ' shocks ; var e ; stderr @q1 ; var u ; stderr @q2 ; end ;',
    'mixed moments': PLAIN + ' shocks ; var e ; stderr @q1 ; var u = @q2 ; end ;',
    'correlation': PLAIN + ' shocks ; var e = @q1 ; var u ; stderr @q2 ; corr e , u = @q3 ; end ;',
    'correlation first': PLAIN + ' shocks ; corr u , e = @q3 ; var e = @q1 ; var u = @q2 ; end ;',
    'covariance': PLAIN + ' shocks ; var e = @q1 ; var u = @q2 ; var e , u = @q3 ; end ;',
    'covariance first': PLAIN + ' shocks ; var u , e = @q3 ; var e = @q1 ; var u ; stderr a * b ; end ;',
    'some moments': PLAIN + ' shocks ; var u = @q1 ; end ;',
    'empty shocks': PLAIN + ' shocks ; end ;',
    'empty boundaries': PLAIN + ' initval ; end ; shocks ; var e = @q1 ; end ;',
    'shocks before boundaries': PLAIN + ' shocks ; var e = a ; var u = b ; end ; initval ; x = a ; y = b ; end ;',
    'shocks between boundaries': PLAIN + ' initval ; x = @q1 ; end ; shocks ; var e = @q2 ; end ; endval ; x = @q3 ; end ;',
    'zero values': PLAIN + ' initval ; x = 0 ; y = 0 ; end ; shocks ; var e = 0 ; var u = @q2 ; end ;',
    'deep leads and lags': 'var x y ; varexo e ; model ; log ( x ( + 1 ) ) = - exp ( y ( - 1 ) ) * ( x - y ( + 1 ) ) ^ x ( - 1 ) ; y = x ( + 0 ) + e ; end ;',
    'one of each': 'var x ; varexo e ; parameters a ; a = @p1 ; model ; x = a * x ( - 1 ) + e ; end ; initval ; x = @q1 ; end ; shocks ; var e = @q2 ; end ;',
    'three': 'var z x y ; varexo w e u ; parameters c a b ; b = @p1 ; c = @p2 ; a = b * c ; model ; z = a * z ( - 1 ) + w ; x = b * y + e ; y = c * x ( + 1 ) + u ; end ; '
             'initval ; y = @q1 ; z = @q2 ; x = @q3 ; end ; shocks ; var u = @q4 ; var w ; stderr @q5 ; var e = @q6 ; corr w , u = @q1 ; end ;',
}
# parts of files that go with each other, all pairs of which are combined
DECLARED = ['var x y ; varexo e u ; parameters a b ;', 'parameters b a ; varexo u , e ; var y x ;', 'var y ; varexo u ; parameters b ; var x ; varexo e ; parameters a ;',
            'var x , y ; varexo e u ; varexo_det d ; parameters a b c ;']
ASSIGNED = ['a = @p1 ; b = @p2 ;', 'b = @p2 ; a = b * 2 ;', 'a = @p1 ; b = log ( a ) - a ;', 'a = 0 ; b = @p1 ;', 'a = - @p1 ; b = ( a + 1 ) ^ 2 ;']
MODELS = ['x = a * x ( - 1 ) + e ; y = b * y ( + 1 ) + x + u ;', '[ name = "one" ] y = b * x + u ; x = a * y ( - 1 ) - e ;',
          '# h = a * b ; x = h * x ( - 1 ) + e * u ; y = x ( + 1 ) / h ;', '# h = a ; # k = h + b ; x = k * ( y - x ( - 1 ) ) ; y = exp ( h ) + u + e ;',
          'exp ( x ) = a * exp ( x ( - 1 ) + e ) ; y * ( b - u ) = x ( + 1 ) ^ a ;', 'x - y ( + 1 ) * a ; b * y = - x ( - 1 ) + e + u ;',
          'x = y ; # h = b ; y = h * log ( 1 + x ( - 1 ) ) + e ; x + y = u + a ;']
BOUNDS = ['', 'initval ; x = @q1 ; y = @q2 ; end ;', 'initval ; y = a * @q1 ; end ; endval ; x = @q2 ; y = b ; end ;', 'histval ; x = a ; y = - b ; end ;',
          'endval ; y = exp ( a ) ; x = 0 ; end ; initval ; x = @q1 / b ; end ;', 'initval ; x = a ; y = b ; end ; histval ; y = @q1 ; x = @q2 ; end ;']
SHOCKED = ['', 'shocks ; var e = @q4 ; end ;', 'shocks ; var u ; stderr @q4 ; var e ; stderr b ; end ;', 'shocks ; var e = @q4 ; var u = a ; corr e , u = @q5 ; end ;',
           'shocks ; corr e , u = @q5 ; var e = @q4 ; var u ; stderr @q6 ; end ;', 'shocks ; var e ; stderr @q4 ; corr u , e = @q5 ; var u = @q6 ; end ;',
           'shocks ; var e = @q4 ; var e , u = a * @q5 ; var u = @q6 ; end ;', 'shocks ; var u , e = @q5 ; var u ; stderr @q4 ; var e = b ^ 2 ; end ;',
           'shocks ; var e = @q4 ; var u = @q6 ; corr e , u = @q5 ; var e , u = @q3 ; end ;', 'shocks ; var e ; stderr @q4 ; var e = @q5 ; end ;',
           'shocks ; var e = @q5 ; var u = 0 ; var e ; stderr @q4 ; end ;', 'shocks ; var u = 1 / a ; corr u , e = 0 ; end ;', 'shocks ; end ;']


def combined(tier):
    """Files of which each two parts occur together."""
    parts = [DECLARED, ASSIGNED, MODELS, BOUNDS, SHOCKED]
    if tier == 'thorough':
        choices = [(d, a, m, b, s) for d in range(4) for a in range(5) for m in range(7) for b in range(6) for s in range(13) if (a + m + b + s + d) % 5 == 0]
    else:
        choices = []
        for s in range(13):
            for m in range(7):
                for k in range(2):
                    choices.append(((s + m + k) % 4, (s + 2 * m + 3 * k) % 5, m, (m + s * (2 - k) + k) % 6, s))
    for c in choices:
        d, a, m, b, s = [p[i] for p, i in zip(parts, c)]
        yield 'file of parts %s' % ' '.join(map(str, c)), ' '.join(x for x in (d, a, 'model ;', m, 'end ;') + ((b, s) if sum(c) % 3 else (s, b)) if x)


NUMBERS = ['p%d' % i for i in range(1, 4)] + ['q%d' % i for i in range(1, 7)]


def cfg(W, values, more=()):
    return Cfg(recursion=30, inline_depth=150, unroll=400, sym_types={n: 'num' for n in NUMBERS + ['value of ' + x for x in values]}, opaque=W.opaque())


def run(B):
    B.defer = True
    B.rule = ('what is handed to the model for a file that is given as a sequence of tokens is normalised, with arbitrary numbers, and compared '
              'with the description of the model that the file stands for.')
    B.anchor('pynare.parsing.api:read_model')
    B.anchor('pynare.core.model:Model.from_outline')
    W = Texts(B)
    for name, text in list(FILES.items()) + list(combined(B.tier)):
        items = words(text)
        f = File(items)
        f.check()
        parts = ('variables', 'parameters', 'locals', 'equations', 'initial', 'terminal', 'historical', 'shocks')

        def go():
            v = f.scope()
            I, J = B.engine(cfg(W, v)), B.engine(cfg(W, v))
            c = B.value(I, lambda s: I.call(mk('func', 'spec.tokens:description'), [W.text(items), W.table(I, v, s)], {}, s))
            e = B.value(J, lambda s: f.means(J, s))
            B.match(name, c, e, raises=True)
        B.guard(name, go)

    # values at the boundaries, in the order of the variables
    eqs = [('x', 'e'), ('y', 'x'), ('z', 'y')]
    B.anchor('pynare.core.generic:DynamicModel.initial' if B.repo.member('pynare.core.generic:DynamicModel', 'initial') else 'pynare.core.model:Model.initial')
    for names in (['x', 'y', 'z'], ['z', 'x', 'y']):
        for given in ('x y z', 'z y x', 'y', 'z x', ''):
            for b in ('initial', 'terminal', 'historical'):
                def go():
                    values = {n: sym('q%d' % (i + 1)) for i, n in enumerate(given.split())}
                    rest = {} if b == 'initial' or len(values) == 3 else {'initial': {n: sym('p%d' % (i + 1)) for i, n in enumerate('xyz')}}

                    def code(I, s):
                        m = W.model(I, s, endog=names, stoch=['e'], params={}, eqs=eqs, **dict(rest, **{b: values}))
                        return I.call(mk('func', 'spec.tokens:boundary_' + b), [m], {}, s)

                    def expected(J, s):
                        d = num(0) if b == 'initial' else J.call(mk('func', 'spec.tokens:missing'), [], {}, s)
                        return J.call(mk('func', 'spec.tokens:numbers'), [mk('list', *[values.get(n, d) for n in names])], {}, s)
                    I, J = B.engine(P12.cfg_for(NUMBERS)), B.engine(P12.cfg_for(NUMBERS))
                    label = '%s values of %s, declared as %s' % (b, given or 'none', ' '.join(names))
                    B.match(label, B.value(I, lambda s: code(I, s)), B.value(J, lambda s: expected(J, s)), raises=True)
                B.guard('%s %s %s' % (b, given, names), go)
