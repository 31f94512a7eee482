"""Summaries show each value under the names it belongs to."""
import itertools
from fractions import Fraction
from sa.interp import Cfg
from sa import arith as A
from sa.terms import sym, mk, const, num, is_str, NONE, TRUE, FALSE
from sa.shapes import structures, symbols, policies, KINDS

MINIMUM = 100
IO = 'pynare.io.summary:'
WORDS = {'mean', 'std', 'dev', 'var', 'real', 'imag', 'mod', 'p', '='}


def wide(t):
    return t.op == 'sym' and t.args[0] == 'width' or any(wide(x) for x in t.args if hasattr(x, 'op'))


def lines(t):
    """The lines of a text, each a sequence of words and formatted values."""
    out, word, line = [], '', []
    for p in (t.args if t.op == 'fstr' else [t]):
        if is_str(p):
            for ch in p.args[1]:
                if ch.isspace():
                    if word:
                        line.append(const(word))
                    word = ''
                    if ch == '\n':
                        out.append(line)
                        line = []
                else:
                    word += ch
        else:
            if word:
                line.append(const(word))
            word = ''
            line.append(p)
    if word:
        line.append(const(word))
    return out + [line]


def told(ls, names):
    """The lines that say something: values, or names and other labels of columns."""
    def tells(line):
        words = [x.args[1] for x in line if is_str(x)]
        return line and (len(words) < len(line) or words[:2] == ['number', 'of'] or all(w in names or w in WORDS or w.isdigit() for w in words))
    return mk('list', *[mk('tuple', *x) for x in ls if tells(x)])


def value(x, digits):
    return mk('strof', mk('fmt', x, const('.%df' % digits)))


def symbolic(*ts):
    return set().union(*[{t.args[0]} if t.op == 'sym' else symbolic(*[x for x in t.args if hasattr(x, 'op')]) for t in ts])


def rank(kind):
    ps = KINDS[kind]
    return 0 if ps == (0,) else 1 if -1 in ps and 1 not in ps else 2 if -1 in ps else 3


class Names:
    """Names of a model of known structure, in the order of declaration."""

    def __init__(self, kinds, ne):
        self.kinds = kinds
        self.endog = [('v%d', 'output_%d', 'k%d')[i % 3] % i for i in range(len(kinds))]
        self.stoch = [('e%d', 'eps_long_%d')[i % 2] % i for i in range(ne)]
        self.rule = sorted(range(len(kinds)), key=lambda i: (rank(kinds[i]), i))
        self.states = [i for i in range(len(kinds)) if -1 in KINDS[kinds[i]]]
        self.order = [i for i in self.rule if i in self.states]

    def all(self):
        return set(self.endog) | set(self.stoch)


def run(B):
    B.defer = True
    B.rule = ('the text of every summary is derived for models of known structure, cut into words and formatted values, and compared with the table '
              'that has each value in the row and column of the names that it belongs to.')
    for c in ('ModelSummary', 'ModelStatisticsSummary', 'FirstOrderSummary', 'SecondOrderSummary'):
        B.anchor(IO + c)

    def model(I, N, given, s):
        vs = [I.instantiate('pynare.core.variables:EndogVar', [const(v)],
                            {'lead_lag': I.call(mk('func', 'spec.given:periods_of'), [num(p) for p in KINDS[k]], {}, s)}, s) for v, k in zip(N.endog, N.kinds)]
        es = [I.instantiate('pynare.core.variables:StochVar', [const(e)], {}, s) for e in N.stoch]
        ls = [I.call(mk('func', 'spec.given:listed'), x, {}, s) for x in (vs, es)]
        params = I.call(mk('func', 'spec.search:table'), [mk('tuple', const(k), v) for k, v in given['params'].items()], {}, s)
        return I.instantiate('spec.shown:Shown', ls + [given['sigma'], given['ss'], given['eigen'], params], {}, s)

    def widths(I, name, args, kw, st):
        """How many blanks there are is not analysed."""
        if name == 'numpy.log10':
            return sym('width')
        if name == 'builtins.len' and I.V(args[0], st).op in ('fstr', 'strof'):
            return sym('width')
        if name in ('numpy.nanmax', 'numpy.max', 'numpy.fix', 'numpy.floor', 'numpy.amax', 'numpy.ceil', 'numpy.trunc', 'builtins.max', 'builtins.int',
                    'math.floor', 'math.ceil') and any(wide(I.V(a, st)) for a in args):
            return sym('width')
        return None

    def usual(N):
        n, ne = len(N.kinds), len(N.stoch)
        return dict(ss=mk('arr', *[sym('ss%d' % i) for i in range(n)]), sigma=symbols('s', ne, ne), eigen=NONE, params={'alpha': sym('al')})

    def check(label, f, N, given, arrays, kw, want):
        names = symbolic(given['ss'], given['sigma'], *arrays, *given['params'].values()) | {'width'}

        def go():
            I, J = B.engine(Cfg(recursion=8, typeset=True, sym_types={x: 'num' for x in names}, hooks=[widths])), B.engine(Cfg())

            def shown(s):
                m = model(I, N, given, s)
                options = I.call(mk('func', 'spec.search:table'), [mk('tuple', const(k), v) for k, v in kw.items()], {}, s)
                return I.R(I.call(mk('func', 'spec.shown:' + f), [m] + arrays + [options], {}, s), s)
            c = B.value(I, shown)
            if isinstance(want, str):
                e = B.value(J, lambda s: J.call(mk('func', 'spec.functions:fails_' + want), [], {}, s))
                return B.compare(label, c[2], e[2])
            e = B.value(J, lambda s: NONE)
            extra = set(given['params'])
            text = c[0]
            if text is not None and (is_str(text) or text.op == 'fstr'):
                text = told(lines(text), N.all() | extra)
            B.match(label, (text,) + tuple(c[1:]), (told(want, N.all() | extra),) + tuple(e[1:]), raises=True, alive=True)
        B.guard(label, go)

    def words(*xs):
        return [const(x) if isinstance(x, str) else x for x in xs]

    def table(columns, rows, digits, labels=()):
        return [words(*columns)] + [words(*(l.split() if isinstance(l, str) else l)) + [value(x, digits) for x in r] for l, r in rows]

    def spread(columns):
        return [w for c in columns for w in c.split()]

    # first-order solutions
    every = list(structures(B.tier, longest=3))
    for i, ks in enumerate(every):
        for ne in (1, 2, 3):
            if (i + ne) % 2 and len(ks) > 2:
                continue
            N = Names(ks, ne)
            g = usual(N)
            arrays = policies(ks, ne)
            if not N.states or len(ks) == 1:
                continue
            row = {v: r for r, v in enumerate(N.rule)}
            for kw, digits in (({}, 6), ({'sig': num(3)}, 3), ({'sig': num(9), 'pad': num(2)}, 9)):
                if digits != 6 and i % 5:
                    continue
                rows = [('steady', list(g['ss'].args))]
                rows += [(N.endog[j] + '(-1)', [arrays[0].args[row[v]].args[N.order.index(j)] for v in range(len(ks))]) for j in N.states]
                rows += [(e, [arrays[1].args[row[v]].args[j] for v in range(len(ks))]) for j, e in enumerate(N.stoch)]
                check('first order, %s, %d shock(s), %d digits' % (', '.join(ks), ne, digits), 'first', N, g, arrays, kw, table(N.endog, rows, digits))

    # second-order solutions, of numbers
    def number(i, small):
        return Fraction((-1) ** i * (2 * i + 3), 10 ** 9 if small else 7)

    for i, ks in enumerate(every):
        for ne in (1, 2):
            if len(ks) < 2 or len(ks) > 3 and (i + ne) % 2 or (i + ne) % 3 == 0:
                continue
            N = Names(ks, ne)
            if not N.states:
                continue
            n, nt = len(ks), len(N.states)
            row = {v: r for r, v in enumerate(N.rule)}
            for kw, digits, cut in (({}, 6, 6), ({'sig': num(3)}, 3, 3), ({'thresh': num(4)}, 6, 10)):
                if digits == 3 and i % 3 or cut == 10 and i % 4:
                    continue
                count = itertools.count(1)

                def grid(m, k):
                    cols = [[number(next(count), (c + i) % 4 == 1) for r in range(m)] for c in range(k)]
                    return mk('arr', *[mk('arr', *[num(cols[c][r]) for c in range(k)]) for r in range(m)])
                arrays = [grid(n, k) for k in (nt, ne, nt * nt, nt * ne, ne * ne)]
                arrays.append(mk('arr', *[num(number(next(count), i % 2)) for _ in range(n)]))
                g = usual(N)
                g['ss'] = mk('arr', *[num(number(next(count), False)) for _ in range(n)])

                def column(a, c):
                    return [arrays[a].args[row[v]].args[c] for v in range(n)]
                at = {j: N.order.index(j) for j in N.states}
                lag = lambda j: N.endog[j] + '(-1)'
                rows = [(lag(j), column(0, at[j])) for j in N.states] + [(e, column(1, j)) for j, e in enumerate(N.stoch)]
                rows += [('%s, %s' % (lag(a), lag(b)), column(2, at[a] * nt + at[b])) for a in N.states for b in N.states]
                rows += [('%s, %s' % (lag(a), e), column(3, at[a] * ne + j)) for a in N.states for j, e in enumerate(N.stoch)]
                rows += [('%s, %s' % (d, e), column(4, k * ne + j)) for k, d in enumerate(N.stoch) for j, e in enumerate(N.stoch)]
                rows = [r for r in rows if any(abs(x.args[1]) >= Fraction(1, 10 ** cut) for x in r[1])]
                rows = [('steady', list(g['ss'].args))] + rows + [('del2', [arrays[5].args[row[v]] for v in range(n)])]
                check('second order, %s, %d shock(s), %d digits, threshold %d' % (', '.join(ks), ne, digits, cut), 'second', N, g, arrays, kw,
                      table(N.endog, rows, digits))

    # statistics
    for n, ne in ((2, 1), (2, 2), (3, 2), (4, 3), (5, 1)):
        N = Names((['backward', 'static', 'mixed', 'forward', 'backward'])[:n], ne)
        g = usual(N)
        mean, std = [mk('arr', *[sym('%s%d' % (w, i)) for i in range(n)]) for w in ('mean', 'std')]
        corr, decomp = symbols('corr', n, n), symbols('decomp', n, ne)
        auto = mk('list', *[symbols('auto%d' % k, n, n) for k in range(8)])
        arrays = [mean, std, corr, auto, decomp]

        def of(what, p=5, d=6):
            if what == 'moments':
                return table(['mean', 'std', 'dev', 'var'], [(N.endog[i], [mean.args[i], std.args[i], square(std.args[i])]) for i in range(n)], d)
            if what == 'corr':
                return table(N.endog, [(N.endog[i], corr.args[i].args) for i in range(n)], d)
            if what == 'autocorr':
                return table(spread(['p = %d' % (k + 1) for k in range(p)]), [(N.endog[i], [auto.args[k].args[i].args[i] for k in range(p)]) for i in range(n)], d)
            return table(N.stoch, [(N.endog[i], decomp.args[i].args) for i in range(n)], d)

        ALL = ['moments', 'corr', 'autocorr', 'decomp']
        for kw, which, p, d in (
                [({}, ALL, 5, 6), ({'sig': num(2)}, ALL, 5, 2), ({'autocorr': num(2), 'sig': num(8)}, ALL, 2, 8), ({'autocorr': num(7)}, ALL, 7, 6), ({'autocorr': FALSE}, ['moments', 'corr', 'decomp'], 0, 6)] +
                [({'only': const(w)}, [w], 5, 6) for w in ALL] + [({w: FALSE}, [x for x in ALL if x != w], 5, 6) for w in ALL if w != 'autocorr'] +
                [({'only': mk('list', *map(const, ws))}, list(ws), 5, 6) for ws in itertools.combinations(ALL, 2)] +
                [({'only': mk('tuple', const('decomp'), const('moments'))}, ['decomp', 'moments'], 5, 6),
                 ({'only': const('corr'), 'corr': FALSE}, [], 5, 6), ({'corr': FALSE, 'moments': FALSE, 'pad': num(0)}, ['autocorr', 'decomp'], 5, 6)]):
            check('statistics of %d variable(s), %d shock(s): %s' % (n, ne, kw), 'statistics', N, g, arrays, kw, [l for w in which for l in of(w, p, d)])
    N = Names(['backward', 'static'], 1)
    for kw, error in (({'only': const('covariance')}, 'ValueError'), ({'only': mk('list', const('corr'), const('eigen'))}, 'ValueError'), ({'only': num(3)}, 'TypeError')):
        check('statistics: %s' % kw, 'statistics', N, usual(N), [mk('arr', sym('a'), sym('b'))] * 2 + [symbols('c', 2, 2), mk('list'), symbols('d', 2, 1)], kw, error)
        check('model: %s' % kw, 'model', N, usual(N), [], {k: const('corr') if v.op == 'const' and is_str(v) else v for k, v in kw.items()}, error)

    # models
    EIGEN = [Fraction(-1, 2), Fraction(5, 4), Fraction(0), Fraction(3), Fraction(-7, 3), Fraction(9, 10)]
    for i, ks in enumerate(every):
        if len(ks) < 2 or len(ks) > 3 and i % 3:
            continue
        for ne in (1, 2, 3):
            if (i + ne) % 3 and len(ks) > 2:
                continue
            N = Names(ks, ne)
            g = usual(N)
            g['params'] = {'alpha': sym('al'), 'b': sym('be'), 'gamma_long': num(Fraction(-3, 2))}
            e = EIGEN[i % 3:][:2 + ne]
            g['eigen'] = mk('arr', *map(num, e))
            counts = [('variables', len(ks)), ('stochastic shocks', ne), ('state vars', len(N.states)),
                      ('forward-looking vars', sum(1 in KINDS[k] for k in ks)), ('static vars', sum(k == 'static' for k in ks))]

            def of(what, d=6, params=tuple(g['params'])):
                if what == 'variables':
                    return [words('number', 'of', *(w + ':').split(), str(c)) for w, c in counts if c]
                if what == 'eigen':
                    return table(['real', 'imag', 'mod'], [('', [num(x), num(0), num(abs(x))]) for x in sorted(e, key=abs)], d)
                if what == 'stoch':
                    return table(N.stoch, [(N.stoch[j], g['sigma'].args[j].args) for j in range(ne)], d)
                return [words(p, '=', value(g['params'][p], d)) for p in params]
            ALL = ['variables', 'eigen', 'stoch', 'params']
            for kw, which, d, ps in (
                    [({}, ALL, 6, None), ({'sig': num(4)}, ALL, 4, None)] + [({w: FALSE}, [x for x in ALL if x != w], 6, None) for w in ALL] +
                    [({'only': const(w)}, [w], 6, None) for w in ALL] +
                    [({'params': mk('list', const('gamma_long'), const('alpha')), 'only': mk('list', const('params'), const('stoch'))}, ['params', 'stoch'], 6, ('gamma_long', 'alpha'))]):
                want = [l for w in which for l in (of(w, d) if ps is None or w != 'params' else of(w, d, ps))]
                check('model, %s, %d shock(s): %s' % (', '.join(ks), ne, kw), 'model', N, g, [], kw, want)


def square(x):
    return A.power(x, num(2))
