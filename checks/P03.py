"""Texts that are not expressions, or not model files."""
import itertools
from sa.terms import mk, show as term
from checks.P02 import Texts, Grammar, Malformed, meaning, COMPS
from checks.P10 import File, FILES, PLAIN, Unspecified, IllFormed, words, show, cfg
from sa.terms import sym

MINIMUM = 1500
ALPHABET = ['a', 2.0, '+', '*', '^', '(', ')', 'exp']
MORE = ['-', '/', '=', '<', ',', ';']

BASES = {'one of each': '; x ) = end 2 var', 'tags': '; y', 'options': '; )', 'covariance': '; u', 'local variables': '= h'}


def classes(t):
    if t.op == 'ite':
        return classes(t.args[1]) | classes(t.args[2])
    return {t.args[0]} if t.op == 'raise' else {None}


def rejected(B, label, value, where=None):
    r, pc, exc = value
    if r is None and 'Diverges' in classes(exc):
        B.bad(label, 'is read without end', where)
    elif r is None:
        B.ok(label, ', '.join(sorted(str(x) for x in classes(exc))))
    elif classes(exc) == {None}:
        B.bad(label, 'is accepted, with value %s' % term(r, 4), where)
    else:
        B.open(label, 'is rejected in some cases: %s' % term(exc, 4))


def anything(items):
    """A value for every name, so that only the form of the text can be at fault."""
    return {n + p: sym('value of ' + n + p) for n in items if isinstance(n, str) and n.isidentifier() for p in ('', 'm1', 'p1')}


def sequences():
    for n in range(1, 5):
        for xs in itertools.product(ALPHABET, repeat=n):
            yield list(xs)
    for n in (2, 3):
        for xs in itertools.product(ALPHABET[:1] + ALPHABET[2:3] + ALPHABET[5:7] + MORE, repeat=n):
            if set(xs) & set(MORE):
                yield list(xs)
    for xs in (['a', '<', 'a', '<', 'a'], ['a', '==', 'a', ')'], ['(', 'a', '<', 'a', ')'], ['exp', '(', 'a', '<', 'a', ')'], ['exp', '(', 'a', ',', 'a', ')'],
               ['a', '*', '(', 'a', '+', 'a'], ['a', '+', '(', 'a', ')', ')'], ['exp', '(', 'a', ')', 'a'], ['exp', '(', ')', '+', 'a'],
               ['(', 'a', ')', '(', 'a', ')'], ['a', '(', '+', 2.0, ')'], ['a', '+', 'a', ';', 'a'], ['a', '+', 'a', '"text"'], ['"text"', '+', 'a']):
        yield xs


def run(B):
    B.defer = True
    B.rule = ('every short sequence of tokens is read as an expression, and every sequence one token away from a model file as a model file; it must be '
              'rejected where it does not follow the grammar, and otherwise mean what the grammar says.')
    B.anchor('pynare.parsing.api:evaluate')
    B.anchor('pynare.parsing.api:read_model')
    W = Texts(B)
    env = {'a': sym('value of a')}
    def expression(xs):
        label = 'expression: ' + show(xs)

        def go():
            I, J = B.engine(cfg(W, 'a')), B.engine(cfg(W, 'a'))
            c = B.value(I, lambda s: I.call(mk('func', 'spec.tokens:value'), [W.text(xs), W.table(I, env, s)], {}, s))
            try:
                t = Grammar(xs).comparison()
            except Malformed:
                return rejected(B, label, c)
            B.match(label, c, B.value(J, lambda s: meaning(J, t, env, s)), raises=True)
        B.guard(label, go)

    def file(items):
        label = 'file: ' + show(items)
        try:
            f = File(items)
            f.check()
        except (Unspecified, IllFormed):
            return
        except Malformed:
            f = None

        def go():
            v = f.scope() if f else anything(items)
            I, J = B.engine(cfg(W, v)), B.engine(cfg(W, v))
            c = B.value(I, lambda s: I.call(mk('func', 'spec.tokens:description'), [W.text(items), W.table(I, v, s)], {}, s))
            if f is None:
                return rejected(B, label, c)
            B.match(label, c, B.value(J, lambda s: f.means(J, s)), raises=True)
        B.guard(label, go)

    for xs in sequences():
        expression(xs)
    seen = set()
    for name, inserted in BASES.items():
        base = words(FILES[name])
        for i in range(len(base) + 1):
            alt = [base[:i] + [x] + base[i:] for x in words(inserted)]
            if i < len(base):
                alt += [base[:i] + base[i + 1:], base[:i] + [base[i], base[i]] + base[i + 1:]]
            if i + 1 < len(base):
                alt += [base[:i] + [base[i + 1], base[i]] + base[i + 2:]]
            alt += [base[:i]]
            for xs in alt:
                if show(xs) not in seen:
                    seen.add(show(xs))
                    file(xs)
