"""Files that follow the grammar, and break the other rules of a model."""
from sa.terms import mk
from checks.P02 import Texts, Malformed
from checks.P03 import classes, rejected
from checks.P10 import File, FILES, PLAIN, Unspecified, IllFormed, is_name, words, show, cfg
from sa.terms import show as term

MINIMUM = 900
BASES = ('one of each', 'plain', 'definitions through others', 'local variables', 'local variables between equations', 'all types', 'all boundaries',
         'covariance', 'correlation', 'standard errors', 'deep leads and lags', 'no right side')
# the errors that the library raises on purpose for what is wrong with a file
PURPOSE = {'NameError', 'TypeError'}


def variants():
    seen = set()

    def new(label, items):
        k = show(items)
        if k not in seen:
            seen.add(k)
            return [(label, items)]
        return []

    for base in BASES:
        items = words(FILES[base])
        f = File(items)
        own = [n for t, n in f.declared]
        model = items.index('model')
        for i, x in enumerate(items):
            if is_name(x) if isinstance(x, str) else False:
                for y in own + [s[1] for s in f.statements if s[0] == 'local'] + ['zz']:
                    if y != x:
                        yield from new('%s, %s for %s' % (base, y, x), items[:i] + [y] + items[i + 1:])
                if i > model and items[i + 1] != '(':
                    yield from new('%s, lag of %s' % (base, x), items[:i + 1] + words('( - 1 )') + items[i + 1:])
                    yield from new('%s, lead of %s' % (base, x), items[:i + 1] + words('( + 1 )') + items[i + 1:])
            if isinstance(x, str) and x in ('var', 'varexo', 'parameters') and i < model:
                for y in own:
                    yield from new('%s, %s declared again' % (base, y), items[:i + 1] + [y] + items[i + 1:])
            if x == ';' and i < model:
                for t in ('var', 'varexo', 'varexo_det', 'parameters'):
                    for y in own[:2] + own[-1:]:
                        yield from new('%s, %s %s' % (base, t, y), items[:i + 1] + [t, y, ';'] + items[i + 1:])
                for y in own:
                    yield from new('%s, value of %s' % (base, y), items[:i + 1] + words(y + ' = 2 ;') + items[i + 1:])
        # a declaration missing
        for i, x in enumerate(items[:model]):
            if isinstance(x, str) and is_name(x) and items[i + 1] != '=' and items[:i].count('=') == 0:
                yield from new('%s, %s not declared' % (base, x), items[:i] + items[i + 1:])


def run(B):
    B.defer = True
    B.rule = ('every file that is one name away from a well-formed one is read; it must be rejected on purpose where a name is not declared, or declared twice, or '
              'used as what it is not, and otherwise mean what the grammar says.')
    B.anchor('pynare.parsing.api:read_model')
    B.anchor('pynare.core.model:Model.from_outline')
    W = Texts(B)
    fine = 0
    for label, items in variants():
        try:
            f = File(items)
            f.check()
            wrong = None
            fine += 1
            if B.tier != 'thorough' and fine % 3:
                continue
        except (Unspecified, Malformed):
            continue
        except IllFormed as e:
            wrong = str(e)

        def go():
            v = {} if wrong else f.scope()
            I = B.engine(cfg(W, v))
            c = B.value(I, lambda s: I.call(mk('func', 'spec.tokens:description'), [W.text(items), W.table(I, v, s)], {}, s))
            if not wrong:
                J = B.engine(cfg(W, v))
                return B.match(label + ': well-formed', c, B.value(J, lambda s: f.means(J, s)), raises=True)
            name = '%s: %s' % (label, wrong)
            if c[0] is None and 'value' not in wrong and None not in classes(c[2]) and not classes(c[2]) <= PURPOSE:
                return B.bad(name, 'ends in %s' % term(c[2], 4))
            rejected(B, name, c)
        B.guard(label, go)
