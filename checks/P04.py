"""Texts are split into the tokens of the language."""
import itertools
from sa import arith as A
from sa.interp import Cfg
from sa.terms import mk, const, num, sym, T, is_str
from checks.P02 import World, Grammar, meaning, FUNCTIONS
from checks.P03 import classes, rejected

MINIMUM = 1200
SIGNS = set(', ; : # ( ) [ ] { } & | @ ! ~ % \\ + - * / ^ = < > . \' " _'.split())
TWO = ('<=', '>=', '==')
KEYWORDS = {'dynare': set(('var varexo varexo_det parameters model end initval endval histval shocks periods values corr stderr '
                           'steady check predetermined_variables stoch_simul').split())}
CLASSES = {'L': 'letter', 'D': 'digit', 'S': 'space', '?': 'sign'}


class Malformed(Exception):
    pass


class Unspecified(Exception):
    pass


def chars(pattern):
    """Characters of a text: L, D, S, ? stand for any letter, digit, blank, other character, X for any that ends nothing, \\ quotes."""
    out, i = [], 0
    while i < len(pattern):
        c = pattern[i]
        if c == '`':
            i += 1
            out.append(const(pattern[i]))
        elif c in CLASSES:
            out.append(mk('char', CLASSES[c], i, ''.join(sorted(SIGNS)) if c == '?' else ''))
        elif c == 'X':
            out.append(mk('char', 'any', i, '\n*/\'"'))
        else:
            out.append(const(c))
        i += 1
    return out


def kind(c):
    if c.op == 'char':
        return c.args[0]
    x = c.args[1]
    return 'newline' if x == '\n' else 'space' if x.isspace() else 'digit' if x in '0123456789' else 'letter' if x.isalpha() else x if x in SIGNS else 'sign'


def tokens(cs, language):
    """The reference: the tokens of a sequence of characters."""
    ks = [kind(c) for c in cs] + [None, None]
    i, line, out = 0, 1, []
    keywords = KEYWORDS.get(language, ())
    while i < len(cs):
        k = ks[i]
        if k == 'newline':
            line += 1
            i += 1
        elif k == 'space':
            i += 1
        elif language == 'dynare' and (k == '%' or k == ks[i + 1] == '/'):
            while i < len(cs) and ks[i] != 'newline':
                i += 1
        elif language == 'dynare' and k == '/' and ks[i + 1] == '*':
            i += 2
            while not (ks[i] == '*' and ks[i + 1] == '/'):
                if i >= len(cs):
                    raise Malformed('comment without an end')
                line += ks[i] == 'newline'
                i += 1
            i += 2
        elif k == 'letter' or k == '_' and language != 'dynare':
            j = i
            while ks[j] in ('letter', 'digit', '_'):
                j += 1
            w = A.strcat(*cs[i:j])
            x = w.args[1] if is_str(w) else None
            out.append(('keyword' if x in keywords else 'function' if x in FUNCTIONS else 'word', w, line))
            i = j
        elif k in ('digit', '.'):
            j = i
            while ks[j] in ('digit', '.'):
                j += 1
            if 'digit' not in ks[i:j]:
                raise Unspecified('a full stop')
            if ks[i:j].count('.') > 1:
                raise Malformed('two decimal points')
            out.append(('number', A.strcat(*cs[i:j]), line))
            i = j
        elif k in ('"', "'"):
            j = i + 1
            while ks[j] != k:
                if j >= len(cs):
                    raise Malformed('text without an end')
                if ks[j] == 'newline':
                    raise Unspecified('text over two lines')
                j += 1
            out.append(('string', A.strcat(*cs[i + 1:j]), line))
            i = j + 1
        elif k == '^' and language != 'python':
            out.append(('sign', const('**'), line))
            i += 1
        elif k == '*' and ks[i + 1] == '*' and language == 'python':
            out.append(('sign', const('**'), line))
            i += 2
        elif k in ('sign', '_', '^', 'any'):
            raise Malformed('unknown character')
        elif k + str(ks[i + 1]) in TWO:
            out.append(('sign', const(k + ks[i + 1]), line))
            i += 2
        else:
            out.append(('sign', const(k), line))
            i += 1
    return out


SHORT = list("LDS\n._'\"=<>/*%+^;?")
THREE = list("LDS\n.\"=</*%?")
ALL = sorted(SIGNS) + ['L', 'D', 'S', '\n', '?']
WORDS = ('var', 'vars', 'va', 'varexo', 'varexo_det', 'varexo_', 'parameters', 'model', 'models', 'end', 'ends', 'initval', 'shocks', 'stderr', 'corr', 'exp', 'expo',
         'ex', 'log', 'log10', 'log1', 'ln', 'sqrt', 'normcdf', 'x', 'e', 'x1', 'x_1', 'alpha', 'Var', 'VAR', 'Exp', 'var_x', 'endo', 'e1', 'xvar', 'my_exp')
LONGER = (
    'LLL', 'LDLD', 'L_D_L', 'LL_', 'DDDD', 'DD.DD', '.DDD', 'DDD.', 'D.D.D', 'D..D', '..D', 'L.D', 'D.L', 'DL', 'L(-D)', 'L(+D)', 'L=D*L+.D;', 'L==D', 'L===D', 'L<=D', 'L<==D', 'L>=D',
    'L<>D', 'L=<D', 'L=>D', 'L= =D', 'L< =D', 'L**D', 'L***D', 'L^D^L', 'L* *D', '%XX\nL', 'L%XX\n%XX\nL', 'L%XX', '%', '%\n', 'L//XX\nD', '//\nL', '//XX', 'L/ /D', 'L/D/D',
    '/*XX*/L', '/*X\nX*/L', 'L/*XX*/D', 'L/**/D', '/***/L', '/****/L', '/*/L', '/*/*/L', '/*X*', '/*X', '/*', '/* * / */L', '/*X*X*/L', '/*XX*/%XX\nL', '%XX\n/*XX*/L', '/*X*//*X*/L',
    '/*\n\n*/L\nL', '%/*X\nL', '//*X\nL', '/*%X*/L', '/*//X*/L', 'L/*X*//D', '"%X"L', '"//X"L', '"/`*X"L', '%"X\nL', "'XX'", '"XX"', '"X`\'X"', "'X\"X'", '"XX', "'XX\"", '""', "''", '""L', '"X""X"',
    "L'X'L", 'SSL', 'LSSD', '\nL\n\nD\n', 'L\nL\nL', 'SLS', 'S\nSL', 'L;\n', '#L=D;', '[L="XX"]', '[L=\'XX\',L]', '{L}', 'L,L', 'L:D', 'L&D|L', '@!~', 'L\\D', '?L', 'L?', 'L ? L', 'L\n?', '%?\nL',
    '"?"', '/*?*/L', 'LDS?', '_L', 'L+_L', '__', '%XX\n%XX\n%XX\nL\nL', '\n\n"XX"\nL', 'L%XX\n=%XX\nD%XX\n;', '\tL\tD', 'L\r\nD', '%X\r\nL', 'L`S', 'L`L', '+-*/', '()[]{}', '<<', '>>', '><',
)


def texts():
    seen = set()
    for p in [''.join(x) for n in (1, 2) for x in itertools.product(SHORT, repeat=n)] + ALL + [a + 'L' for a in ALL] + ['L' + a for a in ALL] + \
            [''.join(x) for x in itertools.product(THREE, repeat=3)] + list(LONGER):
        if p not in seen:
            seen.add(p)
            yield p
    for w in ('var', 'end', 'exp', 'log', 'x'):
        for t in ('%s\n%s', '%s\n%s\n', '\n%s;%s', '%s%%X\n\n%s', 'L\n%s L\n%s'):
            yield t % (w, w)
    for w in WORDS:
        for l, r in (('', ''), ('S', ';'), ('\n', ' '), ('(', '\n'), ('D', '+'), ('', 'L'), ('', 'D'), ('L', ''), ('%X\n', '/*X*/')):
            if w + r != 'log1D':
                yield l + ''.join('`' + c if c in CLASSES or c == 'X' else c for c in w) + r


def run(B):
    B.defer = True
    B.rule = ('the lexers are interpreted on texts whose characters are only known by their class (any letter, any digit, any blank, any other sign), for every short '
              'sequence of classes; the tokens must be those of the reference reading, with the line each stands in.')
    B.anchor('pynare.parsing.lexer:DynareLexer')
    B.anchor('pynare.parsing.lexer:BaseLexer')
    W = World(B)

    def cfg():
        return Cfg(recursion=8, inline_depth=60, unroll=200)

    def obligation(p, language):
        label = '%s: %s' % (language, repr(p)[1:-1])
        cs = chars(p)

        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            try:
                ts = tokens(cs, language)
            except Unspecified:
                return B.ok(label, 'unspecified')
            except Malformed:
                ts = None
            n = num(len(cs) if ts is None else len(ts) + 1)
            c = B.value(I, lambda s: I.call(mk('func', 'spec.lexing:' + language), [A.strcat(*cs), n], {}, s))
            if ts is None:
                return rejected(B, label, c)

            def expected(s):
                r = mk('list', *[J.call(mk('func', 'spec.lexing:' + k), [v, num(l)], {}, s) for k, v, l in ts])
                return J.call(mk('func', 'spec.lexing:ended'), [r], {}, s)
            B.match(label, c, B.value(J, expected), raises=True)
        B.guard(label, go)

    for p in texts():
        obligation(p, 'dynare')
        if 'X' not in p and (len(p) != 3 or p in LONGER):
            obligation(p, 'standard')
    for p in ('*', '**', '***', '****', 'L**D', 'L*D', 'L* *D', '^', 'L^D', 'L**-D', '2**L**D', '*L*', 'L*', 'L**', '/*', '//', '%', '_L', 'exp(L)', '-L**D', '==', '<=', 'L\n**D'):
        obligation(p, 'python')

    # from the text to the value of an expression
    for text, exp in (('A+B*C', None), ('A^B*C', None), ('A^B*C', 'standard'), ('A**B*C', 'python'), ('-A**B', 'python'), (' A - B - C', None), ('A*(B+C)\n', None),
                      ('exp(A)/B', None), ('exp(-A**B)', 'python'), ('log(A) + 2*B', 'standard'), ('A+%d' % 10, None), ('AB+A_1*B2', None), ('A\n+\nB', None), ('.5*A+2.', None)):
        def go():
            names = ('A', 'B', 'C', 'AB', 'A_1', 'B2')
            env = {n: sym('value of ' + n) for n in names}
            c0 = Cfg(recursion=30, inline_depth=150, unroll=400, sym_types={'value of ' + n: 'num' for n in names})
            I, J = B.engine(c0), B.engine(c0)
            f, more = ('default_expression', []) if exp is None else ('expression', [const(exp)])
            c = B.value(I, lambda s: I.call(mk('func', 'spec.lexing:' + f), [const(text)] + more + [W.table(I, env, s)], {}, s))
            out = []
            for k, v, l in tokens(chars(''.join('`' + x if x in CLASSES else x for x in text)), exp or 'standard'):
                x = v.args[1]
                out.append(float(x) if k == 'number' else '^' if x == '**' else x)
            B.match('%s expression: %s' % (exp or 'default', text), c, B.value(J, lambda s: meaning(J, Grammar(out).comparison(), env, s)), raises=True)
        B.guard('expression ' + text, go)
    for bad in ('', 'other', 'standard ', 'PYTHON'):
        def go():
            I = B.engine(cfg())
            c = B.value(I, lambda s: I.call(mk('func', 'spec.lexing:expression'), [const('A'), const(bad), mk('dict', const('A'), num(1))], {}, s))
            rejected(B, 'manner of exponents %r' % bad, c)
        B.guard('manner ' + bad, go)
