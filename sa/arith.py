"""Arithmetic normal form: polynomials over atoms, matrix chains."""
from __future__ import annotations

import re
from fractions import Fraction

from .terms import (T, mk, num, const, is_num, is_const, is_str, val, ZERO, ONE, TRUE, FALSE,
                    lift, lift_lazy, ite, not_, is_bool, builder, Budget, app, UNDEF,
                    Unsupported, NONE, BOOLEAN_OPS, show)

MAXMONO = 400

# set by the interpreter configuration
CFG = {
    'scalar': lambda t: False,     # known to be a scalar
    'int': lambda t: False,        # known to be an integer
    'sym': lambda t: False,        # known to be a symmetric matrix
    'seq': lambda t: False,        # known to be a sequence (plus is concatenation)
    'vec': lambda t: False,        # known one-dimensional
}


# --------------------------------------------------------- polynomials

_pcache: dict = {}


def poly(t):
    """Term -> {monomial: coefficient}, monomial = ((atom, exp), ...)"""
    r = _pcache.get(t)
    if r is not None:
        return r
    if is_num(t):
        c = t.args[1]
        r = {(): c} if c != 0 else {}
    elif t is TRUE:
        r = {(): Fraction(1)}
    elif t is FALSE:
        r = {}
    elif t.op == 'poly':
        r = {}
        for m in t.args:
            c, key = _mono(m)
            r[key] = c
    elif t.op == 'mono':
        c, key = _mono(t)
        r = {key: c}
    else:
        r = {((t, Fraction(1)),): Fraction(1)}
    _pcache[t] = r
    return r


def _mono(m):
    if m.op != 'mono':
        if is_num(m):
            return m.args[1], ()
        return Fraction(1), ((m, Fraction(1)),)
    a = m.args
    return a[0], tuple((a[i], a[i + 1]) for i in range(1, len(a), 2))


def _mkmono(key, c):
    if not key:
        return num(c)
    if c == 1 and len(key) == 1 and key[0][1] == 1:
        return key[0][0]
    flat = [c]
    for a, e in key:
        flat.append(a)
        flat.append(e)
    return mk('mono', *flat)


def _mkey(key):
    return tuple((a.key, e) for a, e in key)


def unpoly(d):
    items = [(k, c) for k, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) > MAXMONO:
        raise Budget('polynomial size')
    if len(items) == 1:
        return _mkmono(*items[0])
    items.sort(key=lambda kc: (0 if not kc[0] else 1, len(kc[0]), _mkey(kc[0])))
    return mk('poly', *[_mkmono(k, c) for k, c in items])


def split_const(p):
    d = poly(p)
    c = d.get((), Fraction(0))
    if c == 0:
        return p, c
    e = {k: v for k, v in d.items() if k}
    return unpoly(e), c


def _seqlike(t):
    return t.op in ('list', 'tuple', 'concat', 'append', 'cat') or is_str(t) or CFG['seq'](t)


def add(a, b):
    return lift_lazy(_add, a, b)


def _add(a, b):
    if _strlike(a) or _strlike(b):
        return strcat(a, b)
    if _seqlike(a) or _seqlike(b):
        return concat(a, b)
    d = dict(poly(a))
    for k, c in poly(b).items():
        d[k] = d.get(k, 0) + c
    return unpoly(d)


def neg(a):
    return lift_lazy(lambda x: unpoly({k: -c for k, c in poly(x).items()}), a)


def sub(a, b):
    def f(x, y):
        d = dict(poly(x))
        for k, c in poly(y).items():
            d[k] = d.get(k, 0) - c
        return unpoly(d)
    return lift_lazy(f, a, b)


def scale(c, a):
    return unpoly({k: c * v for k, v in poly(a).items()})


def _mulmono(k1, k2):
    d = {}
    for a, e in k1:
        d[a] = e
    for a, e in k2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].key))


def mul(a, b):
    return lift_lazy(_mul, a, b)


def _mul(a, b):
    if a.op == 'list' or b.op == 'list' or is_str(a) or is_str(b):
        if a.op == 'list' or is_str(a):
            a, b = b, a
        if is_num(a) and b.op == 'list':
            return mk('list', *(b.args * int(val(a))))
        return mk('repeat', b, a)
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > MAXMONO:
        raise Budget('polynomial product')
    d = {}
    for k1, c1 in pa.items():
        for k2, c2 in pb.items():
            k = _mulmono(k1, k2)
            d[k] = d.get(k, 0) + c1 * c2
    return unpoly(d)


def div(a, b):
    return lift_lazy(lambda x, y: _mul(x, _power(y, Fraction(-1))), a, b)


def power(a, b):
    def f(x, y):
        if is_num(y):
            return _power(x, y.args[1])
        if is_num(x) and x.args[1] == 1:
            return ONE
        return mk('pow', x, y)
    return lift_lazy(f, a, b)


def _power(x, e):
    if e == 0:
        return ONE
    if e == 1:
        return x
    d = poly(x)
    if not d:
        if e > 0:
            return ZERO
        return mk('pow', ZERO, num(e))
    if len(d) == 1:
        (k, c), = d.items()
        if e.denominator == 1:
            if abs(e) > 64 and c not in (0, 1, -1):
                return mk('pow', x, num(e))
            return unpoly({tuple((a, f * e) for a, f in k): Fraction(c) ** int(e)})
        # fractional powers: (y**2)**.5 is abs(y), keep squares apart
        if c == 1 and len(k) == 1 and not (k[0][1].denominator == 1 and k[0][1] % 2 == 0):
            return unpoly({((k[0][0], k[0][1] * e),): Fraction(1)})
        if c > 0 and not k:
            s = _root(c, e)
            if s is not None:
                return num(s)
        return unpoly({((_polyatom(x), e),): Fraction(1)})
    if e.denominator == 1 and 0 < e <= 4 and len(d) ** int(e) <= MAXMONO:
        r = x
        for _ in range(int(e) - 1):
            r = _mul(r, x)
        return r
    # normalise the leading coefficient
    if e.denominator == 1:
        c = _lead(d)
        y = unpoly({k: v / c for k, v in d.items()})
        return unpoly({((_polyatom(y), e),): Fraction(c) ** int(e)})
    return unpoly({((_polyatom(x), e),): Fraction(1)})


def _root(c, e):
    if e == Fraction(1, 2):
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Fraction(n, d)
    return None


def _polyatom(x):
    return x if x.op not in ('poly', 'mono') else mk('wrap', x)


@builder('wrap')
def _wrap(x):
    return lift_lazy(lambda y: mk('wrap', y) if y.op in ('poly', 'mono') else y, x)


def _lead(d):
    k = max(d, key=lambda k: (len(k), _mkey(k)))
    return d[k]


def _lead_cmp(d):
    # the side of a comparison is fixed by a loop counter if there is one
    ks = [k for k in d if len(k) == 1 and k[0][0].op == 'phi']
    return d[max(ks, key=_mkey)] if ks else _lead(d)


@builder('poly')
def _bpoly(*monos):
    r = ZERO
    for m in monos:
        r = add(r, m)
    return r


@builder('mono')
def _bmono(c, *rest):
    r = num(c)
    for i in range(0, len(rest), 2):
        a, e = rest[i], rest[i + 1]
        r = mul(r, lift_lazy(lambda x: _power(x if x.op != 'wrap' else x.args[0], e), a)
                if e != 1 else a)
    return r


builder('pow')(power)


def floordiv(a, b):
    def f(x, y):
        if is_num(x) and is_num(y) and y.args[1] != 0:
            return num(x.args[1] // y.args[1])
        if y is ONE and CFG['int'](x):
            return x
        return mk('floordiv', x, y)
    return lift_lazy(f, a, b)


def mod(a, b):
    def f(x, y):
        if is_str(x):
            r = _percent(x.args[1], y)
            return mk('fmt%', x, y) if r is None else r
        if is_num(x) and is_num(y) and y.args[1] != 0:
            return num(x.args[1] % y.args[1])
        return mk('mod', x, y)
    return lift_lazy(f, a, b)


_DIRECTIVE = re.compile(r'%(%|[-+ 0#]*\d*(?:\.\d+)?[sdfeg])')


def _percent(t, y):
    """`t % y` as a concatenation, for plain directives."""
    ys = list(y.args) if y.op == 'tuple' else [y]
    if y.op not in ('tuple', 'const', 'sym', 'poly', 'attr', 'fstr', 'strof', 'len'):
        return None
    out, at = [], 0
    for m in _DIRECTIVE.finditer(t):
        if '%' in t[at:m.start()]:
            return None
        out.append(const(t[at:m.start()]))
        at = m.end()
        d = m.group(1)
        if d == '%':
            out.append(const('%'))
            continue
        if not ys:
            return None
        v = ys.pop(0)
        if d == 's':
            out.append(strof(v))
        elif d[-1] in 'dfeg' and d[0] not in '-+ #':
            out.append(strof(fmt(v, const(d))))
        else:
            return None
    if ys or '%' in t[at:]:
        return None
    return _bfstr(*(out + [const(t[at:])]))


builder('floordiv')(floordiv)
builder('mod')(mod)


# ----------------------------------------------------------- sequences

def _strlike(t):
    return is_str(t) or t.op in ('fstr', 'strof', 'char')


# Characters that are only known by their class, `char(class, number, others)`: a capital or a letter of another alphabet, a decimal digit,
# blank space within a line, or any character but the ones in `others`.
_PRED = {
    'letter': {'isalpha': 1, 'isalnum': 1, 'isdigit': 0, 'isdecimal': 0, 'isnumeric': 0, 'isspace': 0, 'isidentifier': 1},
    'digit': {'isalpha': 0, 'isalnum': 1, 'isdigit': 1, 'isdecimal': 1, 'isnumeric': 1, 'isspace': 0, 'isidentifier': 0},
    'space': {'isalpha': 0, 'isalnum': 0, 'isdigit': 0, 'isdecimal': 0, 'isnumeric': 0, 'isspace': 1, 'isidentifier': 0},
    'sign': {'isalpha': 0, 'isalnum': 0, 'isdigit': 0, 'isdecimal': 0, 'isnumeric': 0, 'isspace': 0, 'isidentifier': 0},
    'any': {},
}


def letters(t):
    """The characters of a string whose length is known."""
    if is_str(t):
        return [const(c) for c in t.args[1]]
    if t.op == 'char':
        return [t]
    if t.op == 'fstr' and all(is_str(p) or p.op == 'char' for p in t.args):
        return [c for p in t.args for c in letters(p)]
    return None


def charpred(name, t):
    """The predicate of a string with characters of known class, or nothing."""
    cs = letters(t)
    if not cs:
        return None
    rs = [int(getattr(c.args[1], name)()) if is_str(c) else _PRED[c.args[0]].get(name) for c in cs]
    if name == 'isidentifier' and len(cs) > 1:
        return None
    return FALSE if 0 in rs else TRUE if None not in rs else None


def _eqchars(a, b):
    xs, ys = letters(a), letters(b)
    if xs is None or ys is None:
        return None
    if len(xs) != len(ys):
        return FALSE
    r = TRUE
    for x, y in zip(xs, ys):
        r = ite(_eqchar(x, y), r, FALSE)
    return r


def _eqchar(x, y):
    if x is y:
        return TRUE
    if is_str(x):
        x, y = y, x
    if is_str(x):
        return FALSE
    if is_str(y):
        c = y.args[1]
        k = x.args[0]
        if k == 'letter':
            no = not c.isalpha() or 'a' <= c <= 'z'
        elif k == 'digit':
            no = c not in '0123456789'
        elif k == 'space':
            no = not c.isspace() or c == '\n'
        elif k == 'sign':
            no = c.isalnum() or c.isspace() or c in x.args[2]
        else:
            no = c in x.args[2]
        return FALSE if no else mk('eq', x, y)
    if 'any' not in (x.args[0], y.args[0]) and x.args[0] != y.args[0]:
        return FALSE
    return mk('eq', *sorted((x, y), key=lambda t: t.key))


def strcat(*parts):
    out = []
    for p in parts:
        if p.op == 'fstr':
            out.extend(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == 'strof' and is_str(p.args[0]):
            p = p.args[0]
        if is_str(p) and p.args[1] == '':
            continue
        if res and is_str(p) and is_str(res[-1]):
            res[-1] = const(res[-1].args[1] + p.args[1])
        else:
            res.append(p)
    if not res:
        return const('')
    if len(res) == 1:
        return res[0]
    return mk('fstr', *res)


@builder('fstr')
def _bfstr(*parts):
    return lift_lazy(strcat, *parts)


def strof(x):
    def f(y):
        if is_str(y) or y.op in ('fstr', 'strof', 'char'):
            return y
        if is_num(y) and y.args[1].denominator == 1:
            return const(str(val(y)))
        return mk('strof', y)
    return lift_lazy(f, x)


builder('strof')(strof)


@builder('fmt')
def fmt(x, spec):
    # integers are taken to be formatted as integers only
    if is_str(spec) and spec.args[1] in ('', 'd', 's'):
        return x
    return mk('fmt', x, spec)


def concat(*parts):
    def f(*ps):
        out = []
        for p in ps:
            if p.op == 'concat':
                out.extend(p.args)
            else:
                out.append(p)
        res = []
        for p in out:
            if p.op in ('list', 'tuple') and not p.args:
                continue
            if res and p.op in ('list', 'tuple') and res[-1].op == p.op:
                res[-1] = mk(p.op, *(res[-1].args + p.args))
            else:
                res.append(p)
        if not res:
            return ps[0]
        if len(res) == 1:
            return res[0]
        return mk('concat', *res)
    return lift_lazy(f, *parts)


builder('concat')(concat)


# --------------------------------------------------------- comparisons

def _numlike(t):
    return is_num(t) or t.op in ('poly', 'mono')


_SOLID = {'ref', 'obj', 'poly', 'mono', 'fstr', 'strof', 'char', 'mm', 'concat', 'cls', 'func', 'mod', 'lam', 'len', 'dict',
          'append', 'setitem', 'wrap', 'cfun', 'bmeth', 'cat', 'arr', 'eye', 'eyerect', 'kron', 'inv', 'range', 'mask', 'T'}
_ARRAYS = {'poly', 'mono', 'mm', 'cat', 'eye', 'eyerect', 'kron', 'inv', 'mask', 'T', 'wrap'}


def _never_none(a):
    if a.op in _SOLID or (a.op == 'call' and str(a.args[0]).startswith(('numpy.', 'scipy.'))):
        return True
    while a.op in ('get', 'setitem'):
        a = a.args[0]
        if a.op in _ARRAYS or (a.op == 'call' and str(a.args[0]).startswith(('numpy.', 'scipy.'))):
            return True
    return False


def factors(t):
    """The atoms of a polynomial."""
    return [a for k in poly(t) for a, e in k]


def eq(a, b):
    return lift_lazy(_eq, a, b)


_DISTINCT = {'const', 'tuple', 'list', 'cls', 'func', 'obj'}


NANS = ('numpy.nan', 'math.nan', 'numpy.NaN')


def _figures(t):
    """A written-out array of known numbers and nan."""
    return bool(t.args) and all(is_num(x) or x.op == 'ext' and x.args[0] in NANS or x.op == 'arr' and _figures(x) for x in t.args)


def _same(t, v):
    return mk('arr', *[_same(x, v) if x.op == 'arr' else TRUE if x is v else FALSE for x in t.args])


def _eq(a, b):
    if a is b and a.op != 'arr':
        return TRUE
    if (a.op == 'arr' and is_str(b) or is_str(a) and b.op == 'arr') and all(is_str(x) for x in a.args + b.args if isinstance(x, T)):
        w, k = (a, b) if a.op == 'arr' else (b, a)
        return mk('arr', *[TRUE if x is k else FALSE for x in w.args])
    if a.op == 'arr' and is_num(b) and _figures(a):
        return _same(a, b)
    if b.op == 'arr' and is_num(a) and _figures(b):
        return _same(b, a)
    if a.op == 'ext' and a.args[0] in NANS and is_num(b) or b.op == 'ext' and b.args[0] in NANS and is_num(a):
        return FALSE
    if is_const(a) and is_const(b):
        if a.args[0] == b.args[0]:
            return FALSE
        if {a.args[0], b.args[0]} <= {'num', 'bool'}:
            return TRUE if a.args[1] == b.args[1] else FALSE
        return FALSE
    if is_bool(a) and is_bool(b):
        return ite(a, b, not_(b))
    if a.op in ('char', 'fstr') or b.op in ('char', 'fstr'):
        r = _eqchars(a, b)
        if r is not None:
            return r
        if is_num(a) or is_num(b):
            return FALSE
    if is_const(a):
        a, b = b, a
    if a.op in ('tuple', 'list') and b.op in ('tuple', 'list'):
        if a.op != b.op or len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = ite(eq(x, y), r, FALSE)
        return r
    if a.op in _DISTINCT and b.op in _DISTINCT and a.op != b.op:
        return FALSE
    if a.op in ('cls', 'func') and b.op == a.op:
        return FALSE
    if b is NONE and _never_none(a):
        return FALSE
    if is_str(b) and a.op in ('ref', 'obj', 'poly', 'mono', 'len', 'dict', 'append'):
        return FALSE
    if is_bool(a) and is_const(b):
        if b.args[0] == 'bool':
            return a if b is TRUE else not_(a)
        if b is NONE or b.args[0] == 'str':
            return FALSE
    if _numlike(a) or _numlike(b):
        if is_num(b) and not _numlike(a):
            return _eqlen(a, b)
        d = poly(sub(a, b))
        if not d:
            return TRUE
        c = d.get((), Fraction(0))
        rest = {k: v for k, v in d.items() if k}
        if not rest:
            return FALSE
        if len(rest) == 1:
            (k, v), = rest.items()
            if len(k) == 1 and k[0][1] == 1:
                return _eqlen(k[0][0], num(-c / v))
        if len(rest) == 2 and c == 0:
            (k1, v1), (k2, v2) = rest.items()
            if v1 == -v2 and len(k1) == 1 and len(k2) == 1 and k1[0][1] == 1 and k2[0][1] == 1:
                x, y = sorted((k1[0][0], k2[0][0]), key=lambda z: z.key)
                return mk('eq', x, y)
        l = _lead(d)
        return mk('eq0', unpoly({k: v / l for k, v in d.items()}))
    if is_const(b):
        return mk('eq', a, b)
    x, y = sorted((a, b), key=lambda z: z.key)
    return mk('eq', x, y)


def _eqlen(a, b):
    if a.op == 'len':
        if b is ZERO:
            return not_(mk('truth', a.args[0]))
        if b.args[1] < 0:
            return FALSE
    if is_num(b) and b.args[1].denominator != 1 and CFG['int'](a):
        return FALSE
    return mk('eq', a, b)


builder('eq')(eq)


@builder('eq0')
def _beq0(p):
    return eq(p, ZERO)


def is_int(t):
    if is_num(t):
        return t.args[1].denominator == 1
    if t.op in ('poly', 'mono'):
        for k, c in poly(t).items():
            if c.denominator != 1:
                return False
            for a, e in k:
                if e.denominator != 1 or e < 0 or not is_int(a):
                    return False
        return True
    if t.op == 'len' or t.op == 'count' or t.op == 'ndim':
        return True
    if t.op == 'phi':
        return t.args[-1] == 'i' or (len(t.args) > 1 and t.args[1] == 'i')
    return CFG['int'](t)


def lt(a, b):
    r = _each(lt, a, b)
    return lift_lazy(_lt, a, b) if r is None else r


def known(t):
    """A number, or a written array of numbers."""
    return is_num(t) or bool(infinite(t)) or t.op == 'arr' and all(known(x) for x in t.args)


def _each(f, a, b):
    """A comparison of arrays of known numbers."""
    if a.op != 'arr' and b.op != 'arr' or not known(a) or not known(b):
        return None
    if a.op == 'arr' and b.op == 'arr':
        if len(a.args) != len(b.args) or any((x.op == 'arr') != (y.op == 'arr') for x, y in zip(a.args, b.args)):
            return None
        return mk('arr', *[f(x, y) for x, y in zip(a.args, b.args)])
    return mk('arr', *[f(x, b) for x in a.args]) if a.op == 'arr' else mk('arr', *[f(a, x) for x in b.args])


def _lt(a, b):
    if is_str(a) or is_str(b) or _strlike(a) or _strlike(b):
        if is_str(a) and is_str(b):
            return TRUE if a.args[1] < b.args[1] else FALSE
        return mk('cmplt', a, b)
    i, j = infinite(a), infinite(b)
    if (i or is_num(a)) and (j or is_num(b)) and (i or j):
        return TRUE if i < j else FALSE
    return lt0(sub(a, b))


def infinite(t):
    """1 or -1 for an infinity, else 0."""
    if t.op == 'ext' and t.args[0] in ('numpy.inf', 'math.inf', 'numpy.Inf'):
        return 1
    if t.op == 'poly' or t.op == 'mul':
        d = poly(t)
        if len(d) == 1:
            (k, c), = d.items()
            if len(k) == 1 and k[0][1] == 1 and infinite(k[0][0]):
                return 1 if c > 0 else -1
    return 0


builder('cmplt')(lt)


def le(a, b):
    def f(x, y):
        if _strlike(x) or _strlike(y) or infinite(x) or infinite(y):
            return not_(_lt(y, x))
        return le0(sub(x, y))
    r = _each(le, a, b)
    return lift_lazy(f, a, b) if r is None else r


def _truthlen(p):
    """len(x) compared with zero or one is the truth of x."""
    d = poly(p)
    rest = {k: v for k, v in d.items() if k}
    if len(rest) == 1:
        (k, v), = rest.items()
        if len(k) == 1 and k[0][1] == 1 and k[0][0].op == 'len':
            return k[0][0].args[0], v, d.get((), Fraction(0))
    return None


def lt0(p):
    def f(q):
        if is_num(q):
            return TRUE if q.args[1] < 0 else FALSE
        d = poly(q)
        tl = _truthlen(q)
        if tl:
            x, v, c = tl
            # v*len + c < 0
            bound = -c / v
            if v > 0:
                if bound <= 0:
                    return FALSE
                if bound <= 1:
                    return not_(mk('truth', x))
            else:
                if bound < 0:
                    return TRUE
                if bound < 1:
                    return mk('truth', x)
        rest = {k: v for k, v in d.items() if k}
        l = _lead_cmp(rest)
        if l < 0:
            if is_int(q):
                return not_(lt0(unpoly(_plus({k: -v for k, v in d.items()}, -1))))
            s = unpoly({k: v / l for k, v in d.items()})     # s > 0
            return not_(mk('le0', s))
        if is_int(q):
            return mk('lt0', q)
        return mk('lt0', unpoly({k: v / l for k, v in d.items()}))
    return lift_lazy(f, p)


def _plus(d, c):
    d = dict(d)
    d[()] = d.get((), 0) + c
    return d


def le0(p):
    def f(q):
        if is_num(q):
            return TRUE if q.args[1] <= 0 else FALSE
        if is_int(q):
            return lt0(sub(q, ONE))
        d = poly(q)
        rest = {k: v for k, v in d.items() if k}
        l = _lead_cmp(rest)
        if l < 0:
            return not_(mk('lt0', unpoly({k: v / l for k, v in d.items()})))
        return mk('le0', unpoly({k: v / l for k, v in d.items()}))
    return lift_lazy(f, p)


builder('lt0')(lt0)
builder('le0')(le0)


def truth(t):
    def f(x):
        if is_bool(x):
            return x
        if is_const(x):
            return TRUE if x.args[1] else FALSE
        if x.op in ('list', 'tuple'):
            return TRUE if x.args else FALSE
        if x.op in ('poly', 'mono'):
            return not_(eq(x, ZERO))
        if x.op == 'len':
            return mk('truth', x.args[0])
        if x.op in ('cls', 'func', 'obj', 'ref', 'mod', 'cfun', 'bmeth', 'lam', 'append', 'setkey'):
            return TRUE
        if x.op == 'char' or x.op == 'fstr' and any(is_str(a) or a.op == 'char' for a in x.args):
            return TRUE
        return mk('truth', x)
    return lift_lazy(f, t)


builder('truth')(truth)


# ------------------------------------------------------------ matrices

def _scalar(t):
    return is_num(t) or t.op in ('len',) or CFG['scalar'](t)


def _factor(k, c):
    """monomial -> (coefficient term, chain)"""
    coef = num(c)
    rest = []
    for a, e in k:
        if _scalar(a):
            coef = _mul(coef, unpoly({((a, e),): Fraction(1)}))
        else:
            rest.append((a, e))
    if not rest:
        return coef, ()
    if len(rest) == 1 and rest[0][1] == 1:
        a = rest[0][0]
        if a.op == 'mm':
            return coef, a.args
        return coef, (a,)
    return coef, (unpoly({tuple(rest): Fraction(1)}),)


def mm(a, b):
    return lift_lazy(_mm, a, b)


def _mm(a, b):
    pa, pb = poly(a), poly(b)
    if not pa or not pb:
        return ZERO
    if len(pa) * len(pb) > MAXMONO:
        raise Budget('matrix product')
    r = {}
    for k1, c1 in pa.items():
        f1, ch1 = _factor(k1, c1)
        for k2, c2 in pb.items():
            f2, ch2 = _factor(k2, c2)
            t = _mul(_mul(f1, f2), chain(ch1 + ch2))
            for k, c in poly(t).items():
                r[k] = r.get(k, 0) + c
    return unpoly(r)


def chain(fs):
    out = []
    for f in fs:
        if f.op == 'eye':
            if len(fs) > 1:
                continue
        if out and out[-1].op == 'inv' and out[-1].args[0] is f:
            out.pop()
            continue
        if out and f.op == 'inv' and f.args[0] is out[-1]:
            out.pop()
            continue
        out.append(f)
    if not out:
        for f in fs:
            if f.op == 'eye':
                return f
        return mk('eye', mk('dimof', fs[0])) if fs else ONE
    if len(out) == 1:
        return out[0]
    return mk('mm', *out)


@builder('mm')
def _bmm(*fs):
    r = fs[0]
    for f in fs[1:]:
        r = mm(r, f)
    return r


def tr(a):
    return lift_lazy(_tr, a)


def _tr(a):
    d = poly(a)
    r = {}
    for k, c in d.items():
        nk = []
        for x, e in k:
            nk.append((_tr1(x), e))
        # re-multiply, transposition may renormalise factors
        t = num(c)
        for x, e in nk:
            t = _mul(t, _power(x, e) if e != 1 else x)
        for k2, c2 in poly(t).items():
            r[k2] = r.get(k2, 0) + c2
    return unpoly(r)


def _tr1(x):
    if _scalar(x) or CFG['sym'](x) or CFG['vec'](x) or x.op == 'eye':
        return x
    if x.op == 'tr':
        return x.args[0]
    if x.op == 'arr' and x.args and all(r.op == 'arr' and len(r.args) == len(x.args[0].args) > 0 for r in x.args) and \
            not any(e.op in ('arr', 'list', 'tuple') for r in x.args for e in r.args):
        return mk('arr', *[mk('arr', *c) for c in zip(*[r.args for r in x.args])])
    if x.op == 'mm':
        r = None
        for f in reversed(x.args):
            g = _tr(f)
            r = g if r is None else _mm(r, g)
        return r
    if x.op == 'inv':
        return inv(_tr(x.args[0]))
    if x.op == 'kron':
        return kron(_tr(x.args[0]), _tr(x.args[1]))
    if x.op == 'wrap':
        return _polyatom(_tr(x.args[0]))
    return mk('tr', x)


builder('tr')(tr)


def inv(a):
    def f(x):
        d = poly(x)
        if x.op == 'eye':
            return x
        if len(d) == 1:
            (k, c), = d.items()
            coef, ch = _factor(k, c)
            if coef is not ONE:
                return div(mk('inv', chain(ch)), coef)
            if len(ch) == 1 and ch[0].op == 'inv':
                return ch[0].args[0]
            return mk('inv', x)
        if not d:
            return mk('inv', x)
        l = _lead(d)
        return scale(1 / l, mk('inv', unpoly({k: v / l for k, v in d.items()})))
    return lift_lazy(f, a)


builder('inv')(inv)


def _linear(op, f1):
    def g(x):
        d = poly(x)
        r = {}
        for k, c in d.items():
            coef, ch = _factor(k, c)
            if not ch:
                t = f1(coef)
            else:
                t = _mul(coef, f1(chain(ch)))
            for k2, c2 in poly(t).items():
                r[k2] = r.get(k2, 0) + c2
        return unpoly(r)
    return lambda a: lift_lazy(g, a)


def kron(a, b):
    def f(x, y):
        r = {}
        for k1, c1 in poly(x).items():
            f1, ch1 = _factor(k1, c1)
            for k2, c2 in poly(y).items():
                f2, ch2 = _factor(k2, c2)
                if not ch1 or not ch2:
                    t = _mul(f1, f2)
                    if ch1:
                        t = _mul(t, chain(ch1))
                    if ch2:
                        t = _mul(t, chain(ch2))
                else:
                    t = _mul(_mul(f1, f2), mk('kron', chain(ch1), chain(ch2)))
                for k, c in poly(t).items():
                    r[k] = r.get(k, 0) + c
        return unpoly(r)
    return lift_lazy(f, a, b)


builder('kron')(kron)


def linear_op(name):
    """A unary linear operator (sum, diagonal, reshape with fixed arguments...)"""
    return None
