"""Arrays whose elements are written out: `arr` terms, possibly nested."""
from __future__ import annotations

import itertools

from . import arith as A
from . import terms as tm
from .terms import T, mk, num, is_num, is_const, is_str, is_bool, TRUE, FALSE, NONE, ZERO

ROWS = ('arr', 'list', 'tuple')


def rowify(t):
    return mk('arr', *t.args) if t.op in ('list', 'tuple') else t


def scalar(t):
    """Terms that stand for one number, name or truth value."""
    return is_const(t) or t.op in ('ext', 'isnan', 'sym', 'attr', 'fstr', 'get', 'poly', 'mono', 'len') or is_bool(t)


def shape(t):
    """Lengths of the axes of a rectangular array of scalars, or None."""
    if t.op not in ROWS:
        return () if scalar(t) else None
    if not t.args:
        return (0,)
    ss = {shape(x) for x in t.args}
    if len(ss) != 1:
        return None
    s = ss.pop()
    return None if s is None else (len(t.args),) + s


def shape_of(t):
    """Lengths of the axes of an array of numbers."""
    if t.op not in ROWS:
        return ()
    ss = {shape_of(x) for x in t.args}
    return (len(t.args),) + (ss.pop() if len(ss) == 1 else ('ragged',))


def flat(t):
    if t.op not in ROWS:
        return [t]
    return [y for x in t.args for y in flat(x)]


def each(f, t):
    """Elementwise; None when the array is not written out."""
    if t.op == 'arr':
        return mk('arr', *[each(f, x) if x.op in ROWS else f(x) for x in t.args])
    if t.op in ROWS:
        return mk('arr', *[each(f, x) if x.op in ROWS else f(x) for x in t.args])
    return None


def both(f, a, b):
    """Elementwise on two arrays of one shape, or an array and a scalar."""
    if a.op == 'arr' and b.op == 'arr':
        if shape(a) is None or shape(a) != shape(b):
            return None
        return _zip(f, a, b)
    if a.op == 'arr' and scalar(b) and shape(a) is not None:
        return each(lambda x: f(x, b), a)
    if b.op == 'arr' and scalar(a) and shape(b) is not None:
        return each(lambda x: f(a, x), b)
    return None


def _zip(f, a, b):
    return mk('arr', *[_zip(f, x, y) if x.op in ROWS else f(x, y) for x, y in zip(a.args, b.args)])


def nan(t):
    if t.op == 'ext':
        return TRUE if t.args[0] in ('numpy.nan', 'math.nan', 'numpy.NaN') else None
    if is_num(t) or is_str(t):
        return FALSE
    if t.op == 'arr':
        return each(lambda x: nan(x) or mk('isnan', x), t)
    return None


def truth(m):
    """The elements of a mask of known truth values, or None."""
    return all(x is TRUE or x is FALSE for x in flat(m))


def select(b, m):
    """b[m] for a mask m of the shape of (the leading axes of) b."""
    if m.op not in ROWS:
        return None
    if not truth(m) or len(b.args) != len(m.args):
        return None
    out = []
    for x, y in zip(b.args, m.args):
        if y.op in ROWS:
            if x.op not in ROWS or len(x.args) != len(y.args):
                return None
            r = select(x, y)
            if r is None:
                return None
            out.extend(r.args)
        elif y is TRUE:
            out.append(x)
    return mk('arr', *out)


def _int(i):
    return is_num(i) and i.args[1].denominator == 1


NEW = mk('ext', 'numpy.newaxis')


def _whole(i):
    return i.op == 'slice' and all(x is NONE for x in i.args)


def pick(b, i):
    """b[i], or None when that is not known."""
    n = len(b.args)
    if n and all(scalar(x) for x in b.args):
        # new axes of a vector
        ix = list(i.args) if i.op == 'tuple' else [i]
        if ix == [NEW] or len(ix) == 2 and ix[0] is NEW and _whole(ix[1]):
            return mk('arr', mk('arr', *b.args))
        if len(ix) == 2 and ix[1] is NEW and _whole(ix[0]):
            return mk('arr', *[mk('arr', x) for x in b.args])
    if _int(i):
        k = int(i.args[1])
        return rowify(b.args[k]) if -n <= k < n else None
    if i.op == 'slice' and all(x is NONE or _int(x) for x in i.args):
        s = slice(*[None if x is NONE else int(x.args[1]) for x in i.args])
        return mk('arr', *b.args[s])
    if i.op == 'mask' and i.args and i.args[0].op in ROWS:
        i = i.args[0]
    if i.op == 'arr' and not i.args:
        return i
    if i.op in ('arr', 'list') and i.args:
        if all(x is TRUE or x is FALSE for x in flat(i)):
            return select(b, i)
        if all(_int(x) for x in i.args):
            ks = [int(x.args[1]) for x in i.args]
            if all(-n <= k < n for k in ks):
                return mk('arr', *[b.args[k] for k in ks])
        return None
    if i.op == 'tuple' and i.args:
        if len(i.args) == 1:
            return pick(b, i.args[0])
        ps = _points(i)
        if ps is not None:
            rs = [pick(b, p) for p in ps]
            return None if any(r is None for r in rs) else mk('arr', *rs)
        h, rest = i.args[0], mk('tuple', *i.args[1:])
        s = shape(b)
        if s is None or len(s) < len(i.args):
            return None
        if _int(h):
            r = pick(b, h)
            return None if r is None or r.op != 'arr' else pick(r, rest)
        if h.op == 'slice' or h.op in ('arr', 'list'):
            sub = pick(b, h)
            if sub is None:
                return None
            if h.op != 'slice' and any(x.op != 'slice' and not _int(x) for x in rest.args):
                return None
            rows = [pick(rowify(x), rest) for x in sub.args]
            return None if any(r is None for r in rows) else mk('arr', *rows)
    return None


def tile(a, reps):
    """numpy.tile of a vector into rows."""
    s = shape(a)
    if s is None:
        return None
    if _int(reps):
        reps = mk('tuple', reps)
    if reps.op != 'tuple' or not all(_int(x) for x in reps.args):
        return None
    ks = [int(x.args[1]) for x in reps.args]
    if len(s) != 1 or len(ks) > 2:
        return None
    row = mk('arr', *(a.args * ks[-1]))
    return row if len(ks) == 1 else mk('arr', *[row] * ks[0])


def fold(f, a, axis):
    """Reduction of all elements (axis None), or along an axis."""
    s = shape(a)
    if s is None or not s:
        return None
    if axis is None:
        return f(flat(a))
    if axis < 0:
        axis += len(s)
    if len(s) == 1 and axis == 0:
        return f(list(a.args))
    if len(s) != 2:
        return None
    if axis == 1:
        return mk('arr', *[f(list(r.args)) for r in a.args])
    return mk('arr', *[f([r.args[j] for r in a.args]) for j in range(s[1])])


def _points(i):
    """The positions of an index of numbers and lists of numbers, if there is a list."""
    ls = [x for x in i.args if x.op in ('arr', 'list') and x.args and all(_int(y) for y in x.args)]
    if not ls or any(x not in ls and not _int(x) for x in i.args):
        return None
    n = max(len(x.args) for x in ls)
    if any(len(x.args) not in (1, n) for x in ls):
        return None
    return [mk('tuple', *[x if _int(x) else x.args[k % len(x.args)] for x in i.args]) for k in range(n)]


def zeros(dims, v=ZERO):
    """A written-out array of equal numbers, or None if it is large."""
    if not dims or len(dims) > 2 or not all(_int(d) and 0 < d.args[1] <= 8 for d in dims):
        return None
    r = v
    for d in reversed(dims):
        r = mk('arr', *[r] * int(d.args[1]))
    return r


def fill(a, m, vs):
    """a with the elements where the mask holds replaced, one after the other; None if they do not fit."""
    out = []
    for x, y in zip(a.args, m.args):
        if y.op in ROWS:
            if x.op not in ROWS or len(x.args) != len(y.args):
                return None
            x = fill(x, y, vs)
            if x is None:
                return None
        elif y is TRUE:
            if x.op in ROWS or not vs:
                return None
            x = vs.pop(0)
        out.append(x)
    return mk('arr', *out)


def numbered(a, count):
    return mk('arr', *[numbered(x, count) for x in a.args]) if a.op in ROWS else num(next(count))


def spread(v, s):
    """The values that an array of shape s gets from v, in order; None if it does not fit."""
    k = 1
    for d in s:
        k *= d
    if v.op not in ROWS:
        return [v] * k if scalar(v) else None
    t = shape(v)
    if t is None or len(t) > len(s):
        return None
    if t == s:
        return flat(v)
    if s and t == s[1:]:
        return flat(v) * s[0]
    if len(s) == len(t) == 2 and t[1] == 1 and t[0] == s[0]:
        return [x for x in flat(v) for _ in range(s[1])]
    return None


def place(a, i, v):
    """a with what the index selects replaced by the values of v, or None."""
    s = shape(a)
    if s is None or 0 in s:
        return None
    sel = pick(numbered(a, itertools.count()), i)
    if sel is None:
        return None
    if sel.op not in ROWS:
        return None
    ks = [int(x.args[1]) for x in flat(sel)]
    if not ks and not flat(v):
        return a
    vs = spread(v, shape_of(sel))
    if vs is None or len(vs) != len(ks):
        return None
    new = flat(a)
    for k, x in zip(ks, vs):
        new[k] = x
    it = iter(new)

    def again(x):
        return mk('arr', *[again(y) for y in x.args]) if x.op in ROWS else next(it)
    return again(a)


def put(a, i, v):
    """a with the element or row i replaced, or None."""
    n = len(a.args)
    if i.op == 'slice' or i.op == 'tuple' and any(x.op == 'slice' for x in i.args):
        return place(a, i, v)
    m = i.args[0] if i.op == 'mask' and i.args and i.args[0].op in ROWS else i
    if m.op in ('arr', 'list') and m.args and truth(m) and len(m.args) == n:
        if v.op == 'range' and all(_int(x) for x in v.args):
            v = mk('arr', *[num(k) for k in range(*[int(x.args[1]) for x in v.args])])
        k = sum(1 for x in flat(m) if x is TRUE)
        vs = [v] * k if v.op not in ROWS else list(v.args) if len(v.args) == k and all(scalar(x) for x in v.args) else None
        return None if vs is None else fill(a, m, vs)
    if i.op == 'tuple':
        ps = _points(i)
        if ps is not None:
            if v.op in ROWS and len(v.args) not in (1, len(ps)):
                return None
            for k, p in enumerate(ps):
                a = put(a, p, v.args[k % len(v.args)] if v.op in ROWS else v)
                if a is None:
                    return None
            return a
    if _int(i):
        k = int(i.args[1])
        if not -n <= k < n:
            return None
        old = a.args[k]
        if old.op in ROWS and v.op not in ROWS:
            return None
        args = list(a.args)
        args[k] = v
        return mk('arr', *args)
    if i.op == 'tuple' and len(i.args) == 2 and all(_int(x) for x in i.args):
        k = int(i.args[0].args[1])
        if not -n <= k < n or a.args[k].op not in ROWS:
            return None
        row = put(rowify(a.args[k]), i.args[1], v)
        if row is None:
            return None
        args = list(a.args)
        args[k] = row
        return mk('arr', *args)
    return None
