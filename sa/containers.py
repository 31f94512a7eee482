"""Pure normal forms of container operations on terms."""
from __future__ import annotations

from fractions import Fraction

from . import arith as A
from . import terms as tm
from . import grids
from .terms import (T, mk, num, const, is_num, is_const, is_str, is_bool, val, TRUE, FALSE, NONE,
                    UNDEF, ZERO, ONE, ite, not_, and_, or_, lift, lift_lazy, builder, app, subst)


# ---------------------------------------------------------- loop lists

def as_map(t):
    """If `t` is a list built by appending e(i) for every i < n to the empty
    list, return (n, e, i)."""
    if t.op != 'mu' or len(t.args) != 4:
        return None
    tree, sig, init0, init1 = t.args
    if tree.op != 'ite':
        return None
    atom, hi, lo = tree.args
    for k in (0, 1):
        # phi k is the counter
        ph = _mu_phi(t, k, 'i')
        ac = _mu_phi(t, 1 - k, None)
        if ph is None or ac is None:
            continue
        if t.args[2 + k] is not ZERO or t.args[3 - k] is not EMPTY:
            continue
        if hi.op != 'next' or lo.op != 'exit' or lo.args[0] is not ac:
            continue
        nx = hi.args
        if nx[k] is not A.add(ph, ONE):
            continue
        app_ = nx[1 - k]
        if not (app_.op == 'concat' and len(app_.args) == 2 and app_.args[0] is ac
                and app_.args[1].op == 'list' and len(app_.args[1].args) == 1):
            continue
        e = app_.args[1].args[0]
        if occurs(e, ac):
            continue
        if atom.op != 'lt0':
            continue
        n = A.sub(ph, atom.args[0])
        if occurs(n, ph) or occurs(n, ac):
            continue
        return n, e, ph
    return None


EMPTY = mk('list')


def _mu_phi(t, k, kind):
    ps = tm.bound_phis(t)
    p = ps[k] if k < len(ps) else None
    if p is None:
        return None
    if kind is not None and p.args[-1] != kind:
        return None
    return p


_occ = {}


def occurs(t, x):
    k = (t, x)
    r = _occ.get(k)
    if r is None:
        stack = [t]
        seen = set()
        r = False
        while stack:
            y = stack.pop()
            if y is x:
                r = True
                break
            if y in seen:
                continue
            seen.add(y)
            stack.extend(a for a in y.args if isinstance(a, T))
        _occ[k] = r
    return r


# --------------------------------------------------------------- get

def _maskix(b, i):
    if b.op in ('list', 'tuple', 'dict', 'setkey', 'ite'):
        return i
    if i.op == 'tuple':
        if any(is_bool(x) and x.op != 'const' for x in i.args):
            return mk('tuple', *[tm.mask(x) for x in i.args])
        return i
    return tm.mask(i)


def get_term(b, i):
    return lift_lazy(_get, b, _maskix(b, i))


def _int(i):
    return is_num(i) and i.args[1].denominator == 1


def _get(b, i):
    op = b.op
    if op in ('list', 'tuple'):
        if _int(i):
            k = int(i.args[1])
            if -len(b.args) <= k < len(b.args):
                return b.args[k]
            return mk('get', b, i)
        if i.op == 'slice':
            ks = [x for x in i.args]
            if all(x is NONE or _int(x) for x in ks):
                s = slice(*[None if x is NONE else int(x.args[1]) for x in ks])
                return mk(op, *b.args[s])
    if op == 'arr':
        r = grids.pick(b, i)
        if r is not None:
            return r
    if op == 'concat' and _int(i):
        k = int(i.args[1])
        if k >= 0:
            for p in b.args:
                if p.op not in ('list', 'tuple'):
                    break
                if k < len(p.args):
                    return p.args[k]
                k -= len(p.args)
        else:
            for p in reversed(b.args):
                if p.op not in ('list', 'tuple'):
                    break
                if -k <= len(p.args):
                    return p.args[k]
                k += len(p.args)
    if op == 'dict':
        for j in range(0, len(b.args), 2):
            if b.args[j] is i:
                return b.args[j + 1]
        if is_const(i) and all(is_const(b.args[j]) for j in range(0, len(b.args), 2)):
            return mk('get', b, i)
        if b.args and len(b.args) <= 80 and all(is_const(b.args[j]) for j in range(0, len(b.args), 2)) \
                and not is_const(i):
            r = mk('get', EMPTYDICT, i)
            for j in range(len(b.args) - 2, -1, -2):
                r = ite(A.eq(i, b.args[j]), b.args[j + 1], r)
            return r
    if op == 'setkey':
        d, k, v = b.args
        e = A.eq(k, i)
        if e is TRUE:
            return v
        if e is FALSE:
            return get_term(d, i)
        return ite(e, v, get_term(d, i))
    if op == 'setitem':
        d, k, v = b.args
        if k is i and _elemindex(k):
            return v
        if _disjoint(k, i):
            return get_term(d, i)
    if (is_str(b) or op in ('char', 'fstr')) and (_int(i) or i.op == 'slice' and all(x is NONE or _int(x) for x in i.args)):
        cs = A.letters(b)
        if cs is not None:
            if i.op == 'slice':
                return A.strcat(*cs[slice(*[None if x is NONE else int(x.args[1]) for x in i.args])])
            k = int(i.args[1])
            if -len(cs) <= k < len(cs):
                return cs[k]
    if is_str(b) and _int(i):
        s = b.args[1]
        k = int(i.args[1])
        if -len(s) <= k < len(s):
            return const(s[k])
    if op == 'mu':
        m = as_map(b)
        if m is not None and i.op != 'slice' and i.op != 'tuple':
            n, e, ph = m
            if not (is_num(i) and i.args[1] < 0):
                return subst(e, {ph: i})
            if is_num(i) and i.args[1] < 0:
                return subst(e, {ph: A.add(n, i)})
    if op == 'range' and i.op not in ('slice', 'tuple'):
        a, e, s = b.args
        if is_num(i) and i.args[1] < 0:
            return A.add(e, A.mul(i, s)) if s is ONE else mk('get', b, i)
        return A.add(a, A.mul(i, s))
    if op == 'keys' or op == 'values' or op == 'items':
        d = b.args[0]
        if d.op == 'dict' and _int(i):
            k = int(i.args[1])
            ks = d.args[0::2]
            if -len(ks) <= k < len(ks):
                if op == 'keys':
                    return ks[k]
                if op == 'values':
                    return d.args[1::2][k]
                return mk('tuple', ks[k], d.args[1::2][k])
        if op == 'values' and i.op not in ('slice',):
            return get_term(d, get_term(mk('keys', d), i))
        if op == 'items' and i.op not in ('slice',):
            k = get_term(mk('keys', d), i)
            return mk('tuple', k, get_term(d, k))
    if op == 'enumerate' and i.op != 'slice':
        return mk('tuple', A.add(i, b.args[1]), get_term(b.args[0], i))
    if op == 'zip' and i.op != 'slice':
        return mk('tuple', *[get_term(x, i) for x in b.args])
    if op == 'reversed' and i.op != 'slice':
        return get_term(b.args[0], A.sub(A.sub(len_term(b.args[0]), ONE), i))
    if i.op == 'slice' and i.args == (NONE, NONE, NONE) and op != 'attr':
        return b
    if i.op == 'slice' and i.args == (NONE, NONE, NONE):
        return b
    if i.op == 'slice' and i.args == (NONE, NONE, num(-1)):
        return reversed_term(b)
    if i.op == 'tuple':
        return _get_multi(b, i)
    return _sel(b, i)


EMPTYDICT = mk('dict')
FULL = mk('slice', NONE, NONE, NONE)


def _elemindex(k):
    if k.op == 'tuple':
        return True
    return True


def _disjoint(k, i):
    if is_const(k) and is_const(i):
        return k is not i and not (is_num(k) and is_num(i) and (k.args[1] < 0) != (i.args[1] < 0))
    if k.op == 'tuple' and i.op == 'tuple' and len(k.args) == len(i.args):
        return any(_disjoint(x, y) for x, y in zip(k.args, i.args))
    return False


def _get_multi(b, i):
    """a[i, j, ...]: trailing full slices dropped, selections composed."""
    ix = list(i.args)
    while ix and (ix[-1] is FULL or ix[-1] is ELL):
        ix.pop()
    if not ix:
        return b
    if len(ix) == 1:
        return get_term(b, ix[0])
    return _sel(b, mk('tuple', *ix))


def _isnone(x):
    return x is NONE


def _sel(b, i):
    """Selection on the rows and/or columns of an array."""
    if i.op == 'tuple':
        return mk('get', b, i)
    if b.op == 'get' and b.args[1].op == 'tuple':
        # a[:, cols][rows] -> a[rows, cols] when both are one-dimensional selectors
        j = b.args[1].args
        if j[0] is FULL and len(j) == 2 and _selector(i) and _selector(j[1]) and \
                (i.op == 'slice' or j[1].op == 'slice'):
            return mk('get', b.args[0], mk('tuple', i, j[1]))
    return mk('get', b, i)


def _selector(i):
    return i.op == 'slice'


builder('get')(get_term)


def reversed_term(x):
    def f(y):
        if y.op in ('list', 'tuple'):
            return mk(y.op, *reversed(y.args))
        if y.op == 'reversed':
            return y.args[0]
        if y.op == 'range' and len_term(y) in (ZERO, ONE):
            return y
        return mk('reversed', y)
    return lift_lazy(f, x)


builder('reversed')(reversed_term)


# --------------------------------------------------------------- len

def len_term(x):
    return lift_lazy(_len, x)


LEN_ALIAS = {'f': None}


def _len(x):
    op = x.op
    if op in ('list', 'tuple', 'set', 'arr'):
        return num(len(x.args))
    if op == 'dict':
        return num(len(x.args) // 2)
    if is_str(x):
        return num(len(x.args[1]))
    if op in ('char', 'fstr'):
        cs = A.letters(x)
        if cs is not None:
            return num(len(cs))
    if op == 'concat':
        r = ZERO
        for p in x.args:
            r = A.add(r, len_term(p))
        return r
    if op in ('keys', 'values', 'items', 'reversed', 'sorted', 'enumerate'):
        return len_term(x.args[0])
    if op == 'zip':
        ls = [len_term(p) for p in x.args]
        return min_term(ls)
    if op == 'range':
        a, e, s = x.args
        if s is ONE:
            return maxzero(A.sub(e, a))
        if is_num(a) and is_num(e) and is_num(s):
            return num(len(range(int(val(a)), int(val(e)), int(val(s)))))
        if is_num(s) and s.args[1] == -1:
            return maxzero(A.sub(a, e))
        return mk('len', x)
    if op == 'mu':
        m = as_map(x)
        if m is not None:
            return m[0]
    if op == 'setitem':
        return len_term(x.args[0])
    if op == 'mm' and x.args[0].op == 'arr' and all(r.op == 'arr' for r in x.args[0].args):
        # a product has the rows of its first factor
        return num(len(x.args[0].args))
    if op == 'call' and x.args[0] in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full'):
        s = x.args[1]
        if s.op == 'tuple' and s.args:
            return s.args[0]
        if A.is_int(s):
            return s
    if op == 'get' and x.args[0].op == 'mm' and A.is_int(x.args[1]):
        # a row of a product has the columns of its last factor
        w = width(x.args[0].args[-1])
        if w is not None and x.args[0].args[0] is not x.args[0].args[-1]:
            return w
    if op == 'get' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and A.is_int(x.args[1].args[0]) and x.args[1].args[1].op in ('arr', 'list'):
        # chosen elements of one row
        if all(is_num(k) for k in x.args[1].args[1].args):
            return num(len(x.args[1].args[1].args))
    if op in ('poly', 'mono'):
        w = None
        for k, c in A.poly(x).items():
            if len(k) != 1 or k[0][1] != 1 or not known_vector(k[0][0]):
                break
            n = len_term(k[0][0])
            if w not in (None, n):
                break
            w = n
        else:
            if w is not None:
                return w
    if LEN_ALIAS['f'] is not None:
        r = LEN_ALIAS['f'](x)
        if r is not None:
            return r
    return mk('len', x)


def known_vector(x):
    if x.op == 'arr':
        return bool(x.args) and not any(r.op in ('arr', 'list', 'tuple', 'ref', 'obj') for r in x.args)
    return x.op == 'get' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and is_num(len_term(x))


def width(x):
    """The number of columns of a matrix, or None."""
    if x.op == 'arr' and x.args and all(r.op == 'arr' for r in x.args):
        return num(len(x.args[0].args))
    if x.op == 'tr' and x.args[0].op == 'arr' and all(r.op == 'arr' for r in x.args[0].args):
        return num(len(x.args[0].args))
    if x.op == 'call' and x.args[0] == 'scipy.linalg.cholesky':
        return width(x.args[1])
    return None


def maxzero(n):
    return n


builder('len')(len_term)


def min_term(ls):
    ls = sorted(set(ls), key=lambda z: z.key)
    if len(ls) == 1:
        return ls[0]
    if all(is_num(x) for x in ls):
        return min(ls, key=lambda z: z.args[1])
    return app('min', *ls)


def minmax(which, xs):
    def f(*ys):
        flat = []
        for y in ys:
            flat += list(y.args) if y.op == which else [y]
        ns = [y for y in flat if is_num(y)]
        rest = sorted({y for y in flat if not is_num(y)}, key=lambda z: z.key)
        if ns:
            rest.append((min if which == 'min' else max)(ns, key=lambda z: z.args[1]))
        if len(rest) == 1:
            return rest[0]
        return mk(which, *rest)
    return lift_lazy(f, *xs)


builder('min')(lambda *xs: minmax('min', xs))
builder('max')(lambda *xs: minmax('max', xs))


# ---------------------------------------------------------------- in



def in_term(x, c):
    return lift_lazy(_in, x, c)


def _in(x, c):
    op = c.op
    if op in ('list', 'tuple', 'set') or op == 'arr' and all(is_str(y) for y in c.args):
        r = FALSE
        for y in c.args:
            r = or_(A.eq(x, y), r)
        return r
    if op == 'dict':
        r = FALSE
        for j in range(0, len(c.args), 2):
            r = or_(A.eq(x, c.args[j]), r)
        return r
    if op == 'setkey':
        return or_(A.eq(x, c.args[1]), in_term(x, c.args[0]))
    if op == 'setadd':
        return or_(A.eq(x, c.args[1]), in_term(x, c.args[0]))
    if op == 'delkey':
        return and_(not_(A.eq(x, c.args[1])), in_term(x, c.args[0]))
    if op == 'concat':
        r = FALSE
        for p in c.args:
            r = or_(in_term(x, p), r)
        return r
    if op in ('keys', 'toset', 'sorted', 'reversed'):
        return in_term(x, c.args[0])
    if op == 'union':
        return or_(in_term(x, c.args[0]), in_term(x, c.args[1]))
    if op == 'inter':
        return and_(in_term(x, c.args[0]), in_term(x, c.args[1]))
    if op == 'setdiff':
        return and_(in_term(x, c.args[0]), not_(in_term(x, c.args[1])))
    if op == 'range' and c.args[2] is ONE:
        return and_(A.le(c.args[0], x), A.lt(x, c.args[1]))
    if is_str(c):
        if is_str(x):
            return TRUE if x.args[1] in c.args[1] else FALSE
        if x.op == 'char':
            r = FALSE
            for ch in sorted(set(c.args[1])):
                r = or_(A.eq(x, const(ch)), r)
            return r
        # set of characters: order does not matter
        return mk('in', x, c)
    if op == 'mu':
        m = as_map(c)
    return mk('in', x, c)


builder('in')(in_term)


# ---------------------------------------------------------- mutation

def setkey(d, k, v):
    """Dictionary store (or element store of a list)."""
    def f(dd, kk):
        if dd.op == 'dict':
            if is_const(kk) and all(is_const(a) for a in dd.args[0::2]):
                args = list(dd.args)
                for j in range(0, len(args), 2):
                    if args[j] is kk:
                        args[j + 1] = v
                        return mk('dict', *args)
                return mk('dict', *args, kk, v)
            if not dd.args:
                return mk('dict', kk, v)
            for j in range(0, len(dd.args), 2):
                if dd.args[j] is kk:
                    args = list(dd.args)
                    args[j + 1] = v
                    return mk('dict', *args)
            if all(A.eq(a, kk) is FALSE for a in dd.args[0::2]):
                return mk('dict', *dd.args, kk, v)
            # as chain
            r = mk('dict', *dd.args[:2])
            for j in range(2, len(dd.args), 2):
                r = mk('setkey', r, dd.args[j], dd.args[j + 1])
            return mk('setkey', r, kk, v)
        if dd.op == 'setkey':
            d0, k0, v0 = dd.args
            e = A.eq(k0, kk)
            if e is TRUE:
                return mk('setkey', d0, kk, v)
            if e is FALSE and kk.key < k0.key:
                return mk('setkey', setkey(d0, kk, v), k0, v0)
        return mk('setkey', dd, kk, v)
    return lift_lazy(f, d, k)


builder('setkey')(setkey)


@builder('dict')
def _bdict(*args):
    r = mk('dict')
    for j in range(0, len(args), 2):
        r = setkey(r, args[j], args[j + 1])
    return r


@builder('set')
def _bset(*args):
    r = []
    for a in args:
        if a not in r:
            r.append(a)
    return mk('set', *sorted(r, key=lambda z: z.key))


def delkey(d, k):
    def f(dd, kk):
        if dd.op == 'dict':
            for j in range(0, len(dd.args), 2):
                if dd.args[j] is kk:
                    return mk('dict', *(dd.args[:j] + dd.args[j + 2:]))
            if is_const(kk) and all(is_const(a) for a in dd.args[0::2]):
                return dd
        return mk('delkey', dd, kk)
    return lift_lazy(f, d, k)


builder('delkey')(delkey)


ELL = mk('const', 'ellipsis', None)


def _fresh_array(x):
    return x.op == 'call' and x.args[0] in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full')


def _adjacent(i, j):
    """1 if slice `i` ends where `j` starts, -1 the other way round."""
    for x, y, w in ((i, j, 1), (j, i, -1)):
        if x.op == y.op == 'slice' and x.args[0] is NONE and x.args[2] is NONE and y.args[1] is NONE \
                and y.args[2] is NONE and x.args[1] is y.args[0] and x.args[1] is not NONE:
            return w
    return None


def _dims(x):
    if _fresh_array(x) and len(x.args) > 1:
        s = x.args[1]
        return list(s.args) if s.op == 'tuple' else None if s.op == 'kw' else [s]
    return None


def _all_rows(x, i, v):
    """A new array of which the last row that was missing is stored."""
    rows = {int(i.args[1]): v}
    while x.op == 'setitem' and _int(x.args[1]):
        rows.setdefault(int(x.args[1].args[1]), x.args[2])
        x = x.args[0]
    dims = _dims(x)
    if not dims or not _int(dims[0]) or dims[0].args[1] > 64:
        return None
    n = int(dims[0].args[1])
    if set(rows) != set(range(n)):
        return None
    if len(dims) > 1 and any(is_const(r) for r in rows.values()):
        return None
    return mk('arr', *[rows[k] for k in range(n)])


def setitem(a, i, v):
    """Array element store."""
    i = _maskix(a, i)

    def f(x, ii):
        dims = _dims(x)
        if dims is not None:
            # a slice up to the length of the axis is the whole axis
            jx = list(ii.args) if ii.op == 'tuple' else [ii]
            if len(jx) <= len(dims):
                jx = [FULL if j.op == 'slice' and j.args[0] in (NONE, ZERO) and j.args[1] is d and j.args[2] is NONE else j
                      for j, d in zip(jx, dims)]
                ii = mk('tuple', *jx) if ii.op == 'tuple' else jx[0]
        if ii.op == 'tuple':
            ix = list(ii.args)
            while len(ix) > 1 and (ix[-1] is FULL or ix[-1] is ELL):
                ix.pop()
            if len(ix) == 1:
                ii = ix[0]
            elif len(ix) != len(ii.args):
                ii = mk('tuple', *ix)
        if x.op == 'setitem' and _fresh_array(x.args[0]):
            # two adjacent parts that fill a new array from top to bottom
            w = _adjacent(x.args[1], ii)
            if w is not None:
                a, b = x.args[2], v
                return tm.rebuild('cat', (0, a, b) if w > 0 else (0, b, a))
        if x.op == 'list' and _int(ii):
            k = int(ii.args[1])
            if -len(x.args) <= k < len(x.args):
                args = list(x.args)
                args[k] = v
                return mk('list', *args)
        if x.op == 'call' and x.args[0] == 'numpy.zeros' and ii.op == 'tuple' and dims is not None and len(dims) == len(ii.args) \
                and all(_int(y) or y.op in ('arr', 'list') and y.args and all(_int(z) for z in y.args) for y in ii.args):
            x = grids.zeros(dims) or x
        if x.op == 'call' and x.args[0] == 'numpy.full' and len(x.args) == 3 and ii.op == 'tuple' and x.args[1].op == 'tuple' and \
                len(x.args[1].args) == len(ii.args) and grids.scalar(x.args[2]) \
                and all(_int(y) or y.op in ('arr', 'list') and y.args and all(_int(z) for z in y.args) for y in ii.args):
            x = grids.zeros(x.args[1].args, x.args[2]) or x
        if x.op == 'call' and x.args[0] == 'numpy.zeros' and dims is not None and (ii.op == 'slice' or ii.op == 'tuple' and len(ii.args) <= len(dims)
                                                                                   and any(y.op == 'slice' for y in ii.args)):
            g = grids.zeros(dims)
            r = None if g is None else grids.put(g, ii, v)
            if r is not None:
                return r
        if x.op == 'arr':
            r = grids.put(x, ii, v)
            if r is not None:
                return r
        if _int(ii):
            r = _all_rows(x, ii, v)
            if r is not None:
                return r
        if ii is FULL and _fresh_array(x) and v.op in ('get', 'mm', 'cat'):
            # an array of the same shape
            return v
        if x.op == 'setitem':
            x0, i0, v0 = x.args
            if i0 is ii:
                return mk('setitem', x0, ii, v)
            if _disjoint(i0, ii) and ii.key < i0.key:
                return mk('setitem', setitem(x0, ii, v), i0, v0)
        if x.op == 'call' and x.args[0] == 'numpy.empty':
            pass
        return mk('setitem', x, ii, v)
    return lift_lazy(f, a, i)


builder('setitem')(setitem)


def dict_update(d, other):
    def f(x, y):
        if y.op == 'dict':
            r = x
            for j in range(0, len(y.args), 2):
                r = setkey(r, y.args[j], y.args[j + 1])
            return r
        if x.op == 'dict' and not x.args:
            return y
        if y.op == 'setkey':
            return setkey(dict_update(x, y.args[0]), y.args[1], y.args[2])
        return mk('dupdate', x, y)
    return lift_lazy(f, d, other)


builder('dupdate')(dict_update)


def toset(x):
    def f(y):
        if y.op in ('list', 'tuple', 'set'):
            if all(is_const(a) for a in y.args):
                return mk('set', *sorted(set(y.args), key=lambda z: z.key))
            if y.op == 'set':
                return y
            return _bset(*y.args)
        if y.op in ('toset', 'union', 'inter', 'setdiff', 'symdiff', 'setadd'):
            return y
        if y.op in ('sorted', 'keys', 'reversed'):
            return toset(y.args[0]) if y.args[0].op != 'dict' else _bset(*y.args[0].args[0::2])
        if y.op == 'dict':
            return _bset(*y.args[0::2])
        return mk('toset', y)
    return lift_lazy(f, x)


builder('toset')(toset)


def union(a, b):
    def f(x, y):
        if x.op == 'set' and y.op == 'set':
            return _bset(*(x.args + y.args))
        if x.op == 'set' and not x.args:
            return toset(y)
        if y.op == 'set' and not y.args:
            return toset(x)
        p, q = sorted((x, y), key=lambda z: z.key)
        return mk('union', p, q)
    return lift_lazy(f, a, b)


builder('union')(union)


def sorted_term(x, key=NONE, rev=FALSE):
    def f(y, k, r):
        if r is FALSE and k is NONE:
            if y.op in ('list', 'tuple', 'set') and all(is_const(a) for a in y.args):
                try:
                    return mk('list', *[const(v) for v in sorted(val(a) for a in y.args)])
                except TypeError:
                    pass
            if y.op == 'sorted' and y.args[1] is NONE and y.args[2] is FALSE:
                return y
            if y.op in ('keys', 'reversed'):
                return sorted_term(y.args[0], k, r)
        return mk('sorted', y, k, r)
    return lift_lazy(f, x, key, rev)


builder('sorted')(sorted_term)
