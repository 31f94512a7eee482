"""numpy / scipy: synonyms and algebraic normal forms."""
from __future__ import annotations

import itertools
from fractions import Fraction

from . import arith as A
from . import containers as C
from . import terms as tm
from . import grids
from .terms import (T, mk, num, const, is_num, is_const, is_str, is_bool, val, TRUE, FALSE, NONE,
                    UNDEF, ZERO, ONE, ite, not_, and_, or_, restrict, lift, lift_lazy, subst,
                    Unsupported, leaves, map_leaves, refs, app, builder)
from .callmix import call_term

# parameter names and defaults, to write calls in one way
SIGS = {
    'numpy.sum': (['a', 'axis'], {'axis': None}),
    'numpy.mean': (['a', 'axis'], {'axis': None}),
    'numpy.std': (['a', 'axis'], {'axis': None, 'ddof': 0}),
    'numpy.var': (['a', 'axis'], {'axis': None, 'ddof': 0}),
    'numpy.max': (['a', 'axis'], {'axis': None}),
    'numpy.min': (['a', 'axis'], {'axis': None}),
    'numpy.any': (['a', 'axis'], {'axis': None}),
    'numpy.all': (['a', 'axis'], {'axis': None}),
    'numpy.cumsum': (['a', 'axis'], {'axis': None}),
    'numpy.prod': (['a', 'axis'], {'axis': None}),
    'numpy.argmax': (['a', 'axis'], {'axis': None}),
    'numpy.argmin': (['a', 'axis'], {'axis': None}),
    'numpy.argsort': (['a', 'axis'], {'axis': -1, 'kind': None}),
    'numpy.sort': (['a', 'axis'], {'axis': -1}),
    'numpy.count_nonzero': (['a', 'axis'], {'axis': None}),
    'numpy.diag': (['v', 'k'], {'k': 0}),
    'numpy.isin': (['element', 'test_elements'], {}),
    'numpy.allclose': (['a', 'b', 'rtol', 'atol'], {'rtol': 1e-5, 'atol': 1e-8}),
    'numpy.isclose': (['a', 'b', 'rtol', 'atol'], {'rtol': 1e-5, 'atol': 1e-8}),
    'numpy.linalg.norm': (['x', 'ord', 'axis'], {'ord': None, 'axis': None}),
    'numpy.reshape': (['a', 'newshape', 'order'], {'order': 'C'}),
    'numpy.take': (['a', 'indices', 'axis'], {'axis': None}),
    'numpy.repeat': (['a', 'repeats', 'axis'], {'axis': None}),
    'scipy.linalg.cholesky': (['a', 'lower'], {'lower': False, 'overwrite_a': False, 'check_finite': True}),
    'numpy.linalg.qr': (['a', 'mode'], {'mode': 'reduced'}),
    'scipy.linalg.qr': (['a'], {'mode': 'full', 'pivoting': False, 'overwrite_a': False}),
    'scipy.linalg.solve_discrete_lyapunov': (['a', 'q', 'method'], {'method': None}),
    'scipy.linalg.solve_sylvester': (['a', 'b', 'q'], {}),
    'numpy.expand_dims': (['a', 'axis'], {}),
    'numpy.clip': (['a', 'a_min', 'a_max'], {}),
}


def _arg(args, kw, i, name, default=None):
    if i < len(args):
        return args[i]
    return kw.get(name, default)


class NpMixin:

    def np_table(self):
        return NP

    def np_methods(self):
        return NPM

    def V(self, t, st):
        return self.R(self.deref(restrict(t, st.pc), st), st)

    def array(self, content, st):
        r = self.new_ref('array')
        st.m[(r, '#')] = content
        return r

    def matmul(self, a, b):
        return A.mm(a, b)

    def where_term(self, c, a, b):
        if is_bool(c):
            return ite(c, a, b)
        if c.op == 'arr' and grids.truth(c) and grids.shape(c) is not None:
            s = grids.shape(c)
            x, y = grids.spread(a, s), grids.spread(b, s)
            if x is not None and y is not None:
                it = iter([u if t is TRUE else v for t, u, v in zip(grids.flat(c), x, y)])
                return grids.each(lambda _: next(it), c)
        return call_term('numpy.where', c, a, b)

    def norm_sig(self, name, args, kw):
        s = SIGS.get(name)
        if s is None or any(a.op == 'star' for a in args):
            return args, kw
        names, dflt = s
        if len(args) > len(names):
            return args, kw
        out = dict(kw)
        pos = []
        for i, a in enumerate(args):
            if names[i] in dflt or i > 0 and names[i] in ('axis',):
                out[names[i]] = a
            else:
                pos.append(a)
        # positional arguments given by keyword
        for n in names[len(pos):]:
            if n in out and n not in dflt and names.index(n) == len(pos):
                pos.append(out.pop(n))
        for n, d in dflt.items():
            if n in out and out[n] is const(d):
                del out[n]
        return pos, out

    def np_attr(self, t, name, st):
        if name == 'T':
            d = self.V(t, st)
            if d.op in ('ref', 'obj'):
                return None
            return A.tr(d)
        if name == 'shape':
            d = self.V(t, st)
            return lift_lazy(shape_of, d)
        if name == 'real' or name == 'imag':
            h = self.hint(t)
            if h is None or h in ('array', 'num'):
                return call_term('numpy.' + name, self.V(t, st))
        if name == 'size' and self.hint(t) in ('array', None):
            d = self.V(t, st)
            if d.op in ('ref', 'obj'):
                return None
            n = number_of(d)
            if n is not None:
                return n
            return self.attr_default(d, 'size')
        if name == 'itemsize':
            d = self.V(t, st)
            if d.op == 'arr' and d.args and grids.truth(d):
                return ONE
        if name in ('ndim', 'dtype', 'flat') and t.op == 'ref':
            return self.attr_default(self.V(t, st), name)
        return None


def number_of(d):
    """The number of elements of an array written out."""
    if d.op == 'arr':
        s = grids.shape(d)
        if s is not None and len(s) in (1, 2):
            return num(s[0] * s[1] if len(s) == 2 else s[0])
    return None


def shape_of(d):
    if d.op == 'call' and d.args[0] in ('numpy.zeros', 'numpy.empty', 'numpy.ones', 'numpy.full'):
        s = d.args[1]
        return s if s.op == 'tuple' else mk('tuple', s)
    if d.op == 'arr':
        s = grids.shape(d)
        if s is not None:
            return mk('tuple', *[num(k) for k in s])
    if d.op == 'setitem':
        return shape_of(d.args[0])
    if d.op == 'eye':
        return mk('tuple', d.args[0], d.args[0])
    if d.op == 'tr':
        s = shape_of(d.args[0])
        if s.op == 'tuple' and len(s.args) == 2:
            return mk('tuple', s.args[1], s.args[0])
    return mk('attr', d, 'shape')


@builder('attr')
def _battr(t, name):
    def f(x):
        if name == 'shape':
            return shape_of(x)
        if name == 'size' and number_of(x) is not None:
            return number_of(x)
        if x.op == 'obj':
            a = x.args
            for i in range(1, len(a) - 1, 2):
                if a[i] == name:
                    return a[i + 1]
        return mk('attr', x, name)
    return lift_lazy(f, t)


# len(x) is the first entry of its shape
_old_get = C._get


def _get(b, i):
    if b.op == 'attr' and b.args[1] == 'shape' and i is ZERO:
        return C.len_term(b.args[0])
    return _old_get(b, i)


C._get = _get


def _shape(I, t, st):
    s = I.V(t, st)
    if s.op == 'list':
        s = mk('tuple', *s.args)
    if s.op != 'tuple' and A.is_int(s):
        return s
    if s.op == 'tuple' and len(s.args) == 1:
        return s.args[0]
    return s


def np_fill(name):
    def f(I, args, kw, st):
        sh = _shape(I, _arg(args, kw, 0, 'shape'), st)
        t = kw.get('dtype', args[1] if len(args) > 1 and name != 'numpy.full' else None)
        if t is not None and name in ('numpy.ones', 'numpy.zeros') and I._exc_name(t).split(':')[-1].split('.')[-1] in ('bool', 'bool_'):
            dims = list(sh.args) if sh.op == 'tuple' else [sh]
            if all(is_num(d) and 0 < d.args[1] <= 64 for d in dims):
                r = TRUE if name == 'numpy.ones' else FALSE
                for d in reversed(dims):
                    r = mk('arr', *[r] * int(d.args[1]))
                return I.array(r, st)
        if name == 'numpy.full':
            v = I.V(_arg(args, kw, 1, 'fill_value'), st)
            if v is ZERO:
                return I.array(call_term('numpy.zeros', sh), st)
            if v is ONE:
                return I.array(call_term('numpy.ones', sh), st)
            return I.array(call_term('numpy.full', sh, v), st)
        return I.array(call_term(name, sh), st)
    return f


def np_like(name):
    def f(I, args, kw, st):
        sh = lift_lazy(shape_of, I.V(args[0], st))
        if sh.op == 'tuple' and len(sh.args) == 1:
            sh = sh.args[0]
        return I.array(call_term(name, sh), st)
    return f


def np_eye(I, args, kw, st):
    if set(kw) - {'dtype', 'M', 'k', 'N'} or len(args) > 3:
        return None
    if args and args[0].op == 'star' and len(args) == 1:
        # eye(*x.shape)
        sh = args[0].args[0]
        args = [I.get_item(sh, ZERO, st), I.get_item(sh, ONE, st)]
    n = I.V(_arg(args, kw, 0, 'N'), st)
    m = _arg(args, kw, 1, 'M', NONE)
    k = _arg(args, kw, 2, 'k', ZERO)
    m = n if m is NONE else I.V(m, st)
    return I.array(_eyerect(n, m, I.V(k, st)), st)


@builder('eyerect')
def _eyerect(n, m, k):
    def f(n, m, k):
        if k is ZERO and (n is m or _square(n, m)):
            return mk('eye', n)
        return mk('eyerect', n, m, k)
    return lift_lazy(f, n, m, k)


def _square(n, m):
    # an identity shaped like another matrix
    return n.op == 'len' and m.op == 'get' and m.args[1] is ONE and m.args[0].op == 'attr' \
        and m.args[0].args[1] == 'shape' and m.args[0].args[0] is n.args[0]


def is_object(I, t):
    h = I.hint(t) if t.op == 'ref' else None
    return h is not None and ':' in h


def m_view(I, d, args, kw, st):
    """A view of an array as an array class of the program."""
    if not kw and len(args) == 1 and args[0].op in ('type', 'builtin', 'ext') and args[0].args[0] in ('bool', 'builtins.bool', 'numpy.bool_'):
        t = I.V(d, st)
        return t if t.op == 'arr' and t.args and all(x is TRUE or x is FALSE for x in t.args) else None
    if kw or len(args) != 1 or args[0].op != 'cls' or 'numpy.ndarray' not in I.repo.ext_bases(args[0].args[0]):
        return None
    items = I.iter_known(d, st)
    if items is None:
        return None
    q = args[0].args[0]
    r = I.new_ref(q)
    st.m[(r, '#')] = mk('arr', *items)
    m = I.repo.member(q, '__array_finalize__')
    if m:
        I.call_func(m[1], '%s.__array_finalize__' % m[2], [r, d], {}, st, owner=m[2], selft=r)
    return r


def np_array(copy):
    def f(I, args, kw, st):
        a = restrict(args[0], st.pc)
        d = I.deref(a, st)
        items = I.iter_known(a, st) if d.op in ('list', 'tuple', 'arr') or is_object(I, a) else None
        if items and any(is_object(I, x) for x in items):
            # an array of objects holds the objects themselves
            return I.array(mk('arr', *items), st)
        t = args[1] if len(args) > 1 else kw.get('dtype')
        v = map_leaves(I.V(a, st), arr)
        if t is not None and I._exc_name(t).split(':')[-1].split('.')[-1] in ('float', 'float64'):
            v = map_leaves(v, no_missing)
        if not copy and a.op == 'ref' and I.cls_of.get(a) == 'array':
            return a
        if not copy and v is a:
            return a
        return I.array(v, st)
    return f


def no_missing(d):
    """None as a number."""
    if d.op == 'arr' and any(x is NONE for x in d.args):
        return mk('arr', *[mk('ext', 'numpy.nan') if x is NONE else x for x in d.args])
    return d


def arr(d):
    """Array with the elements of a list."""
    if d.op in ('list', 'tuple'):
        return mk('arr', *d.args)
    if d.op in ('mu', 'concat', 'keys', 'values', 'range', 'sorted'):
        return d
    return d


@builder('arr')
def _barr(*args):
    return mk('arr', *args)


def _parts(I, args, st):
    a = restrict(args[0], st.pc)
    items = I.iter_known(a, st)
    if items is None:
        return None
    return [I.V(x, st) for x in items]


def of_objects(I, args, kw, st):
    """Arrays of objects, which may be of a class of their own, one after another, as an array."""
    items = I.iter_known(restrict(args[0], st.pc), st) if len(args) == 1 and not kw else None
    if not items or any(x.op != 'ref' or 'numpy.ndarray' not in I.repo.ext_bases(I.hint(x) or '') for x in items):
        return None
    each = [I.iter_known(x, st) for x in items]
    return None if any(x is None for x in each) else I.array(mk('arr', *[y for x in each for y in x]), st)


def nothing(p, axis):
    """An array with no elements along the axis adds nothing there."""
    if p.op == 'call' and p.args[0] == 'numpy.zeros' and p.args[1].op in ('tuple', 'list') and len(p.args[1].args) > axis:
        return p.args[1].args[axis] is ZERO
    if p.op == 'arr':
        s = grids.shape(p)
        return s is not None and len(s) == 2 and s[axis] == 0
    if p.op == 'index':
        i = p.args[1]
        ix = i.args if i.op == 'tuple' else (i,)
        return len(ix) > axis and none_taken(ix[axis])
    return False


def none_taken(i):
    if i.op == 'slice':
        return i.args[0] in (NONE, ZERO) and i.args[1] is ZERO
    return i.op in ('arr', 'list') and not i.args


def cat(axis, parts):
    def f(*ps):
        out = []
        for p in ps:
            if p.op == 'cat' and p.args[0] == axis:
                out.extend(p.args[1:])
            elif p.op in ('list', 'tuple'):
                out.append(mk('arr', *p.args))
            else:
                out.append(p)
        if len(out) > 1 and axis in (0, 1):
            out = [p for p in out if not nothing(p, axis)] or out[:1]
        if len(out) == 1:
            return out[0]
        if axis in (0, 1) and all(p.op == 'arr' for p in out):
            ss = [grids.shape(p) for p in out]
            if all(x is not None and len(x) == len(ss[0]) and 0 not in x for x in ss) and len(ss[0]) in (1, 2):
                if axis == 0 and (len(ss[0]) == 1 or len({x[1] for x in ss}) == 1):
                    return mk('arr', *[y for p in out for y in p.args])
                if axis == 1 and len(ss[0]) == 2 and len({x[0] for x in ss}) == 1:
                    return mk('arr', *[mk('arr', *[y for r in rs for y in r.args]) for rs in zip(*[p.args for p in out])])
        return mk('cat', axis, *out)
    return lift_lazy(f, *parts)


@builder('cat')
def _bcat(axis, *parts):
    return cat(axis, parts)


def np_cat(axis):
    def f(I, args, kw, st):
        objects = of_objects(I, args, kw, st) if axis is None else None
        if objects is not None:
            return objects
        ps = _parts(I, args, st)
        if ps is None:
            return call_term('catseq', const(axis), I.V(I.as_list(args[0], st), st))
        ax = axis
        if ax is None:
            a = _arg(args, kw, 1, 'axis', ZERO)
            if not is_num(a):
                return None
            ax = int(val(a))
        if axis != 0 and all(_vector(p) for p in ps) and any(p.op != 'call' for p in ps):
            return mk('arr', *[y for p in ps for y in _elements(p)])
        if axis == 0:
            # rows on top of each other
            ps = [mk('arr', mk('arr', *_elements(p))) if _vector(p) and p.op != 'call' else p for p in ps]
        return cat(ax, ps)
    return f


def np_columns(I, args, kw, st):
    ps = _parts(I, args, st)
    if ps is not None and any(_vector(p) for p in ps):
        return cat(1, [A.tr(mk('arr', mk('arr', *_elements(p)))) if _vector(p) else p for p in ps])
    return np_cat(1)(I, args, kw, st)


def np_repeat(I, args, kw, st):
    if len(args) != 2 or kw:
        return None
    d, n = I.V(args[0], st), I.V(args[1], st)
    if d.op not in ('arr', 'list', 'tuple') or not all(x.op == 'const' for x in d.args) or not is_num(n) or not 0 <= n.args[1] <= 64:
        return None
    return I.array(mk('arr', *[x for x in d.args for _ in range(int(n.args[1]))]), st)


def np_cumsum(I, args, kw, st):
    d = I.V(args[0], st)
    if kw or len(args) > 1 or d.op not in ('arr', 'list', 'tuple') or not all(map(is_num, d.args)):
        return None
    return I.array(mk('arr', *[num(x) for x in itertools.accumulate(y.args[1] for y in d.args)]), st)


def np_diagonal(I, args, kw, st):
    d = I.V(args[0], st)
    if kw or len(args) > 1 or d.op != 'arr':
        return None
    s = grids.shape(d)
    if s is None or len(s) != 2:
        return None
    return I.array(mk('arr', *[d.args[i].args[i] for i in range(min(s))]), st)


def _vector(p):
    if p.op in ('arr', 'list', 'tuple'):
        s = grids.shape(p)
        return s is not None and len(s) == 1
    return _filled(p) is not None


def _filled(p):
    if p.op == 'call' and p.args[0] in ('numpy.zeros', 'numpy.ones') and len(p.args) == 2:
        n = p.args[1]
        if n.op == 'tuple' and len(n.args) == 1:
            n = n.args[0]
        if is_num(n) and n.args[1] <= 64:
            return [ZERO if p.args[0] == 'numpy.zeros' else ONE] * int(n.args[1])
    return None


def _elements(p):
    return list(p.args) if p.op != 'call' else _filled(p)


def np_tile(I, args, kw, st):
    if kw or len(args) != 2:
        return None
    a, r = I.V(args[0], st), I.V(args[1], st)
    if a.op in ('list', 'tuple'):
        a = arr(a)
    if a.op == 'range' and all(map(is_num, a.args)) and len(range(*[int(x.args[1]) for x in a.args])) == 1:
        a = mk('arr', a.args[0])
    if a.op == 'arr':
        return grids.tile(a, r)
    return None


def np_fold(f):
    def g(I, args, kw, st):
        if set(kw) - {'axis'} or len(args) > 2:
            return None
        a = I.V(args[0], st)
        if a.op in ('list', 'tuple'):
            a = arr(a)
        if a.op != 'arr' or not grids.flat(a):
            return None
        ax = kw.get('axis', args[1] if len(args) > 1 else NONE)
        if ax is not NONE and not (is_num(ax) and ax.args[1].denominator == 1):
            return None
        return grids.fold(f, a, None if ax is NONE else int(ax.args[1]))
    return g


def _total(xs):
    r = ZERO
    for x in xs:
        r = A.add(r, ONE if x is TRUE else ZERO if x is FALSE else ite(x, ONE, ZERO) if is_bool(x) else x)
    return r


def _nantotal(xs):
    return None if any(grids.nan(x) is None for x in xs) else _total([x for x in xs if grids.nan(x) is FALSE])


def _some(xs):
    r = FALSE
    for x in xs:
        r = tm.or_(r, x if is_bool(x) else not_(A.eq(x, ZERO)))
    return r


def _every(xs):
    r = TRUE
    for x in xs:
        r = tm.and_(r, x if is_bool(x) else not_(A.eq(x, ZERO)))
    return r


def np_block(I, args, kw, st):
    rows = I.iter_known(args[0], st)
    if rows is None:
        return None
    out = []
    nested = False
    for r in rows:
        d = I.deref(r, st)
        if d.op in ('list', 'tuple'):
            nested = True
            out.append(cat(1, [I.V(x, st) for x in d.args]))
        else:
            out.append(I.V(r, st))
    return cat(0 if nested else 1, out)


def unary(op):
    def f(I, args, kw, st):
        if kw:
            return None
        r = I.elementwise(op, I.V(args[0], st))
        return op(I.V(args[0], st)) if r is None else r
    return f


def binary(op):
    def f(I, args, kw, st):
        if kw or len(args) != 2:
            return None
        a, b = I.V(args[0], st), I.V(args[1], st)
        r = I.elementwise(op, a, b) if a.op == 'arr' or b.op == 'arr' else None
        return op(a, b) if r is None else r
    return f


def np_solve(I, args, kw, st):
    return A.mm(A.inv(I.V(args[0], st)), I.V(args[1], st))


def np_where(I, args, kw, st):
    if len(args) == 1:
        return mk('tuple', nz(I.V(args[0], st)))
    c = I.V(args[0], st)
    a, b = I.V(args[1], st), I.V(args[2], st)
    return I.where_term(c, a, b)


def nz(c):
    if c.op == 'arr' and c.args and all(x is TRUE or x is FALSE for x in c.args):
        return mk('arr', *[num(i) for i, x in enumerate(c.args) if x is TRUE])
    return call_term('nz', c)


def np_copy(I, args, kw, st):
    return I.array(I.V(args[0], st), st)


def np_arange(I, args, kw, st):
    if set(kw) - {'dtype'}:
        return None
    return lift_lazy(written, I.b_range(args, {}, st))


def written(r):
    """A known and short range, written out."""
    if r.op == 'range' and all(is_num(x) and x.args[1].denominator == 1 for x in r.args):
        ks = range(*[int(x.args[1]) for x in r.args])
        if 2 <= len(ks) <= 40:
            return mk('arr', *[num(k) for k in ks])
    return r


def np_unique(I, args, kw, st):
    if kw or len(args) != 1:
        return None
    d = rowed(I.V(args[0], st))
    if d.op == 'arr' and all(is_num(x) for x in d.args):
        return mk('arr', *[num(k) for k in sorted({x.args[1] for x in d.args})])
    return None


def rowed(d):
    return mk('arr', *d.args) if d.op in ('list', 'tuple') else d


def np_transpose(I, args, kw, st):
    if len(args) > 1 or kw:
        return None
    return A.tr(I.V(args[0], st))


def np_dot(I, args, kw, st):
    if kw and not (set(kw) == {'out'} and kw['out'] is NONE):
        return None
    return I.matmul(I.V(args[0], st), I.V(args[1], st))


def np_multidot(I, args, kw, st):
    ps = _parts(I, args, st)
    r = ps[0]
    for p in ps[1:]:
        r = I.matmul(r, p)
    return r


def sqrt(x):
    return A.power(x, num(Fraction(1, 2)))


def np_sqrt(I, args, kw, st):
    if kw:
        return None
    x = I.V(args[0], st)
    r = I.elementwise(sqrt, x) if x.op == 'arr' else None
    return sqrt(x) if r is None else r


def np_fn(name):
    """External function reached as a method: x.sum(...) -> numpy.sum(x, ...)"""
    def f(I, d, args, kw, st):
        return I.call_ext(name, [d] + list(args), kw, st)
    return f


def m_reshape(I, d, args, kw, st):
    if len(args) > 1:
        args = [mk('tuple', *[I.V(a, st) for a in args])]
    return I.call_ext('numpy.reshape', [d] + args, kw, st)


def np_reshape(I, args, kw, st):
    sh = _shape(I, _arg(args, kw, 1, 'newshape', kw.get('shape')), st)
    order = kw.get('order', args[2] if len(args) > 2 else const('C'))
    x = I.V(args[0], st)
    if order is const('C'):
        if x.op == 'arr' and grids.shape(x) is not None and sh in (num(-1), mk('tuple', num(-1))):
            return mk('arr', *grids.flat(x))
        if x.op == 'arr' and grids.shape(x) is not None and sh.op == 'tuple' and len(sh.args) == 2 and all(map(is_num, sh.args)):
            xs, (n, m) = grids.flat(x), [int(k.args[1]) for k in sh.args]
            n, m = len(xs) // m if n == -1 and m > 0 else n, len(xs) // n if m == -1 and n > 0 else m
            if n > 0 and m > 0 and n * m == len(xs):
                return mk('arr', *[mk('arr', *xs[i * m:i * m + m]) for i in range(n)])
        return call_term('numpy.reshape', x, sh)
    return call_term('numpy.reshape', x, sh, mk('kw', 'order', order))


def np_ravel(I, args, kw, st):
    order = kw.get('order', args[1] if len(args) > 1 else const('C'))
    x = I.V(args[0], st)
    if order is const('C'):
        if x.op == 'arr' and grids.shape(x) is not None:
            return mk('arr', *grids.flat(x))
        return call_term('numpy.reshape', x, num(-1))
    return call_term('numpy.reshape', x, num(-1), mk('kw', 'order', order))


def np_eq(I, args, kw, st):
    return A.eq(I.V(args[0], st), I.V(args[1], st))


def np_logical(isand):
    def f(I, args, kw, st):
        return I.bitop(I.V(args[0], st), I.V(args[1], st), isand)
    return f


def np_not(I, args, kw, st):
    return I.invert(I.V(args[0], st))


def np_isnan(I, args, kw, st):
    return lift_lazy(lambda x: grids.nan(x) or mk('isnan', x), I.V(args[0], st))


def np_pred(name):
    def f(I, args, kw, st):
        if kw and name != 'numpy.isin':
            return None
        args, kw = I.norm_sig(name, args, kw)
        if kw:
            return None
        t = call_term(name, *[I.V(a, st) for a in args])
        return lift_lazy(lambda x: mk('pred', x), t)
    return f


def np_isinf(I, args, kw, st):
    if len(args) == 1 and not kw:
        t = I.V(args[0], st)
        if t.op == 'arr' and grids.flat(t) and all(is_num(x) or A.infinite(x) for x in grids.flat(t)):
            return grids.each(lambda x: TRUE if A.infinite(x) else FALSE, t)
        if is_num(t) or A.infinite(t):
            return TRUE if A.infinite(t) else FALSE
    return np_pred('numpy.isinf')(I, args, kw, st)


def np_first(pick):
    def g(I, args, kw, st):
        if kw or len(args) != 1:
            return None
        t = I.V(args[0], st)
        if t.op == 'list':
            t = arr(t)
        if t.op != 'arr' or not t.args or any(not is_num(x) and x not in (TRUE, FALSE) for x in t.args):
            return None
        v = [x.args[1] if is_num(x) else int(x is TRUE) for x in t.args]
        return num(v.index(pick(v)))
    return g


def np_argsort(I, args, kw, st):
    """Of written-out numbers; equal ones stay in their order."""
    if set(kw) - {'kind'} or len(args) != 1:
        return None
    t = I.V(args[0], st)
    if t.op not in ('arr', 'list', 'tuple') or any(not is_num(x) and x.op != 'ext' for x in t.args) or any(grids.nan(x) is not FALSE for x in t.args):
        return None
    v = [x.args[1] if is_num(x) else None for x in t.args]
    if None in v or len(set(v)) < len(v) and not kw and len(v) > 16:
        return None
    return mk('arr', *[num(i) for i in sorted(range(len(v)), key=v.__getitem__)])


def np_isin(I, args, kw, st):
    if kw or len(args) != 2:
        return None
    a, b = I.V(args[0], st), I.V(args[1], st)
    ts = list(a.args if a.op in ('arr', 'list', 'tuple') else [a]) + list(b.args)
    if a.op not in ('arr', 'list', 'tuple') or b.op not in ('arr', 'list', 'tuple') or not (all(map(is_num, ts)) or all(map(is_str, ts))):
        return None
    return mk('arr', *[TRUE if x in b.args else FALSE for x in a.args])


def np_count(I, args, kw, st):
    if kw:
        return None
    d = I.V(args[0], st)
    if d.op in ('arr', 'list', 'tuple') and all(is_str(x) or is_num(x) or x in (TRUE, FALSE) for x in d.args):
        return num(sum(1 for x in d.args if (x.args[1] if x.op == 'const' else x is TRUE)))
    if d.op == 'arr' and grids.flat(d):
        r = np_fold(lambda xs: _total([x if is_bool(x) else not_(A.eq(x, ZERO)) for x in xs]))(I, [d], {}, st)
        if r is not None:
            return r
    return call_term('numpy.sum', d)


def np_abs(I, args, kw, st):
    d = I.V(args[0], st)
    if d.op == 'arr' and A.known(d):
        return grids.each(abs_, d)
    return lift_lazy(abs_, I.V(args[0], st))


def np_real(I, args, kw, st):
    d = I.V(args[0], st)
    return d if not kw and real_numbers(d) else None


def np_imag(I, args, kw, st):
    d = I.V(args[0], st)
    return grids.each(lambda x: ZERO, d) if not kw and d.op == 'arr' and real_numbers(d) else ZERO if is_num(d) and not kw else None


def real_numbers(d):
    """Numbers that are written out are real."""
    return is_num(d) or d.op == 'arr' and bool(d.args) and all(real_numbers(x) for x in d.args)


def abs_(x):
    if is_num(x):
        return num(abs(x.args[1]))
    if A.infinite(x):
        return mk('ext', 'numpy.inf')
    d = A.poly(x)
    if not d:
        return ZERO
    l = A._lead(d)
    if len(d) == 1:
        (k, c), = d.items()
        return A._mul(num(abs(c)), mk('call', 'numpy.abs', A.unpoly({k: Fraction(1)})))
    return A._mul(num(abs(l)), mk('call', 'numpy.abs', A.unpoly({k: v / l for k, v in d.items()})))


def np_squeeze(I, args, kw, st):
    # axes of length one are not tracked: see DESIGN.md
    if len(args) > 1 or kw:
        return None
    I.assumed.add('axes of length one are not distinguished')
    return args[0]


def np_ix(I, args, kw, st):
    return mk('ix', *[I.V(a, st) for a in args])


def np_fill_diagonal(I, args, kw, st):
    I.set_content(args[0], app('filldiag', I.content(args[0], st), I.V(args[1], st)), st)
    return NONE


def m_fill(I, d, args, kw, st):
    return None


NP = {
    'numpy.zeros': np_fill('numpy.zeros'), 'numpy.ones': np_fill('numpy.ones'),
    'numpy.empty': np_fill('numpy.empty'), 'numpy.full': np_fill('numpy.full'),
    'numpy.zeros_like': np_like('numpy.zeros'), 'numpy.ones_like': np_like('numpy.ones'),
    'numpy.empty_like': np_like('numpy.empty'),
    'numpy.eye': np_eye, 'numpy.identity': np_eye,
    'numpy.array': np_array(True), 'numpy.asarray': np_array(False),
    'numpy.atleast_1d': np_array(False), 'numpy.copy': np_copy,
    'numpy.hstack': np_cat(1), 'numpy.vstack': np_cat(0), 'numpy.concatenate': np_cat(None),
    'numpy.block': np_block, 'numpy.dot': np_dot, 'numpy.linalg.multi_dot': np_multidot,
    'numpy.transpose': np_transpose, 'numpy.linalg.inv': unary(A.inv),
    'numpy.linalg.solve': np_solve, 'numpy.kron': binary(A.kron),
    'numpy.add': binary(A.add), 'numpy.subtract': binary(A.sub), 'numpy.multiply': binary(A.mul),
    'numpy.divide': binary(A.div), 'numpy.negative': unary(A.neg), 'numpy.power': binary(A.power),
    'numpy.sqrt': np_sqrt, 'numpy.square': unary(lambda x: A.power(x, num(2))),
    'numpy.abs': np_abs, 'numpy.where': np_where,
    'numpy.nonzero': lambda I, a, k, st: mk('tuple', nz(I.V(a[0], st))),
    'numpy.flatnonzero': lambda I, a, k, st: nz(I.V(a[0], st)),
    'numpy.argwhere': lambda I, a, k, st: call_term('argwhere', I.V(a[0], st)),
    'numpy.arange': np_arange, 'numpy.unique': np_unique, 'numpy.reshape': np_reshape, 'numpy.ravel': np_ravel,
    'numpy.equal': np_eq, 'numpy.logical_and': np_logical(True), 'numpy.logical_or': np_logical(False),
    'numpy.logical_not': np_not, 'numpy.isnan': np_isnan, 'numpy.isin': np_pred('numpy.isin'), 'numpy.isinf': np_isinf,
    'numpy.isfinite': np_pred('numpy.isfinite'), 'numpy.iscomplex': np_pred('numpy.iscomplex'),
    'numpy.isclose': np_pred('numpy.isclose'), 'numpy.count_nonzero': np_count,
    'numpy.less': binary(A.lt), 'numpy.greater': binary(lambda a, b: A.lt(b, a)),
    'numpy.less_equal': binary(A.le), 'numpy.greater_equal': binary(lambda a, b: A.le(b, a)),
    'numpy.not_equal': binary(lambda a, b: not_(A.eq(a, b))), 'numpy.invert': np_not,
    'numpy.tile': np_tile, 'numpy.sum': np_fold(_total), 'numpy.nansum': np_fold(_nantotal), 'numpy.any': np_fold(_some), 'numpy.all': np_fold(_every),
    'numpy.real': np_real, 'numpy.imag': np_imag,
    'numpy.argsort': np_argsort, 'numpy.isin': np_isin, 'numpy.in1d': np_isin,
    'numpy.argmax': np_first(max), 'numpy.argmin': np_first(min),
    'numpy.squeeze': np_squeeze, 'numpy.ix_': np_ix, 'numpy.fill_diagonal': np_fill_diagonal,
    'numpy.maximum': binary(lambda a, b: C.minmax('max', [a, b])),
    'numpy.minimum': binary(lambda a, b: C.minmax('min', [a, b])),
    'numpy.column_stack': np_columns, 'numpy.diagonal': np_diagonal, 'numpy.cumsum': np_cumsum, 'numpy.repeat': np_repeat,
    'numpy.ascontiguousarray': np_array(False),
    'operator.add': binary(A.add), 'operator.mul': binary(A.mul), 'operator.sub': binary(A.sub),
    'operator.truediv': binary(A.div), 'operator.neg': unary(A.neg), 'operator.pow': binary(A.power),
}

NPM = {n: np_fn('numpy.' + n) for n in
       ('sum', 'mean', 'std', 'var', 'max', 'min', 'any', 'all', 'cumsum', 'prod', 'argmax', 'argmin',
        'argsort', 'dot', 'transpose', 'ravel', 'take', 'repeat', 'squeeze', 'diagonal',
        'nonzero', 'conj', 'round', 'clip', 'trace')}
NPM['reshape'] = m_reshape
NPM['view'] = m_view
NPM['flatten'] = np_fn('numpy.ravel')
NPM['copy'] = np_fn('numpy.copy')
NPM['astype'] = lambda I, d, a, k, st: d
NPM['tolist'] = lambda I, d, a, k, st: d
NPM['item'] = lambda I, d, a, k, st: (d.args[0] if d.op == 'arr' and len(d.args) == 1 and d.args[0].op in ('const', 'poly', 'ref') else d) \
    if not a and not k else None
