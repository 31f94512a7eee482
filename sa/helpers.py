"""The array helpers that numeric checks take for granted, on arrays of known shape."""
from __future__ import annotations

import itertools

from .interp import Cfg
from .shapes import symbols
from .terms import mk, num, const, sym, NONE, TRUE, FALSE, is_num

U = 'pynare.utils.numpy:'
HERE = ['e%d' % i for i in range(9)]


def vector(name, n):
    return mk('arr', *[sym('%s%d' % (name, i)) for i in range(n)])


def column(v):
    return mk('arr', *[mk('arr', x) for x in v.args])


def row(v):
    return mk('arr', v)


def numbers(*ts):
    return set().union(*[{t.args[0]} if t.op == 'sym' else numbers(*t.args) if t.op in ('arr', 'tuple', 'list') else set() for t in ts])


def size(t):
    return sum(map(size, t.args)) if t.op == 'arr' else 1


def only(t):
    return only(t.args[0]) if t.op == 'arr' else t


def item(I, args, kw, st):
    t = I.V(args[0], st)
    if t.op != 'arr':
        return t
    if size(t) == 1:
        return only(t)
    I.raise_(st, mk('exc', 'ValueError'))
    return NONE


def scalars(I, name, args, kw, st):
    if name == 'numpy.isscalar' and len(args) == 1:
        t = I.V(args[0], st)
        return FALSE if t.op in ('arr', 'list', 'tuple') else TRUE if I.numeric(t) else None
    return None


def product(x, y):
    """Of arrays as numpy multiplies them, unless one is a single number."""
    if size(x) == 1 or size(y) == 1:
        return 'scaled'
    return 'product'


def helpers(B, *which):
    """A helper that is no more has nothing to show."""
    which = [f for f in which if B.repo.func(U + f) is not None]

    def check(label, f, args, want, kw=None, error=None):
        def go():
            names = numbers(*args, *([] if want is None or callable(want) else [want]))
            c = Cfg(sym_types={n: 'num' for n in names}, opaque={'*.item': item}, hooks=[scalars])
            I = B.engine(c)

            def run(s):
                xs = [I.call(mk('func', 'spec.functions:whole'), [a], {}, s) for a in args]
                return I.R(I.call(mk('func', U + f), xs, dict(kw or {}), s), s)
            r = B.value(I, run)
            if error is not None:
                J = B.engine(Cfg())
                B.compare(label, r[2], B.value(J, lambda s: J.call(mk('func', 'spec.functions:fails_' + error), [], {}, s))[2])
                return
            J = B.engine(Cfg(sym_types=c.sym_types))
            B.match(label, r, B.value(J, lambda s: want(J, s) if callable(want) else J.call(mk('func', 'spec.functions:whole'), [want], {}, s)), raises=True, alive=True)
        B.guard(label, go)

    if 'ensure_2darray' in which:
        cases = [(vector('e', n), column(vector('e', n)), row(vector('e', n))) for n in (1, 2, 3, 5)]
        cases += [(m, m, m) for m in (symbols('m', *d) for d in ((1, 1), (1, 3), (3, 1), (2, 3), (4, 2)))]
        for i, (x, c, r) in enumerate(cases):
            for o, w in ((None, c), ('column', c), ('row', r)):
                kw = {} if o is None else {'orient': const(o)}
                check('two axes of an array, %s: %s' % (o, x), 'ensure_2darray', [x], w, kw)
            for j, (y, c2, r2) in enumerate(cases):
                for o, w in ((None, mk('tuple', c, c2)), ('row', mk('tuple', r, r2))):
                    if (i + j) % 3 == 0:
                        check('two axes of arrays, %s: %s and %s' % (o, x, y), 'ensure_2darray', [mk('tuple', x, y)], w, {} if o is None else {'orient': const(o)})
        check('an unknown orientation', 'ensure_2darray', [vector('e', 2)], None, {'orient': const('diagonal')}, 'ValueError')
    if 'find_first' in which:
        for n in (1, 2, 3, 4):
            for ts in itertools.product((TRUE, FALSE), repeat=n):
                check('first true of %s' % (ts,), 'find_first', [mk('arr', *ts)], num(ts.index(TRUE) if TRUE in ts else -1))
    if 'array_shingle' in which:
        for n, m, k, o in itertools.product((1, 2, 4), (1, 2, 3, 5), (1, 2), range(5)):
            if o <= min(n, m):
                a, b = symbols('a', n, k), symbols('b', m, k)
                check('shingle of %d and %d rows of %d, %d covered' % (n, m, k, o), 'array_shingle', [a, b, num(o)], mk('arr', *(a.args + b.args[o:])))
        check('shingle of rows of different lengths', 'array_shingle', [symbols('a', 2, 2), symbols('b', 2, 3), num(1)], None, None, 'ValueError')
    if 'matmul_scalar' in which:
        for x, y in ((symbols('m', 2, 3), vector('e', 3)), (symbols('m', 2, 3), symbols('k', 3, 2)), (vector('e', 1), vector('f', 3)), (symbols('m', 1, 1), vector('f', 3)),
                     (vector('f', 3), vector('e', 1)), (symbols('m', 3, 1), vector('e', 1)), (symbols('m', 2, 2), symbols('k', 1, 1)), (vector('e', 3), vector('f', 3)),
                     (vector('e', 1), vector('f', 1)), (symbols('m', 1, 3), vector('f', 3)), (symbols('m', 4, 2), vector('f', 2))):
            check('product of %s and %s' % (x, y), 'matmul_scalar', [x, y], lambda J, s: J.call(
                mk('func', 'spec.functions:' + product(x, y)), [J.call(mk('func', 'spec.functions:whole'), [only(t) if size(t) == 1 else t], {}, s) for t in (x, y)], {}, s))
    if 'concatenate_maybe_1d' in which:
        for a, b in ((vector('e', 2), vector('f', 3)), (symbols('m', 2, 2), symbols('k', 3, 2)), (symbols('m', 1, 3), symbols('k', 1, 3)),
                     (symbols('m', 2, 1), vector('e', 2))):
            rows = [x if x.op == 'arr' else mk('arr', x) for t in (a, b) for x in t.args]
            check('%s on %s' % (a, b), 'concatenate_maybe_1d', [mk('tuple', a, b)], mk('arr', *rows))
    if 'matrix_kronecker_product' in which:
        for a, b, c in ((symbols('m', 2, 4), vector('e', 2), None), (symbols('m', 2, 6), vector('e', 2), vector('f', 3)), (symbols('m', 3, 4), symbols('k', 2, 2), None),
                        (symbols('m', 1, 6), symbols('k', 2, 1), symbols('l', 3, 2))):
            check('%s times a Kronecker product of %s and %s' % (a, b, c), 'matrix_kronecker_product', [a, b] + ([] if c is None else [c]), lambda J, s: J.call(
                mk('func', 'spec.functions:kronecker'), [J.call(mk('func', 'spec.functions:whole'), [t], {}, s) for t in (a, b, c if c is not None else b)], {}, s))
