"""Alignment of two normal forms.

Two equal normal forms are the same object.  Otherwise the two terms are
aligned from the root down to the smallest sub-terms in which they differ.
A difference is *definite* when both sides are written in constructs whose
normal form is unique enough that different terms mean different values
(constants, names, attributes, arithmetic, matrix products, conditions...).
Differences between constructs that have many equivalent spellings (loops,
block assembly, in-place writes, unknown calls) are *open*: they prove
nothing, and the obligation is reported as undecided.
"""
from __future__ import annotations

from . import arith as A
from . import terms as tm
from .terms import T, TRUE, FALSE, ite, bdd_atoms, restrict, show, is_const, leaves

# operators with many equivalent spellings
RISKY = {'mu', 'bmu', 'lam', 'cat', 'setitem', 'setkey', 'where', 'map', 'opaque_lambda', 'funcval',
         'concat', 'eye', 'eyerect', 'kron', 'ref', 'cycle', 'bag', 'catseq', 'arr', 'copyof',
         'star', 'range', 'wrap', 'phi', 'undef', 'partial', 'delkey', 'noattr', 'world',
         'sorted', 'reversed', 'union', 'rec', 'hasattr', 'isinst', 'nz', 'argwhere', 'clo', 'bmeth',
         'iter', 'filldiag', 'keys', 'values', 'items', 'zip', 'enumerate', 'toset',
         'count', 'lang', 'lam2', 'ok', 'typeof', 'format', 'strcat', 'ix', 'flip', 'fmt%', 'fmt', 'strof', 'join',
         'apply'}

# functions whose results differ for some argument whenever the names differ
DISTINCT = {'numpy.' + n for n in (
    'abs real imag max min any all sum prod cumsum exp log argmax argmin argsort mean std var '
    'zeros ones isnan isinf isfinite floor ceil sin cos tan sinh cosh tanh arcsin arccos arctan '
    'arcsinh arccosh arctanh log10 log2 log1p expm1 sort cumprod triu tril sign').split()} | {
    'numpy.random.normal', 'scipy.linalg.cholesky', 'numpy.diag', 'numpy.trace', 'numpy.linalg.det', 'scipy.linalg.ordqz', 'numpy.isin',
    'numpy.linalg.matrix_rank', 'scipy.special.erf', 'autograd.scipy.special.erf', 'scipy.linalg.solve_discrete_lyapunov', 'numpy.sqrt'}

ROBUST = {'const', 'sym', 'attr', 'poly', 'mono', 'mm', 'tr', 'inv', 'raise', 'eq', 'eq0', 'lt0', 'le0',
          'tuple', 'list', 'cmplt', 'in', 'truth', 'new', 'obj', 'isnan', 'power', 'fstr', 'exit', 'log', 'nolog',
          'exc', 'cls', 'ext', 'func', 'absent', 'dict', 'kw', 'tok', 'mask',
          'get', 'slice', 'ite'}


class Diff:
    def __init__(self, c, s, definite, why):
        self.c, self.s, self.definite, self.why = c, s, definite, why

    def text(self, depth=5):
        return '%s: code has %s, expected %s' % (self.why, _sh(self.c, depth), _sh(self.s, depth))

    def loc(self):
        return location(self.c) or location(self.s)


def _sh(t, d):
    s = show(t, d) if isinstance(t, T) else repr(t)
    return s if len(s) < 700 else s[:700] + '…'


def location(t):
    """Source position of the innermost construct that produced `t`."""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop(0)
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.src and x.op not in ('const', 'sym'):
            return x.src
        todo.extend(a for a in x.args if isinstance(a, T))
        if len(seen) > 400:
            break
    return None


# never a proof of difference
HARD = {'mu', 'bmu', 'lam', 'opaque_lambda', 'funcval', 'undef', 'cycle', 'rec', 'clo', 'ref', 'star'}


def heads(t):
    """Operators and functions that occur in a term."""
    out = set()
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        out.add(x.op)
        if x.op == 'call' and isinstance(x.args[0], str):
            out.add('call ' + x.args[0])
        todo.extend(a for a in x.args if isinstance(a, T))
    return out


def _two_d(t):
    if t.op in ('eye', 'eyerect', 'kron'):
        return True
    if t.op == 'call' and t.args[0] in ('numpy.zeros', 'numpy.ones') and len(t.args) > 1:
        return t.args[1].op == 'tuple' and len(t.args[1].args) == 2
    return False


_CMP = {'lt0', 'le0', 'eq0'}


class Aligner:

    def __init__(self, vocab=(), risky=(), robust=()):
        self.vocab = set(vocab)
        self.spec_heads = set()
        self.risky = (RISKY | set(risky)) - set(robust)
        self.robust = (ROBUST | set(robust)) - set(risky)
        self.memo = {}

    def diff(self, c, s):
        k = (c, s)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = []        # cut cycles
            r = self.memo[k] = self._diff(c, s)
        return r

    def top(self, c, s):
        self.spec_heads = heads(s)
        self.memo.clear()
        return self.diff(c, s)

    def is_risky(self, t):
        if t.op in HARD:
            return True
        if t.op == 'noattr':
            return False
        if t.op == 'call':
            return not (isinstance(t.args[0], str) and (
                t.args[0] in DISTINCT or t.args[0] in self.vocab or 'call ' + t.args[0] in self.spec_heads))
        if t.op in self.spec_heads:
            return False
        if t.op in self.robust:
            return False
        return True

    def deep_risky(self, t):
        """A construct with several spellings occurs in `t`."""
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'phi':
                continue
            if self.is_risky(x):
                return x
            todo.extend(a for a in x.args if isinstance(a, T))
        return None

    def leaf(self, c, s, why):
        bad = self.deep_risky(c) or self.deep_risky(s)
        return [Diff(c, s, bad is None, why if bad is None else why + ' (open: %s)' % bad.op)]

    def _diff(self, c, s):
        if c is s:
            return []
        if c is tm.NONE and s.op not in ('ite',) and not tm.is_bool(s) or c.op == 'noattr':
            return self._heads(c, s)
        if c.op == 'attr' and c.args[0] is tm.NONE:
            return [Diff(c, s, True, 'attribute of None')]
        if c.op == 'ite' or s.op == 'ite' or c.op in tm.BOOLEAN_OPS or s.op in tm.BOOLEAN_OPS:
            return self._cond(c, s)
        if c.op != s.op:
            return self._heads(c, s)
        op = c.op
        if op in ('poly', 'mono'):
            return self._poly(c, s)
        if op in ('const', 'sym', 'phi', 'ext', 'cls', 'func'):
            if op == 'phi':
                return [Diff(c, s, c.args[0] == 'b' and s.args[0] == 'b', 'different bound variable')]
            return [Diff(c, s, True, 'different value')]
        if op == 'attr':
            if c.args[1] != s.args[1]:
                if c.args[0] is s.args[0]:
                    return [Diff(c, s, True, 'different attribute')]
                return self.leaf(c, s, 'different attribute')
            return self.diff(c.args[0], s.args[0])
        if op in ('mu', 'bmu', 'lam'):
            return self._binder(c, s)
        if op == 'call':
            return self._call(c, s)
        if op == 'mm':
            return self._mm(c, s)
        if op == 'slice':
            return self._slice(c, s)
        if op == 'get':
            return self._get(c, s)
        if op in ('obj', 'dict', 'new'):
            return self._named(c, s)
        if op in ('set', 'union', 'bag'):
            return self._multi(c, s)
        if op == 'cat' and c.args[0] == s.args[0] and len(c.args) != len(s.args):
            a, b = list(c.args[1:]), list(s.args[1:])
            for x in list(a):
                if x in b:
                    a.remove(x)
                    b.remove(x)
            if not a or not b:
                return [Diff(c, s, True, 'missing or additional block')]
        if len(c.args) != len(s.args):
            return self.leaf(c, s, 'different number of parts')
        return self._pairwise(c, s)

    def _pairwise(self, c, s):
        out = []
        if c.args != s.args and c.op in ('mm', 'cat', 'tuple', 'list', 'call', 'kron', 'block') \
                and sorted(map(tm._akey, c.args)) == sorted(map(tm._akey, s.args)):
            return [Diff(c, s, True, 'different order')]
        for a, b in zip(c.args, s.args):
            if isinstance(a, T) and isinstance(b, T):
                out += self.diff(a, b)
            elif a != b:
                if c.op == 'cat':
                    # rows and columns of vectors are the same thing
                    flat = {a, b} <= {0, 1} and not any(map(_two_d, c.args[1:] + s.args[1:]))
                    return [Diff(c, s, not flat and len(c.args) > 2, 'different axis')]
                return self.leaf(c, s, 'different %s' % c.op)
        return out

    def _get(self, c, s):
        # the same container or the same index has to line up
        d0 = self.diff(c.args[0], s.args[0])
        d1 = self.diff(c.args[1], s.args[1])
        return d0 + d1

    def _slice(self, c, s):
        out = []
        for a, b in zip(c.args, s.args):
            if a is b:
                continue
            if a is tm.NONE and b.op not in ('const', 'len'):
                # reaches further than it should
                out.append(Diff(c, s, True, 'different slice'))
            elif _sign(a) != _sign(b):
                out.append(Diff(c, s, False, 'different form of slice'))
            elif a is tm.NONE or b is tm.NONE:
                out.append(Diff(c, s, True, 'different slice'))
            else:
                out += self.diff(a, b)
        return out

    def _named(self, c, s):
        if c.op == 'obj':
            fc, fs = c.args[1:], s.args[1:]
            if c.args[0] != s.args[0]:
                return self.leaf(c, s, 'different class')
        elif c.op == 'dict':
            fc, fs = c.args, s.args
        else:
            if c.args[0] != s.args[0] or len(c.args) != len(s.args):
                return self.leaf(c, s, 'different object')
            return self._pairwise(c, s)
        dc = dict(zip(fc[::2], fc[1::2]))
        ds = dict(zip(fs[::2], fs[1::2]))
        out = []
        for k in ds:
            if k not in dc:
                out += self.leaf(c, ds[k], 'missing entry %s' % _sh(k, 3))
            else:
                out += self.diff(dc[k], ds[k])
        for k in dc:
            if k not in ds and c.op == 'dict':
                out += self.leaf(dc[k], s, 'extra entry %s' % _sh(k, 3))
        return out

    def _multi(self, c, s):
        a, b = list(c.args), list(s.args)
        for x in list(a):
            if x in b:
                a.remove(x)
                b.remove(x)
        if len(a) == len(b) == 1:
            return self.diff(a[0], b[0])
        return self.leaf(c, s, 'different elements')

    def _call(self, c, s):
        if isinstance(c.args[0], str) and isinstance(s.args[0], str) and c.args[0] != s.args[0]:
            if {c.args[0], s.args[0]} <= (DISTINCT | self.vocab) and c.args[1:] == s.args[1:]:
                return [Diff(c, s, True, 'different function')]
            return [Diff(c, s, False, 'different function')]
        a, b = list(c.args[1:]), list(s.args[1:])
        if not isinstance(c.args[0], str):
            return self._pairwise(c, s) if len(c.args) == len(s.args) else [Diff(c, s, False, 'different call')]
        ka = {x.args[0]: x.args[1] for x in a if x.op == 'kw'}
        kb = {x.args[0]: x.args[1] for x in b if x.op == 'kw'}
        pa, pb = [x for x in a if x.op != 'kw'], [x for x in b if x.op != 'kw']
        known = c.args[0] in self.vocab or c.args[0] in DISTINCT or 'call ' + c.args[0] in self.spec_heads
        if len(pa) != len(pb) or set(ka) != set(kb):
            if set(ka) != set(kb) and len(pa) == len(pb) and known:
                d = sum((self.diff(x, y) for x, y in zip(pa, pb)), [])
                return d + [Diff(c, s, True, 'different arguments')]
            return [Diff(c, s, False, 'different arguments')]
        out = []
        for x, y in zip(pa, pb):
            out += self.diff(x, y)
        for k in kb:
            out += self.diff(ka[k], kb[k])
        return out

    def _mm(self, c, s):
        a, b = list(c.args), list(s.args)
        if len(a) != len(b):
            i = 0
            while i < min(len(a), len(b)) and a[i] is b[i]:
                i += 1
            j = 0
            while j < min(len(a), len(b)) - i and a[-1 - j] is b[-1 - j]:
                j += 1
            ra, rb = a[i:len(a) - j], b[i:len(b) - j]
            if not ra or not rb:
                bad = next((x for x in ra + rb if self.deep_risky(x)), None)
                return [Diff(c, s, bad is None, 'missing or additional factor')]
            return self.leaf(c, s, 'different product')
        return self._pairwise(c, s)

    # polynomials: monomials are matched greedily
    def _poly(self, c, s):
        pc, ps = A.poly(c), A.poly(s)
        only_c = {k: v for k, v in pc.items() if ps.get(k) != v}
        only_s = {k: v for k, v in ps.items() if pc.get(k) != v}
        out = []
        for k in list(only_c):
            if k in only_s:
                out.append(Diff(c, s, True, 'different coefficient'))
                del only_c[k], only_s[k]
        if not only_c and not only_s:
            return out
        if not only_c or not only_s:
            rest = list(only_c) + list(only_s)
            bad = any(_maybe_zero(a) for k in rest for a, e in k)
            return out + [Diff(c, s, not bad, 'missing or additional term')]
        lc, ls = list(only_c), list(only_s)
        while lc and ls:
            best = None
            for x in lc:
                for y in ls:
                    d = self._mono(x, only_c[x], y, only_s[y])
                    sc = (any(not z.definite for z in d), len(d))
                    if best is None or sc < best[0]:
                        best = (sc, x, y, d)
            _, x, y, d = best
            out += d
            lc.remove(x)
            ls.remove(y)
        if lc or ls:
            bad = any(self.deep_risky(a) for k in lc + ls for a, e in k)
            out.append(Diff(c, s, not bad, 'missing or additional term'))
        return out

    def _mono(self, k1, v1, k2, v2):
        from fractions import Fraction
        t1 = A.unpoly({k1: v1})
        t2 = A.unpoly({k2: v2})
        d1, d2 = dict(k1), dict(k2)
        a = [x for x in d1 if d2.get(x) != d1[x]]
        b = [x for x in d2 if d1.get(x) != d2[x]]
        out = []
        if v1 != v2:
            out.append(Diff(t1, t2, True, 'different coefficient'))
        if set(a) == set(b) and a:
            return out + [Diff(t1, t2, True, 'different exponent')]
        a2 = [x for x in a if x not in b]
        b2 = [x for x in b if x not in a]
        if len(a2) == len(b2) == 1 and d1[a2[0]] == d2[b2[0]]:
            return out + self.diff(a2[0], b2[0])
        if not a2 and not b2:
            return out
        bad = any(self.deep_risky(x) for x in a2 + b2)
        return out + [Diff(t1, t2, not bad, 'different product')]

    def _heads(self, c, s):
        if (c is tm.NONE or s is tm.NONE or c.op == 'noattr') and not {c.op, s.op} & {'phi', 'undef', 'mu'}:
            return [Diff(c, s, True, 'no value' if c is tm.NONE else 'different construct')]
        # a transposition, negation or inverse too many
        for x, y in ((c, s), (s, c)):
            if x.op in ('tr', 'inv') and x.args[0] is y:
                return [Diff(c, s, True, 'different by %s' % x.op)]
            if x.op == 'max' and len(x.args) == 2 and y.op in ('call', 'attr', 'mm', 'sym') and any(
                    b.op == 'const' and tm.is_num(b) and 1e-9 <= b.args[1] < 1 and not self.diff(a, y) for a, b in (x.args, x.args[::-1])):
                # no bound of this kind holds by itself
                return [Diff(c, s, True, 'bounded from below')]
            if x.op == 'mono' or x.op == 'poly':
                p = A.poly(x)
                if len(p) == 1:
                    (k, v), = p.items()
                    if len(k) == 1 and k[0][0] is y:
                        return [Diff(c, s, True, 'different factor')]
        if c.op in ('poly', 'mono') or s.op in ('poly', 'mono') or \
                {c.op, s.op} <= {'poly', 'mono', 'const', 'attr', 'sym', 'mm', 'get', 'call', 'inv', 'tr', 'cat'}:
            pc, ps = A.poly(c), A.poly(s)
            if set(pc) & set(ps) or len(pc) > 1 or len(ps) > 1:
                if not (c.op == 'const' and s.op == 'const'):
                    r = self._poly(c, s)
                    if r:
                        return r
        if self.is_risky(c) or self.is_risky(s):
            return [Diff(c, s, False, 'different construct')]
        return self.leaf(c, s, 'different construct')

    def _binder(self, c, s):
        if c.op != s.op or c.args[1] != s.args[1] or len(c.args) != len(s.args):
            return [Diff(c, s, False, 'different loop')]
        out = []
        for a, b in zip(c.args, s.args):
            if isinstance(a, T) and isinstance(b, T):
                out += self.diff(a, b)
        if len({(d.c, d.s, d.why) for d in out}) > 6:
            for d in out:
                d.definite = False
        return out

    def _cond(self, c, s):
        ac, as_ = _all_atoms(c), _all_atoms(s)
        oc, os = ac - as_, as_ - ac
        if not oc and not os:
            # same tests, different outcome somewhere
            out = []
            for a, b in self._outcomes(c, s):
                if {a, b} == {TRUE, FALSE}:
                    bad = next((x for x in ac if self.deep_risky(x)), None)
                    out.append(Diff(c, s, bad is None or True, 'different outcome of the same test'))
                else:
                    out += self.diff(a, b)
            return out or [Diff(c, s, False, 'different condition')]
        # pair up tests that are alike
        ren = {}
        ds = []
        l1, l2 = sorted(oc), sorted(os)
        for x in list(l1):
            best = None
            for y in l2:
                if x.op == y.op:
                    d = self._pairwise_atoms(x, y)
                    sc = (any(not z.definite for z in d), len(d), _size(x) != _size(y))
                    if d and (best is None or sc < best[0]):
                        best = (sc, y, d)
                elif {x.op, y.op} <= _CMP and (x.args[0] is y.args[0] or x.args[0] is A.neg(y.args[0])):
                    best = ((False, 1, False), y, [Diff(x, y, True, 'other comparison')])
            if best and len(best[2]) <= 2:
                ren[x] = best[1]
                ds += best[2]
                l1.remove(x)
                l2.remove(best[1])
        if ren and not l1 and not l2:
            try:
                c2 = _rename_atoms(c, ren)
            except tm.Unsupported:
                return [Diff(c, s, False, 'different condition')]
            if c2 is s:
                return [Diff(d.c, d.s, d.definite, 'different test: ' + d.why) for d in ds]
            return ds + [Diff(x.c, x.s, x.definite, x.why) for x in self.diff(c2, s)]
        # comparison operators of the same quantity
        rest = l1 + l2
        bad = next((x for x in rest if self.deep_risky(x)), None)
        definite = bad is None and not any(_emptiness(x) for x in l1) and not any(
            {x.op, y.op} <= _CMP and A.sub(x.args[0], y.args[0]).op == 'const' for x in l1 for y in l2)
        if definite and not ren:
            return [Diff(c, s, True, 'different tests (code %s, expected %s)' % (
                [_sh(x, 4) for x in l1], [_sh(x, 4) for x in l2]))]
        return [Diff(c, s, definite and all(d.definite for d in ds), 'different tests (code %s, expected %s)' % (
            [_sh(x, 4) for x in l1], [_sh(x, 4) for x in l2]))]

    def _pairwise_atoms(self, x, y):
        if len(x.args) != len(y.args):
            return []
        out = []
        for a, b in zip(x.args, y.args):
            if isinstance(a, T) and isinstance(b, T):
                out += self.diff(a, b)
            elif a != b:
                return [Diff(x, y, False, 'different test')]
        return out

    def _outcomes(self, c, s):
        """Pairs of outcomes that differ for the same case."""
        seen = set()
        out = []

        def go(x, y):
            if x is y or (x, y) in seen or len(out) > 20:
                return
            seen.add((x, y))
            ax = tm._topatom(x) if x.op != 'const' else None
            ay = tm._topatom(y) if y.op != 'const' else None
            if ax is None and ay is None:
                out.append((x, y))
                return
            a = ax if ay is None or (ax is not None and ax.key < ay.key) else ay
            for v in (True, False):
                go(tm.theory(tm.cof(x, a, v), a, v), tm.theory(tm.cof(y, a, v), a, v))
        go(c, s)
        return out


def _maybe_zero(t):
    return t.op in ('zeros', 'phi') or (t.op == 'call' and t.args[0] in ('numpy.zeros', 'numpy.empty')) or \
        t.op in ('setitem', 'cat', 'mm', 'kron') and any(isinstance(a, T) and _maybe_zero(a) for a in t.args)


def _sign(t):
    if t is tm.NONE:
        return 'none'
    p = A.poly(t)
    if p and all(v < 0 for v in p.values()):
        return '-'
    return '+'


def _size(t):
    return len(t.args)


def _all_atoms(t):
    r = set(bdd_atoms(t))
    return r


def _rename_atoms(t, ren):
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'ite':
            a = ren.get(x.args[0], x.args[0])
            r = ite(a, go(x.args[1]), go(x.args[2]))
        elif x in ren:
            r = ren[x]
        elif x.op in tm.STRUCT and bdd_atoms(x):
            r = tm.mk(x.op, *[go(a) if isinstance(a, T) else a for a in x.args])
        else:
            r = x
        memo[x] = r
        return r
    return go(t)


def _emptiness(x):
    """Tests of emptiness are often redundant."""
    def has_len(t):
        if t.op in ('len', 'count'):
            return True
        if t.op == 'attr' and t.args[1] in ('size', 'ndim'):
            return True
        return any(has_len(a) for a in t.args if isinstance(a, T))
    if x.op == 'truth':
        return x.args[0].op not in ('call', 'poly', 'mono') or has_len(x.args[0])
    return x.op in ('eq', 'eq0', 'lt0', 'le0') and has_len(x)
