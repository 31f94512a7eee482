"""Hash-consed Herbrand terms with a strong normal form.

A term is an operator over terms.  Structurally equal terms are the same
Python object.  Conditional values are ordered decision diagrams: the node
`ite(atom, hi, lo)` tests an atom that is smaller (by structural digest) than
every atom tested below it, and operators are lifted over it, so that two
values that agree in every case are the same object no matter in which order
the program tested the cases.
"""
from __future__ import annotations

import hashlib
from fractions import Fraction


class Unsupported(Exception):
    """The analysed construct is outside of the modelled language."""


class Budget(Unsupported):
    """The normal form grew past the configured bound."""


class T:
    __slots__ = ('op', 'args', 'key', 'src', '_fv', '_atoms', '_refs')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.key < other.key


_TABLE: dict = {}
_ROOM = {'max': 3_000_000}
CUR = {'src': None, 'steps': 0, 'limit': None}


def _akey(a):
    if isinstance(a, T):
        return a.key
    return '%s:%r' % (type(a).__name__, a)


def mk(op, *args):
    k = (op,) + tuple((a if isinstance(a, T) else (type(a), a)) for a in args)
    t = _TABLE.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    h = hashlib.blake2b(digest_size=12)
    h.update(op.encode())
    for a in args:
        h.update(b'\0')
        h.update(_akey(a).encode('utf8', 'surrogatepass'))
    t.key = h.hexdigest()
    t.src = CUR['src']
    t._fv = None
    t._atoms = None
    t._refs = None
    _TABLE[k] = t
    if len(_TABLE) > _ROOM['max']:
        raise Budget('term table')
    return t


def reset():
    """Forget all terms but the shared constants (between obligations)."""
    for c in (_memo_ite, _memo_sub, _memo_cof, _memo_assume):
        c.clear()


def mark():
    """Start of an obligation."""
    _ROOM['max'] = len(_TABLE) + 1_500_000
    return len(_TABLE)


def release(n):
    """End of an obligation that grew too large: forget its terms."""
    reset()
    while len(_TABLE) > n:
        _TABLE.popitem()


# --------------------------------------------------------------- constants

TRUE = mk('const', 'bool', True)
FALSE = mk('const', 'bool', False)
NONE = mk('const', 'none', None)
UNDEF = mk('undef')


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return mk('sym', 'float:' + repr(x))
        # decimal value as written
        return mk('const', 'num', Fraction(repr(x)))
    return mk('const', 'num', Fraction(x))


ZERO = num(0)
ONE = num(1)


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, float, Fraction)):
        return num(v)
    if isinstance(v, complex):
        return mk('const', 'complex', repr(v))
    if isinstance(v, str):
        return mk('const', 'str', v)
    if isinstance(v, bytes):
        return mk('const', 'bytes', v)
    if v is Ellipsis:
        return mk('const', 'ellipsis', None)
    if isinstance(v, tuple):
        return mk('tuple', *[const(x) for x in v])
    raise Unsupported('constant %r' % (v,))


def sym(name):
    return mk('sym', name)


def is_const(t):
    return t.op == 'const'


def is_num(t):
    return t.op == 'const' and t.args[0] == 'num'


def is_str(t):
    return t.op == 'const' and t.args[0] == 'str'


def val(t):
    """The Python value of a constant."""
    v = t.args[1]
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


# --------------------------------------------------------- free variables

_EMPTY = frozenset()


def fv(t):
    """Bound-variable symbols ('phi' terms) occurring in `t`."""
    r = t._fv
    if r is not None:
        return r
    # iterative post-order
    stack = [t]
    while stack:
        x = stack[-1]
        if x._fv is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a._fv is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == 'phi':
            x._fv = frozenset((x,))
        else:
            s = _EMPTY
            for a in x.args:
                if isinstance(a, T) and a._fv:
                    s = (s | a._fv) if s else a._fv
            if x.op in BINDERS and s:
                lvl = binder_sig(x)[0]
                s = frozenset(v for v in s if not (v.args[0] == 'b' and v.args[1] == lvl))
            x._fv = s
        stack.pop()
    return t._fv


def refs(t):
    """Heap references occurring in `t`."""
    r = t._refs
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x._refs is not None:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a._refs is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == 'ref':
            x._refs = frozenset((x,))
        else:
            s = _EMPTY
            for a in x.args:
                if isinstance(a, T) and a._refs:
                    s = (s | a._refs) if s else a._refs
            x._refs = s
        stack.pop()
    return t._refs


# ------------------------------------------------------ decision diagrams

STRUCT = {'tuple', 'list', 'next', 'exit', 'obj', 'bag'}

BOOLEAN_OPS = {'eq', 'eq0', 'lt0', 'le0', 'cmplt', 'in', 'isinst', 'truth', 'ok', 'is',
               'hasattr', 'bmu', 'pred', 'callable', 'isnan', 'subclass'}

_memo_ite: dict = {}
_memo_cof: dict = {}
_memo_assume: dict = {}
_theory_hooks: list = []


def is_bool(t):
    if t.op == 'const':
        return t.args[0] == 'bool'
    if t.op == 'ite':
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return t.op in BOOLEAN_OPS


def top(t):
    return t.args[0] if t.op == 'ite' else None


def cof(t, atom, v):
    """Cofactor of the diagram `t` (only its decision nodes)."""
    if t is atom:
        return TRUE if v else FALSE
    if t.op != 'ite':
        if t.op in STRUCT:
            return _cof_struct(t, atom, v)
        return t
    a, hi, lo = t.args
    if a is atom:
        return hi if v else lo
    if a.key > atom.key and not _struct_below(t):
        return t
    k = (t, atom, v)
    r = _memo_cof.get(k)
    if r is None:
        h2, l2 = cof(hi, atom, v), cof(lo, atom, v)
        r = t if (h2 is hi and l2 is lo) else ite(a, h2, l2)
        _memo_cof[k] = r
    return r


def _struct_below(t):
    return True


def _cof_struct(t, atom, v):
    k = (t, atom, v)
    r = _memo_cof.get(k)
    if r is None:
        args = tuple(cof(x, atom, v) if isinstance(x, T) else x for x in t.args)
        r = t if args == t.args else mk(t.op, *args)
        _memo_cof[k] = r
    return r


def bdd_atoms(t):
    """Atoms tested in the decision part of `t` (through structures)."""
    r = t._atoms
    if r is not None:
        return r
    if t.op == 'ite':
        r = frozenset((t.args[0],)) | bdd_atoms(t.args[1]) | bdd_atoms(t.args[2])
    elif t.op in STRUCT:
        r = _EMPTY
        for a in t.args:
            if isinstance(a, T):
                b = bdd_atoms(a)
                if b:
                    r = r | b
    elif t.op in BOOLEAN_OPS:
        r = frozenset((t,))
    else:
        r = _EMPTY
    t._atoms = r
    return r


def _as_bdd(c):
    """A boolean term as (atom, hi, lo)."""
    if c.op == 'ite':
        return c.args
    return (c, TRUE, FALSE)


def _topatom(t, cond=False):
    if t.op == 'ite':
        return t.args[0]
    if t.op in BOOLEAN_OPS:
        return t
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _memo_ite.get(k)
    if r is not None:
        return r
    if CUR['limit'] is not None:
        CUR['steps'] += 1
        if CUR['steps'] > CUR['limit']:
            raise Budget('decision diagram steps')
    # choose the smallest atom
    best = _topatom(c)
    if best is None:
        raise Unsupported('condition is not boolean: %s' % show(c, 3))
    for x in (a, b):
        y = _topatom(x)
        if y is not None and y.key < best.key:
            best = y
    h = ite(cof(c, best, True), cof(a, best, True), cof(b, best, True))
    l = ite(cof(c, best, False), cof(a, best, False), cof(b, best, False))
    r = node(best, h, l)
    _memo_ite[k] = r
    return r


def node(atom, hi, lo):
    if hi is lo:
        return hi
    hi2, lo2 = theory(hi, atom, True), theory(lo, atom, False)
    if hi2 is not hi or lo2 is not lo:
        # the order of atoms below may have changed
        return ite(atom, hi2, lo2)
    # a case that differs from the other one only by what the atom implies
    if hi is TRUE and lo is FALSE:
        return atom
    if hi.op == lo.op and hi.op in STRUCT and len(hi.args) == len(lo.args) \
            and _raw(hi) == _raw(lo):
        return mk(hi.op, *[ite(atom, x, y) if isinstance(x, T) else x
                           for x, y in zip(hi.args, lo.args)])
    if atom.op == 'eq' and atom.args[1].op == 'const' and lo.op not in ('ite',):
        # ite(x == k, f(k), f(x))  ->  f(x)
        if _subst_once(lo, atom.args[0], atom.args[1]) is hi:
            return lo
    return mk('ite', atom, hi, lo)


def _raw(t):
    return tuple(x for x in t.args if not isinstance(x, T))


def _subst_once(t, x, k):
    if is_bool(t) and bdd_atoms(t):
        return None
    return subst(t, {x: k})


def theory(t, atom, v):
    """Simplify `t` with the consequences of `atom` being `v`."""
    op = atom.op
    if t.op == 'const' or t.op == 'sym':
        if v and op == 'eq' and t is atom.args[0] and atom.args[1].op == 'const':
            return atom.args[1]
        return t
    k = (t, atom, v)
    r = _memo_assume.get(k)
    if r is not None:
        return r
    r = t
    if v and op == 'eq' and atom.args[1].op == 'const':
        x = atom.args[0]
        r = subst(r, {x: atom.args[1]})
    if v and op == 'ok_eq':
        pass
    ats = bdd_atoms(r)
    if ats:
        for other in sorted(ats, key=lambda z: z.key):
            if other is atom:
                r = cof(r, atom, v)
                continue
            w = implied(atom, v, other)
            if w is not None:
                r = cof(r, other, w)
    if not (v and op == 'eq' and atom.args[1].op == 'const'):
        if _maybe_inside(r, atom):
            r = subst(r, {atom: TRUE if v else FALSE})
    _memo_assume[k] = r
    return r


def _maybe_inside(t, atom):
    return atom.op in ('mu', 'bmu') and False


def implied(atom, v, other):
    """Truth value of `other` implied by `atom` being `v`, or None."""
    for h in _theory_hooks:
        w = h(atom, v, other)
        if w is not None:
            return w
    ao, oo = atom.op, other.op
    if ao == 'eq' and oo == 'eq':
        if v and atom.args[0] is other.args[0] and atom.args[1] is not other.args[1] \
                and is_const(atom.args[1]) and is_const(other.args[1]):
            return False
    if ao == 'truth':
        x = atom.args[0]
        if v and oo == 'eq' and other.args[0] is x and is_const(other.args[1]) \
                and not val(other.args[1]):
            return False
        if v and oo == 'isinst' and other.args[0] is x and other.args[1].args[0] == 'NoneType':
            return False
    if oo == 'truth' and ao == 'eq' and v and atom.args[0] is other.args[0] \
            and is_const(atom.args[1]):
        return bool(val(atom.args[1]))
    if ao == 'eq' and v and atom.args[1] is NONE and other.args and other.args[0] is atom.args[0]:
        if oo in ('isinst', 'hasattr'):
            return False
    if ao in ('isinst', 'hasattr') and v and oo == 'eq' and other.args[1] is NONE \
            and other.args[0] is atom.args[0]:
        return False
    if ao in ('lt0', 'le0', 'eq0') and oo in ('lt0', 'le0', 'eq0'):
        return _implied_cmp(atom, v, other)
    return None


def _split_c(p):
    """(non-constant part key, constant) of a polynomial."""
    from . import arith
    return arith.split_const(p)


def _implied_cmp(atom, v, other):
    p, c1 = _split_c(atom.args[0])
    q, c2 = _split_c(other.args[0])
    if p is not q or p is None:
        return None
    # p + c1 OP 0 ; p + c2 OP 0 : bounds on x = p
    lo = hi = None
    los = his = False      # strict
    if atom.op == 'lt0':
        if v:
            hi, his = -c1, True
        else:
            lo, los = -c1, False
    elif atom.op == 'le0':
        if v:
            hi, his = -c1, False
        else:
            lo, los = -c1, True
    else:
        if not v:
            return False if False else None
        lo = hi = -c1
    b = -c2
    if other.op == 'lt0':      # x < b
        if hi is not None and (hi < b or (hi == b and his)):
            return True
        if lo is not None and lo >= b:
            return False
    elif other.op == 'le0':    # x <= b
        if hi is not None and hi <= b:
            return True
        if lo is not None and (lo > b or (lo == b and los)):
            return False
    else:                      # x == b
        if hi is not None and (hi < b or (hi == b and his)):
            return False
        if lo is not None and (lo > b or (lo == b and los)):
            return False
        if lo is not None and lo == hi == b:
            return True
    return None


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def restrict(t, care):
    """Simplify the diagram `t` where only the cases in `care` matter."""
    if care is TRUE or t.op == 'const' and not is_bool(t):
        return t
    if care is FALSE:
        return t
    if t.op in STRUCT:
        if not bdd_atoms(t):
            return t
        return mk(t.op, *[restrict(x, care) if isinstance(x, T) else x for x in t.args])
    ta = _topatom(t)
    if ta is None or t.op == 'const':
        return t
    k = ('restrict', t, care)
    r = _memo_cof.get(k)
    if r is not None:
        return r
    ca = _topatom(care)
    if ca.key < ta.key:
        # the care set tests something `t` does not test at the top
        c1, c0 = cof(care, ca, True), cof(care, ca, False)
        if c0 is FALSE:
            r = restrict(theory(cof(t, ca, True), ca, True), c1)
        elif c1 is FALSE:
            r = restrict(theory(cof(t, ca, False), ca, False), c0)
        elif ca in bdd_atoms(t):
            r = ite(ca, restrict(cof(t, ca, True), c1), restrict(cof(t, ca, False), c0))
        else:
            r = restrict(t, or_(c1, c0))
    else:
        c1 = theory(cof(care, ta, True), ta, True)
        c0 = theory(cof(care, ta, False), ta, False)
        if c1 is FALSE:
            r = restrict(cof(t, ta, False), c0)
        elif c0 is FALSE:
            r = restrict(cof(t, ta, True), c1)
        else:
            r = ite(ta, restrict(cof(t, ta, True), c1), restrict(cof(t, ta, False), c0))
    _memo_cof[k] = r
    return r


def leaves(t, out=None):
    """Leaves of the decision diagram `t`."""
    seen = set()
    res = []

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'ite':
            go(x.args[1])
            go(x.args[2])
        else:
            res.append(x)
    go(t)
    return res


def map_leaves(t, f, memo=None):
    if memo is None:
        memo = {}
    if t.op != 'ite':
        return f(t)
    r = memo.get(t)
    if r is None:
        a, hi, lo = t.args
        r = ite(a, map_leaves(hi, f, memo), map_leaves(lo, f, memo))
        memo[t] = r
    return r


# -------------------------------------------------------------- lifting

BINDERS = {'mu', 'bmu', 'lam'}


def binder_sig(t):
    """(level, kinds of the bound names) of a binder."""
    return t.args[1]


_blevel: dict = {}


def binder_level(t):
    """Highest level of a binder inside `t`."""
    r = _blevel.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _blevel:
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a not in _blevel]
        if todo:
            stack.extend(todo)
            continue
        r = binder_sig(x)[0] if x.op in BINDERS else 0
        for a in x.args:
            if isinstance(a, T) and _blevel[a] > r:
                r = _blevel[a]
        _blevel[x] = r
        stack.pop()
    return _blevel[t]


def bound_phis(t):
    lvl, kinds = binder_sig(t)
    return [mk('phi', 'b', lvl, i, k) for i, k in enumerate(kinds)]


_fresh = [0]


def fresh_phi(kind):
    _fresh[0] += 1
    return mk('phi', 'p%d' % _fresh[0], kind)


NOLIFT = {'mu', 'bmu', 'lam', 'tuple', 'list', 'next', 'exit', 'obj', 'bag', 'raw', 'mask'}

_builders: dict = {}


def builder(op):
    """Register the smart constructor that rebuilds terms of this operator."""
    def deco(f):
        _builders[op] = f
        return f
    return deco


def rebuild(op, args):
    f = _builders.get(op)
    if f is not None:
        return f(*args)
    if op in NOLIFT:
        return mk(op, *args)
    return app(op, *args)


def mask(c):
    """A boolean array; its tests are made for each element."""
    if isinstance(c, T) and is_bool(c) and c.op != 'const':
        return mk('mask', c)
    return c


_builders['mask'] = mask


def app(op, *args):
    """Uninterpreted operator, lifted over conditionals in its arguments."""
    return lift(lambda *a: mk(op, *a), *args)


def lift(f, *args):
    """Apply `f` to the leaves of `args`, keeping the case distinctions.
    Boolean arguments are case-split as well."""
    best = None
    for a in args:
        if isinstance(a, T) and (a.op == 'ite' or a.op in BOOLEAN_OPS):
            y = _topatom(a)
            if best is None or y.key < best.key:
                best = y
    if best is None:
        return f(*args)
    if CUR['limit'] is not None:
        CUR['steps'] += 1
        if CUR['steps'] > CUR['limit']:
            raise Budget('lifting steps')
    hi = lift(f, *[_lc(a, best, True) for a in args])
    lo = lift(f, *[_lc(a, best, False) for a in args])
    return ite(best, hi, lo)


def _lc(a, atom, v):
    if not isinstance(a, T):
        return a
    if a is atom:
        return TRUE if v else FALSE
    if a.op == 'ite':
        return theory(cof(a, atom, v), atom, v)
    if a.op in BOOLEAN_OPS:
        w = implied(atom, v, a)
        if w is not None:
            return TRUE if w else FALSE
    return a


def lift_lazy(f, *args):
    """As `lift`, but boolean atoms are left alone (values, not conditions)."""
    best = None
    for a in args:
        if isinstance(a, T) and a.op == 'ite':
            y = a.args[0]
            if best is None or y.key < best.key:
                best = y
    if best is None:
        return f(*args)
    hi = lift_lazy(f, *[cof(a, best, True) if isinstance(a, T) and a.op == 'ite' else a for a in args])
    lo = lift_lazy(f, *[cof(a, best, False) if isinstance(a, T) and a.op == 'ite' else a for a in args])
    return ite(best, hi, lo)


# --------------------------------------------------------- substitution

_memo_sub: dict = {}


def subst(t, m):
    """Replace terms; the result is normalised again."""
    if not m:
        return t
    mk_ = frozenset(m.items())
    memo = _memo_sub.setdefault(mk_, {})
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    # iterative to keep the Python stack small on deep terms
    stack = [t]
    while stack:
        x = stack[-1]
        if x in memo:
            stack.pop()
            continue
        y = m.get(x)
        if y is not None:
            memo[x] = y
            stack.pop()
            continue
        if not x.args or x.op in ('const', 'sym', 'phi'):
            memo[x] = x
            stack.pop()
            continue
        if x.op in BINDERS:
            memo[x] = _subst_binder(x, m)
            stack.pop()
            continue
        todo = [a for a in x.args if isinstance(a, T) and a not in memo]
        if todo:
            stack.extend(todo)
            continue
        args = tuple(memo[a] if isinstance(a, T) else a for a in x.args)
        if args == x.args:
            memo[x] = x
        elif x.op == 'ite':
            memo[x] = ite(*args)
        else:
            memo[x] = rebuild(x.op, args)
        stack.pop()
    return memo[t]


def occurs_any(t, keys):
    seen = set()
    stack = [t]
    while stack:
        y = stack.pop()
        if y in keys:
            return True
        if y in seen:
            continue
        seen.add(y)
        stack.extend(a for a in y.args if isinstance(a, T))
    return False


_reopen = {}


def _subst_binder(x, m):
    if not occurs_any(x, m):
        return x
    # open the binder with fresh names, substitute, close it again
    old = bound_phis(x)
    m = {k: v for k, v in m.items() if k not in old}
    new = [fresh_phi(p.args[-1]) for p in old]
    ren = dict(zip(old, new))
    if x.op == 'lam':
        body = subst(subst(x.args[0], ren), m)
        return _builders['close_lam'](body, new)
    tree = subst(subst(x.args[0], ren), m)
    inits = [subst(a, m) for a in x.args[2:]]
    return _builders['close_mu'](tree, new, inits)


# ------------------------------------------------------------- printing

def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'const':
        v = t.args[1]
        if isinstance(v, Fraction):
            return str(v)
        return repr(v)
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'phi':
        return '$%s' % (t.args[-1],)
    if t.op == 'ref':
        return '&%s' % (t.args[0],)
    if depth <= 0:
        return '…'
    d = depth - 1
    a = t.args
    if t.op == 'ite':
        return 'if(%s ? %s : %s)' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if t.op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1])
    if t.op == 'poly':
        return '(' + ' + '.join(show(x, d) for x in a) + ')'
    if t.op == 'mono':
        ps = []
        if a[0] != 1 or len(a) == 1:
            ps.append(str(a[0]))
        for i in range(1, len(a), 2):
            ps.append(show(a[i], d) + ('' if a[i + 1] == 1 else '^%s' % a[i + 1]))
        return '*'.join(ps)
    if t.op == 'mask':
        return '⟦%s⟧' % show(a[0], d)
    if t.op == 'mm':
        return '[' + ' @ '.join(show(x, d) for x in a) + ']'
    if t.op == 'tr':
        return show(a[0], d) + '.T'
    if t.op == 'get':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if t.op == 'list':
        return '[' + ', '.join(show(x, d) for x in a) + ']'
    if t.op == 'tuple':
        return '(' + ', '.join(show(x, d) for x in a) + ')'
    if t.op == 'call':
        return '%s(%s)' % (a[0] if not isinstance(a[0], T) else show(a[0], d),
                           ', '.join(show(x, d) for x in a[1:]))
    return '%s(%s)' % (t.op, ', '.join(show(x, d) for x in a))
