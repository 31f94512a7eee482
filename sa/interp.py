"""Abstract interpretation of Python source into Herbrand terms.

Nothing of the analysed program is executed: statements transform a symbolic
store of terms, joins become decision diagrams, loops become canonical fixed
point terms (see loops.py), and calls to functions of the analysed packages
are inlined or, for the vocabulary of a check, kept as uninterpreted symbols.
"""
from __future__ import annotations

import ast
import builtins as _bi
from fractions import Fraction

from . import arith as A
from . import terms as tm
from .terms import (T, mk, num, const, sym, is_num, is_const, is_str, is_bool, val, TRUE, FALSE,
                    NONE, UNDEF, ZERO, ONE, ite, not_, and_, or_, restrict, lift, lift_lazy, subst,
                    Unsupported, Budget, leaves, map_leaves, refs, app, show)


class Dead(Exception):
    """The current state is unreachable."""


class State:
    __slots__ = ('m', 'pc')

    def __init__(self, m=None, pc=TRUE):
        self.m = {} if m is None else m
        self.pc = pc

    def copy(self, pc=None):
        return State(dict(self.m), self.pc if pc is None else pc)

    def take(self, other):
        self.m = other.m
        self.pc = other.pc


class Ctx:
    """One activation: scope chain and the exits collected so far."""
    __slots__ = ('mod', 'qual', 'owner', 'frames', 'returns', 'loops', 'globals', 'nonlocals',
                 'yields', 'selfterm', 'node', 'locals')

    def __init__(self, mod, qual, owner, frames):
        self.mod = mod
        self.qual = qual
        self.owner = owner
        self.frames = frames
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.yields = None
        self.selfterm = None
        self.node = None
        self.locals = set()


class LoopCtx:
    __slots__ = ('breaks', 'continues')

    def __init__(self):
        self.breaks = []
        self.continues = []


class Cfg:
    """Vocabulary and typing facts of one check."""

    def __init__(self, **kw):
        self.opaque = {}          # qualname or 'Class.method' or bare name -> handler/'pure'/'log'
        self.sym_types = {}       # symbol name -> class
        self.attr_types = {}      # attribute name -> class or builtin type name
        self.lengths = {}         # term -> its length, where given
        self.rewrite = None       # term -> term, applied to attribute terms
        self.scalar_attrs = set()
        self.int_attrs = set()
        self.sym_terms = None     # predicate: symmetric matrix
        self.vec_terms = None
        self.seq_attrs = set()
        self.scalar_terms = None
        self.seq_terms = None
        self.array_attrs = set()
        self.inline_depth = 40
        self.recursion = 1
        self.max_steps = 400_000
        self.ignore_calls = {'print', 'warnings.warn', 'warnings.catch_warnings',
                             'warnings.simplefilter'}
        self.exc_fields = set()   # exception classes whose fields are compared
        self.unroll = 80
        self.typeset = False      # blanks that only pad are not counted, digits of numbers are
        self.hooks = []           # (interp, fname, args, kw, st) -> term | None for ext calls
        self.globals_opaque = {}
        for k, v in kw.items():
            setattr(self, k, v)


def _int_attr_default(name):
    return name.startswith('n_') or name in ('periods', 'size')


class Interp:

    def __init__(self, repo, cfg):
        self.repo = repo
        self.cfg = cfg
        self.nref = 0
        self.nframe = 0
        self.cls_of = {}          # ref -> class qualname or builtin type
        self.clos = {}            # closure id -> (node, ctx-info, frames, defaults)
        self.raises = [[]]        # stack of sinks of (pc, m, exc term)
        self.catching = []        # stack of tuples of caught exception names
        self.stack = []
        self.inlined = set()      # functions of the analysed package that were inlined
        self.unknown = set()      # calls outside of the model
        self.assumed = set()
        self.nphi = 0
        self._mval = {}
        # what objects of the program itself (class attributes, module values,
        # defaults) hold before anything changes them
        self._initial = {}
        self._install()

    def _install(self):
        c = self.cfg

        def isint(t):
            if t.op == 'attr':
                return t.args[1] in c.int_attrs or _int_attr_default(t.args[1])
            if t.op == 'sym':
                return t.args[0] in c.int_attrs or _int_attr_default(t.args[0])
            if t.op == 'get' and t.args[0].op == 'attr' and t.args[0].args[1] == 'shape':
                return True
            return t.op in ('count', 'floordiv') and all(A.is_int(x) for x in t.args) or t.op == 'count'

        def scalar(t):
            if isint(t):
                return True
            if t.op in ('attr',) and t.args[1] in c.scalar_attrs:
                return True
            if t.op == 'sym' and t.args[0] in c.scalar_attrs:
                return True
            if c.scalar_terms and c.scalar_terms(t):
                return True
            if t.op == 'phi' and A.is_int(t):
                return True
            if t.op in ('wrap', 'poly', 'mono'):
                x = t.args[0] if t.op == 'wrap' else t
                return all(A._scalar(a) for k in A.poly(x) for a, e in k)
            return False

        A._pcache.clear()
        A.CFG['int'] = isint
        A.CFG['scalar'] = scalar
        A.CFG['sym'] = (lambda t: bool(c.sym_terms and c.sym_terms(t)))
        A.CFG['vec'] = (lambda t: bool(c.vec_terms and c.vec_terms(t)))

        def seq(t):
            if t.op == 'attr' and (t.args[1] in c.seq_attrs or c.attr_types.get(t.args[1]) in ('list', 'tuple', 'str')):
                return True
            if t.op == 'sym' and c.sym_types.get(t.args[0]) in ('list', 'tuple', 'str'):
                return True
            return bool(c.seq_terms and c.seq_terms(t))
        A.CFG['seq'] = seq
        tm.CUR['limit'] = c.max_steps
        tm.CUR['steps'] = 0

    # --------------------------------------------------------- store

    def new_ref(self, cls):
        self.nref += 1
        r = mk('ref', self.nref)
        self.cls_of[r] = cls
        return r

    def new_frame(self):
        self.nframe += 1
        return 'f%d' % self.nframe

    def content(self, t, st):
        """Current value of a container or array."""
        v = st.m.get((t, '#'))
        if v is not None:
            return restrict(v, st.pc) if v.op == 'ite' else v
        return t

    def set_content(self, t, v, st):
        for leaf in leaves(t):
            if leaf is t:
                st.m[(leaf, '#')] = v
            else:
                c = self._case(t, leaf)
                st.m[(leaf, '#')] = ite(c, v, self.content(leaf, st))

    def _case(self, t, leaf):
        return map_leaves(t, lambda x: TRUE if x is leaf else FALSE)

    def deref(self, t, st):
        """Replace top-level mutable locations by their contents."""
        if t.op == 'ite':
            return map_leaves(t, lambda x: self.deref(x, st))
        if t.op == 'dictof':
            xs = []
            for k, v in st.m.items():
                if k[0] is t.args[0] and not k[1].startswith('#'):
                    xs += [const(k[1]), v]
            return mk('dict', *xs)
        if t.op == 'ref':
            v = st.m.get((t, '#'))
            if v is not None:
                return self.deref(v, st) if v.op in ('ref', 'ite') else v
            return t
        v = st.m.get((t, '#'))
        return v if v is not None else t

    def R(self, t, st, _busy=None):
        """Snapshot: the structural value of `t` in this state."""
        if not refs(t) and t.op not in ('clo', 'bmeth', 'func') and (t.op in ('const', 'num') or not self._overlay(st)):
            return t
        return self._reify(t, st, {}, ())

    def _overlay(self, st):
        return any(k[1] == '#' and isinstance(k[0], T) and k[0].op != 'ref' for k in st.m)

    def _reify(self, t, st, memo, busy):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == 'ref':
            if t in busy:
                return mk('cycle', len(busy) - busy.index(t))
            v = st.m.get((t, '#'))
            b2 = busy + (t,)
            if v is not None:
                r = self._reify(v, st, memo if not busy else dict(memo), b2)
                r = self._sortdict(r)
                c = self.cls_of.get(t)
                fields = [(k[1], x) for k, x in st.m.items() if k[0] is t and k[1] != '#']
                if isinstance(c, str) and ':' in c and fields:
                    args = [c]
                    for name, x in sorted(fields, key=lambda q: q[0]):
                        args += [name, self._reify(x, st, {}, b2)]
                    args += ['#', r]
                    r = mk('obj', *args)
            else:
                cls = self.cls_of.get(t, '?')
                args = [cls]
                fields = sorted(((k[1], x) for k, x in st.m.items() if k[0] is t),
                                key=lambda q: q[0])
                for name, x in fields:
                    args += [name, self._reify(x, st, {}, b2)]
                r = mk('obj', *args)
            if not busy:
                memo[t] = r
            return r
        if t.op in ('const', 'sym', 'phi', 'ext', 'cls', 'mod'):
            return t
        v = st.m.get((t, '#'))
        if v is not None and t not in busy:
            r = self._reify(v, st, memo, busy + (t,))
            memo[t] = r
            return r
        if t.op == 'clo' or (t.op == 'func' and not self._is_opaque(t.args[0])) or t.op == 'bmeth':
            r = self._lambda_term(t, st)
            memo[t] = r
            return r
        if not any(isinstance(a, T) for a in t.args):
            return t
        args = tuple(self._reify(a, st, memo, busy) if isinstance(a, T) else a for a in t.args)
        if args == t.args:
            r = t
        elif t.op == 'ite':
            r = ite(*args)
        else:
            r = tm.rebuild(t.op, args)
        memo[t] = r
        return r

    def _sortdict(self, r):
        if r.op == 'dict' and len(r.args) > 2:
            ps = sorted(((r.args[i], r.args[i + 1]) for i in range(0, len(r.args), 2)),
                        key=lambda p: p[0].key)
            return mk('dict', *[x for p in ps for x in p])
        return r

    def _lambda_term(self, t, st):
        """Canonical term of a function value."""
        if t.op == 'bmeth':
            if self._is_opaque(t.args[1], t.args[0]):
                return mk('bmeth', self._reify(t.args[0], st, {}, ()), t.args[1])
        node = self._fnode(t)
        if node is None:
            return t
        a = node.args
        if a.vararg or a.kwarg or a.kwonlyargs:
            return mk('funcval', t.args[0]) if t.op == 'func' else mk('opaque_lambda', t.args[0])
        ps = [x.arg for x in a.posonlyargs + a.args]
        if t.op == 'bmeth':
            ps = ps[1:]
        if len(self.stack) > self.cfg.inline_depth or any(q == ('lam', node) for q in self.stack):
            return mk('funcval', str(t.args[0]))
        self.nphi += 1
        n = self.nphi
        bound = [tm.fresh_phi('v') for i in range(len(ps))]
        s2 = st.copy()
        self.stack.append(('lam', node))
        self.raises.append([])
        keep = self.catching
        self.catching = []
        try:
            try:
                v = self.call(t, list(bound), {}, s2)
                v = self.R(v, s2)
            except Dead:
                v = UNDEF
            for pc, m, e in self.raises[-1]:
                v = ite(restrict(pc, st.pc), mk('raise', self._exc_name(e)), v)
        finally:
            self.raises.pop()
            self.catching = keep
            self.stack.pop()
        v = restrict(v, st.pc)
        return mklam(bound, v)

    # ------------------------------------------------------- merging

    def merge2(self, a, b):
        care = or_(a.pc, b.pc)
        g = restrict(a.pc, care)
        m = {}
        am, bm = a.m, b.m
        for k, v in am.items():
            w = bm.get(k)
            if w is v:
                m[k] = v
            elif w is None:
                d = self._default(k)
                if d is None:
                    m[k] = v
                else:
                    m[k] = ite(g, v, d)
            elif k[1] == '#log':
                m[k] = self._merge_log(g, v, w)
            else:
                m[k] = ite(g, v, w)
        for k, w in bm.items():
            if k not in am:
                d = self._default(k)
                m[k] = w if d is None else ite(g, d, w)
        return State(m, care)

    def _merge_log(self, g, v, w):
        return ite(g, v, w)

    def _default(self, k):
        loc, f = k
        if k in self._initial:
            return self._initial[k]
        if isinstance(loc, T) and loc.op != 'ref':
            if f == '#':
                return loc
            if f.startswith('#'):
                return None
            return self.attr_default(loc, f)
        if f == '#log':
            return mk('nolog')
        return None

    def merge(self, states):
        states = [s for s in states if s is not None and s.pc is not FALSE]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def branch(self, st, cond, ft, ff):
        """Evaluate two alternatives; `st` becomes their join."""
        c = restrict(cond, st.pc)
        if c is TRUE:
            return ft(st)
        if c is FALSE:
            return ff(st)
        s1 = st.copy(and_(st.pc, c))
        s2 = st.copy(and_(st.pc, not_(c)))
        v1 = v2 = None
        ok1 = ok2 = s1.pc is not FALSE
        ok2 = s2.pc is not FALSE
        if ok1:
            try:
                v1 = ft(s1)
            except Dead:
                ok1 = False
        if ok2:
            try:
                v2 = ff(s2)
            except Dead:
                ok2 = False
        if ok1 and s1.pc is FALSE:
            ok1 = False
        if ok2 and s2.pc is FALSE:
            ok2 = False
        if not ok1 and not ok2:
            st.pc = FALSE
            raise Dead()
        if not ok2:
            st.take(s1)
            return v1
        if not ok1:
            st.take(s2)
            return v2
        g = restrict(s1.pc, or_(s1.pc, s2.pc))
        st.take(self.merge2(s1, s2))
        if v1 is None:
            return v2
        if v2 is None:
            return v1
        return ite(g, v1, v2)

    # ---------------------------------------------------- exceptions

    def raise_(self, st, exc, cond=TRUE):
        """Leave the current state with `exc` where `cond` holds."""
        c = restrict(cond, st.pc)
        if c is FALSE:
            return
        pc = and_(st.pc, c)
        if pc is not FALSE:
            self.raises[-1].append((pc, dict(st.m), exc))
        st.pc = and_(st.pc, not_(c))
        if st.pc is FALSE:
            raise Dead()

    def may_raise(self, st, names, ok):
        """An operation that raises one of `names` unless `ok`."""
        if ok is FALSE:
            # certain to fail
            self.raise_(st, mk('exc', names[0]), TRUE)
            return
        if not self.catching:
            return
        for caught in self.catching:
            for n in names:
                if self._caught(n, caught):
                    self.raise_(st, mk('exc', n), not_(ok))
                    return

    def _caught(self, name, caught):
        return any(self._exc_sub(name, c) for c in caught)

    def _exc_sub(self, name, base):
        if name == 'Diverges':
            return False
        if base in ('Exception', 'BaseException') or name == base:
            return True
        if ':' in name:
            for b in self.repo.mro(name):
                if b == base or b == 'builtins.' + base:
                    return True
                if ':' not in b and self._bi_sub(b.replace('builtins.', ''), base):
                    return True
            return False
        return self._bi_sub(name, base)

    def _bi_sub(self, a, b):
        x, y = getattr(_bi, a, None), getattr(_bi, b, None)
        try:
            return issubclass(x, y)
        except TypeError:
            return a == b or a.split('.')[-1] == b.split('.')[-1]

    def _exc_name(self, e):
        if e.op == 'exc':
            return e.args[0]
        if e.op == 'ref':
            return self.cls_of.get(e, '?')
        if e.op == 'cls':
            return e.args[0]
        if e.op == 'ext':
            return e.args[0].replace('builtins.', '')
        if e.op == 'obj':
            return e.args[0]
        if e.op == 'raise':
            return e.args[0]
        return 'Exception'

    # ---------------------------------------------------- attributes

    def attr_default(self, t, name):
        r = mk('attr', t, name)
        if self.cfg.rewrite is not None:
            r2 = self.cfg.rewrite(r)
            if r2 is not None:
                return r2
        return r

    def hint(self, t):
        """Class of a symbolic term, if known."""
        c = self.cls_of.get(t)
        if c is not None:
            return c
        h = None
        if t.op == 'attr':
            h = self.cfg.attr_types.get(t.args[1])
        elif t.op == 'sym':
            h = self.cfg.sym_types.get(t.args[0])
        elif t.op == 'new':
            h = t.args[0]
        elif t.op in ('list', 'concat', 'append', 'sorted'):
            h = 'list'
        elif t.op == 'tuple':
            h = 'tuple'
        elif t.op in ('dict', 'setkey'):
            h = 'dict'
        elif t.op in ('set', 'setadd'):
            h = 'set'
        elif t.op in ('fstr', 'strof', 'char') or is_str(t):
            h = 'str'
        elif t.op in ('poly', 'mono') or is_num(t):
            h = 'num'
        elif t.op == 'obj':
            h = t.args[0]
        elif t.op == 'call':
            h = self.cfg.attr_types.get('call:' + t.args[0]) if isinstance(t.args[0], str) else None
        elif t.op == 'get':
            h = self._elem_hint(t)
        if h is None and getattr(self.cfg, 'typeof', None):
            h = self.cfg.typeof(t)
        return h

    def _elem_hint(self, t):
        b = t.args[0]
        if b.op == 'attr':
            return self.cfg.attr_types.get(b.args[1] + '[]')
        if b.op == 'sym':
            return self.cfg.sym_types.get(b.args[0] + '[]')
        return None

    def get_attr(self, t, name, st, node=None):
        t = restrict(t, st.pc)
        if t.op == 'ite' :
            c, a, b = t.args
            return self.branch(st, c, lambda s: self.get_attr(a, name, s, node),
                               lambda s: self.get_attr(b, name, s, node))
        v = st.m.get((t, name))
        if v is not None:
            return v
        op = t.op
        if op == 'mod':
            return self.mod_attr(t.args[0], name, st)
        if op == 'ext':
            if name == '__name__' and t.args[0].startswith('builtins.'):
                return const(t.args[0][9:])
            return self.norm_ext(t.args[0] + '.' + name)
        if op == 'super':
            return self.class_member(t.args[1], t.args[0], name, st, after=t.args[2])
        if op == 'cls':
            return self.cls_attr(t, name, st)
        if op == 'obj':
            a = t.args
            for i in range(1, len(a) - 1, 2):
                if a[i] == name:
                    return a[i + 1]
        h = self.hint(t)
        if h is not None and ':' in h:
            r = self.class_member(t, h, name, st)
            if r is not None:
                return r
            if op == 'ref' and name == '__class__':
                return mk('cls', h)
            if name == '__dict__' and op == 'ref':
                return mk('dictof', t)
            if op == 'ref' and not self.repo.ext_bases(h):
                ga = self.repo.member(h, '__getattr__')
                if ga:
                    return self.call_func(ga[1], ga[2], [t, const(name)], {}, st, owner=ga[2], selft=t)
                self.may_raise(st, ['AttributeError'], FALSE)
                return mk('noattr', h, name)
        if op == 'ref' and h is not None and ':' not in h:
            return self.ext_attr(t, name, st)
        if name == '__class__':
            return mk('typeof', t) if h is None or h == 'num' else mk('cls', h) if ':' in h else mk('ext', 'builtins.' + h)
        x = self.np_attr(t, name, st)
        if x is not None:
            return x
        if op == 'func' and name in ('__name__', '__qualname__'):
            return const(t.args[0].split(':')[-1])
        if op in ('tuple', 'dict', 'set', 'fstr') and self.has_attr(t, name, st) is FALSE or self.lacks(t, h, name):
            self.may_raise(st, ['AttributeError'], FALSE)
            return mk('noattr', op, name)
        r = self.attr_default(t, name)
        if self.catching and r.op == 'attr' and (h is None) and op not in ('const',):
            self.may_raise(st, ['AttributeError'], mk('hasattr', t, name))
        return r

    def lacks(self, t, h, name):
        """Whether no text, number or None, of numpy or not, has an attribute."""
        if t is NONE:
            return not hasattr(None, name)
        return (t.op == 'const' or h == 'num') and name in (
            'name', 'names', 'vtype', 'get', 'items', 'keys', 'values', 'update', 'setdefault', 'append', 'extend', 'insert', 'value', 'token', 'left', 'right')

    def ext_attr(self, t, name, st):
        x = self.np_attr(t, name, st)
        if x is not None:
            return x
        if self.hint(t) in ('dict', 'list', 'set') and hasattr({'dict': dict, 'list': list, 'set': set}[self.hint(t)], name):
            return mk('attr', t, name)
        return self.attr_default(self.R(t, st), name)

    def np_attr(self, t, name, st):
        return None

    def has_attr(self, t, name, st):
        t = restrict(t, st.pc)
        if t.op == 'ite':
            c, a, b = t.args
            return ite(c, self.has_attr(a, name, st), self.has_attr(b, name, st))
        if (t, name) in st.m:
            v = st.m[(t, name)]
            return TRUE
        h = self.hint(t)
        if h is not None and ':' in h:
            if self.repo.member(h, name):
                return TRUE
            if t.op == 'ref':
                return FALSE
        if t.op == 'obj':
            return TRUE if name in t.args[1::2] else FALSE
        if t.op in ('list', 'tuple', 'dict', 'set', 'const', 'poly', 'mono', 'fstr'):
            py = {'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'fstr': str}.get(t.op)
            if py is None:
                py = {'num': float, 'str': str, 'none': type(None), 'bool': bool}.get(
                    t.args[0] if t.op == 'const' else 'num', float)
            return TRUE if hasattr(py, name) else FALSE
        c = self.cls_of.get(t)
        if c in ('list', 'dict', 'set', 'tuple', 'str'):
            return TRUE if hasattr(getattr(_bi, c), name) else FALSE
        return mk('hasattr', t, name)

    def class_member(self, t, qual, name, st, after=None):
        m = self.repo.member(qual, name, after)
        if m is None:
            return None
        kind, node, owner = m
        q = '%s.%s' % (owner, name)
        if kind == 'prop':
            o = self._is_opaque(q, t)
            if o:
                if callable(o):
                    return o(self, [t], {}, st)
                return self.attr_default(t, name)
            v = self.call_func(node, q, [t], {}, st, owner=owner, selft=t)
            if t.op == 'ref' and any(ast.unparse(d).endswith('cached_property') for d in node.decorator_list):
                st.m[(t, name)] = v
            return v
        if kind == 'func':
            if name in ('__init_subclass__',):
                return None
            return mk('bmeth', t, q)
        if kind == 'cm':
            c = t if t.op == 'cls' else mk('cls', self.hint(t) or qual)
            return mk('bmeth', c, q)
        if kind == 'sm':
            return mk('func', q)
        if kind == 'value':
            return self.class_value(owner, name, node, st)
        return None

    def class_value(self, owner, name, node, st):
        k = ('cls', owner, name)
        if k in self._mval:
            return self.standing(k, st)
        c = self.repo.cls(owner)
        cx = Ctx(c.mod.name, owner, owner, [])
        fr = self.new_frame()
        cx.frames = [fr]
        # class-level names see earlier class-level names
        s2 = State({}, TRUE)
        for n2, (k2, nd2) in c.members.items():
            if n2 == name:
                break
            if k2 == 'value' and _simple(nd2):
                try:
                    s2.m[(fr, n2)] = self.eval(nd2, s2, cx)
                except Unsupported:
                    pass
        v = self.eval(node, s2, cx)
        return self.standing(k, st, v, s2)

    def standing(self, k, st, v=None, made=None):
        """A value that the program makes once; one location for all uses."""
        if made is not None:
            cells = [(kk, x) for kk, x in made.m.items() if isinstance(kk[0], T)]
            self._mval[k] = (v, cells)
            self._initial.update(cells)
        v, cells = self._mval[k]
        for c, x in cells:
            st.m.setdefault(c, x)
        return v

    def cls_attr(self, t, name, st):
        q = t.args[0]
        if name == '__name__':
            return const(q.split(':')[-1].split('.')[-1])
        if ':' in q:
            m = self.repo.member(q, name)
            if m is not None:
                kind, node, owner = m
                qn = '%s.%s' % (owner, name)
                if kind == 'cm':
                    return mk('bmeth', t, qn)
                if kind in ('func', 'sm', 'prop'):
                    return mk('func', qn)
                return self.class_value(owner, name, node, st)
            if name == '__new__' or name == '__init__':
                return mk('ext', 'builtins.object.' + name)
            if name == '__mro__':
                return mk('tuple', *[mk('cls', x) for x in self.repo.mro(q)])
        return self.attr_default(t, name)

    def mod_attr(self, modname, name, st):
        v = st.m.get(('glob:' + modname, name))
        if v is not None:
            return v
        key = modname + ':' + name
        o = self.cfg.globals_opaque.get(key)
        if o is not None:
            return o
        r = self.repo.resolve(modname, name)
        if r is None:
            if hasattr(_bi, name):
                return mk('ext', canon_ext('builtins.' + name))
            if name == '__name__':
                return const(modname)
            if name in ('__file__', '__path__'):
                return mk('sym', modname + '.' + name)
            raise Unsupported('unresolved name %s in %s' % (name, modname))
        kind, p = r
        if kind == 'func':
            return mk('func', p)
        if kind == 'class':
            return mk('cls', p)
        if kind == 'mod':
            return mk('mod', p)
        if kind == 'ext':
            return self.norm_ext(p)
        k = ('mod', p[0], p[1])
        if k in self._mval:
            return self.standing(k, st)
        if k in self.stack:
            raise Unsupported('cyclic module value %s' % (p[1],))
        o = self.cfg.globals_opaque.get(p[0] + ':' + p[1])
        if o is not None:
            return o
        cx = Ctx(p[0], p[0], None, [])
        s2 = State({}, TRUE)
        self.stack.append(k)
        try:
            if kind == 'item':
                v = self.eval(p[2], s2, cx)
                v = self.get_item(v, num(p[3]), s2)
            else:
                v = self.eval(p[2], s2, cx)
        finally:
            self.stack.pop()
        return self.standing(k, st, v, s2)

    def norm_ext(self, p):
        return mk('ext', canon_ext(p))

    def set_attr(self, t, name, v, st):
        t = restrict(t, st.pc)
        if t.op == 'ite':
            for leaf in leaves(t):
                c = self._case(t, leaf)
                old = st.m.get((leaf, name))
                if old is None:
                    old = self.attr_default(leaf, name) if leaf.op != 'ref' else UNDEF
                st.m[(leaf, name)] = ite(c, v, old)
            return
        h = self.hint(t)
        if h is not None and ':' in h:
            s = self.repo.member(h, name + '.setter')
            if s:
                self.call_func(s[1], '%s.%s.setter' % (s[2], name), [t, v], {}, st, owner=s[2], selft=t)
                return
            m = self.repo.member(h, name)
            if m and m[0] == 'prop' and getattr(m[1], 'decorator_list', None) and any(
                    isinstance(d, ast.Name) and d.id == 'property' for d in m[1].decorator_list):
                self.may_raise(st, ['AttributeError'], FALSE)
                return
        st.m[(t, name)] = v

    # ------------------------------------------------------- opacity

    def _is_opaque(self, qual, recv=None):
        o = self.cfg.opaque
        if not o:
            return None
        if qual in o:
            return o[qual]
        short = qual.split(':')[-1]
        if short in o:
            return o[short]
        last = short.split('.')[-1]
        if ('*.' + last) in o and '.' in short:
            return o['*.' + last]
        return None


def _simple(n):
    return isinstance(n, (ast.Constant, ast.Name, ast.Attribute, ast.List, ast.Tuple, ast.Dict, ast.Set,
                          ast.BinOp, ast.UnaryOp, ast.Call, ast.JoinedStr))


_EXT_SYN = {
    'autograd.numpy': 'numpy', 'scipy.linalg.inv': 'numpy.linalg.inv',
    'scipy.linalg.cholesky': 'scipy.linalg.cholesky',
    'scipy.linalg.solve': 'numpy.linalg.solve', 'scipy.linalg.kron': 'numpy.kron',
    'numpy.absolute': 'numpy.abs', 'builtins.abs': 'numpy.abs', 'numpy.core': 'numpy',
    'math.sqrt': 'numpy.sqrt', 'math.exp': 'numpy.exp', 'math.log': 'numpy.log',
    'numpy.matmul': 'numpy.dot', 'numpy.concat': 'numpy.concatenate',
    'numpy.linalg.LinAlgError': 'numpy.linalg.LinAlgError',
    'scipy.linalg.LinAlgError': 'numpy.linalg.LinAlgError',
    'numpy.in1d': 'numpy.isin', 'numpy.alltrue': 'numpy.all', 'builtins.max': 'builtins.max',
    'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.row_stack': 'numpy.vstack',
    'numpy.asanyarray': 'numpy.asarray', 'numpy.power': 'numpy.power', 'numpy.float64': 'builtins.float',
    'numpy.true_divide': 'numpy.divide', 'copy': 'copy',
}


def canon_ext(p):
    if p in _EXT_SYN:
        return _EXT_SYN[p]
    for a in ('autograd.numpy', 'autograd.scipy'):
        if p == a or p.startswith(a + '.'):
            p = a.split('.')[-1] + p[len(a):]
    return _EXT_SYN.get(p, p)


def mklam(bound, body):
    """Function value with canonically named parameters: lam(body, sig)."""
    lvl = tm.binder_level(body) + 1
    kinds = tuple('v' for b in bound)
    m = {b: mk('phi', 'b', lvl, i, 'v') for i, b in enumerate(bound)}
    return mk('lam', subst(body, m), (lvl, kinds))


tm._builders['close_lam'] = lambda body, new: mklam(new, body)
