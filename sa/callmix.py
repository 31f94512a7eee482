"""Calls: inlining, the vocabulary of a check, builtins, container methods."""
from __future__ import annotations

import ast
import itertools
import re
import posixpath
import builtins as _bi

from . import arith as A
from . import containers as C
from . import terms as tm
from . import grids
from .terms import (T, mk, num, const, is_num, is_const, is_str, is_bool, val, TRUE, FALSE, NONE,
                    UNDEF, ZERO, ONE, ite, not_, and_, or_, restrict, lift, lift_lazy, subst,
                    Unsupported, leaves, map_leaves, refs, app)
from .interp import State, Ctx, LoopCtx, Dead, canon_ext


class CallMixin:

    # ------------------------------------------------------ dispatch

    def _fnode(self, t):
        if t.op == 'clo':
            return self.clos[t.args[0]][0]
        if t.op == 'func':
            return self.repo.func(t.args[0])
        if t.op == 'bmeth':
            return self.repo.func(t.args[1])
        return None

    def call(self, f, args, kw, st):
        f = restrict(f, st.pc)
        op = f.op
        if op == 'ite':
            c, a, b = f.args
            return self.branch(st, c, lambda s: self.call(a, args, kw, s),
                               lambda s: self.call(b, args, kw, s))
        if op == 'clo':
            node, mod, qual, owner, frames, defaults, kwd, selft = self.clos[f.args[0]]
            return self.invoke(node, mod, qual, owner, frames, args, kw, st, defaults, kwd, selft)
        if op == 'func':
            return self.call_func(None, f.args[0], args, kw, st)
        if op == 'bmeth':
            q = f.args[1]
            owner = q.rsplit('.', 1)[0]
            return self.call_func(None, q, [f.args[0]] + args, kw, st, owner=owner, selft=f.args[0])
        if op == 'cls':
            return self.instantiate(f.args[0], args, kw, st)
        if op == 'ext':
            return self.call_ext(f.args[0], args, kw, st)
        if op == 'attr' and (self.hint(f.args[0]) in ('dict', 'list', 'set', 'tuple', 'str')) and \
                hasattr(getattr(_bi, self.hint(f.args[0])), f.args[1]):
            return self.call_method(f.args[0], f.args[1], args, kw, st)
        if op == 'extmeth':
            return self.call_method(f.args[0], f.args[1], args, kw, st)
        if op == 'partial':
            fargs = list(f.args[1].args) + args
            k2 = {}
            for i in range(2, len(f.args), 2):
                k2[f.args[i]] = f.args[i + 1]
            k2.update(kw)
            return self.call(f.args[0], fargs, k2, st)
        if op == 'ntcls':
            vals = dict(zip(f.args, args))
            vals.update(kw)
            if set(vals) != set(f.args) or any(a.op == 'star' for a in args):
                raise Unsupported('namedtuple call')
            r = self.new_ref('namedtuple')
            st.m[(r, '#')] = mk('tuple', *[vals[n] for n in f.args])
            for n in f.args:
                st.m[(r, n)] = vals[n]
            return r
        if op == 'lam':
            ps = tm.bound_phis(f)
            if len(ps) == len(args) and not kw:
                return subst(f.args[0], dict(zip(ps, [self.R(a, st) for a in args])))
        if op == 'ref' and self.cls_of.get(f) and ':' in self.cls_of[f]:
            m = self.repo.member(self.cls_of[f], '__call__')
            if m:
                return self.call_func(m[1], '%s.__call__' % m[2], [f] + args, kw, st, owner=m[2], selft=f)
        h = self.hint(f)
        if h is not None and ':' in h:
            m = self.repo.member(h, '__call__')
            if m:
                return self.call_func(m[1], '%s.__call__' % m[2], [f] + args, kw, st, owner=m[2], selft=f)
        if op == 'attr':
            o = self.cfg.opaque.get('@' + f.args[1])
            if o is not None:
                return self.opaque_call(o, '@' + f.args[1], [f.args[0]] + args, kw, st)
        if op in ('list', 'dict', 'const', 'tuple'):
            self.may_raise(st, ['TypeError'], FALSE)
        t = self.pure_call('apply', [f] + args, kw, st)
        self.may_raise(st, ['Exception'], mk('ok', t))
        return t

    def pure_call(self, name, args, kw, st):
        ts = [self.R(self.deref(a, st), st) for a in args]
        for k in sorted(kw):
            ts.append(self._kwterm(k, self.R(self.deref(kw[k], st), st)))
        return call_term(name, *ts)

    def _kwterm(self, k, v):
        # keyword arguments keep their names; conditions inside are lifted
        return app('kw', k, v)

    def _unkw(self, x):
        return x.args

    def opaque_call(self, how, name, args, kw, st):
        if callable(how):
            return how(self, args, kw, st)
        if how == 'log':
            t = self.pure_call(name, args, kw, st)
            self.log(t, st)
            return t
        if how == 'world':
            w = st.m.get(('#', '#log'), mk('nolog'))
            t = self.pure_call(name, args + [mk('world', w)], kw, st)
            self.log(t, st)
            return t
        return self.pure_call(name, args, kw, st)

    def log(self, t, st):
        w = st.m.get(('#', '#log'), mk('nolog'))
        st.m[('#', '#log')] = mk('log', w, t)

    def call_attr(self, recv, name, args, kw, st):
        recv = restrict(recv, st.pc)
        if recv.op == 'ite':
            c, a, b = recv.args
            return self.branch(st, c, lambda s: self.call_attr(a, name, args, kw, s),
                               lambda s: self.call_attr(b, name, args, kw, s))
        v = st.m.get((recv, name))
        if v is not None:
            return self.call(v, args, kw, st)
        if recv.op in ('mod', 'ext'):
            return self.call(self.get_attr(recv, name, st), args, kw, st)
        if recv.op == 'super':
            f = self.class_member(recv.args[1], recv.args[0], name, st, after=recv.args[2])
            if f is None:
                if name == '__init__':
                    s = recv.args[1]
                    if s.op == 'ref' and self._is_exc(recv.args[0]):
                        st.m[(s, 'args')] = mk('tuple', *[self.R(a, st) for a in args])
                    return NONE
                if name == '__new__':
                    return self.new_object(args[0].args[0], st) if args and args[0].op == 'cls' else self.pure_call('super.__new__', args, kw, st)
                return self.pure_call('super.' + name, [recv.args[1]] + args, kw, st)
            if name == '__new__' and f.op == 'bmeth':
                f = mk('func', f.args[1])
            return self.call(f, args, kw, st)
        if recv.op == 'cls':
            if ':' in recv.args[0]:
                m = self.repo.member(recv.args[0], name)
                if m is not None:
                    return self.call(self.get_attr(recv, name, st), args, kw, st)
                if name == '__new__':
                    return self.new_object(args[0].args[0], st)
        h = self.hint(recv)
        if h is not None and ':' in h:
            q0 = self.repo.member(h, name)
            if q0 is None:
                o = self.cfg.opaque.get('*.' + name)
                if o is not None:
                    return self.opaque_call(o, '*.' + name, [recv] + args, kw, st)
            f = self.class_member(recv, h, name, st)
            if f is not None:
                return self.call(f, args, kw, st)
            ga = self.repo.member(h, '__getattr__')
            if recv.op == 'ref' and (ga or ':' in h and not self.repo.ext_bases(h) and not name.startswith('__')):
                return self.call(self.get_attr(recv, name, st), args, kw, st)
        elif h is None:
            o = self.cfg.opaque.get('*.' + name)
            if o is not None:
                return self.opaque_call(o, '*.' + name, [recv] + args, kw, st)
        return self.call_method(recv, name, args, kw, st)

    # ------------------------------------------------------ inlining

    def call_func(self, node, qual, args, kw, st, owner=None, selft=None):
        how = self._is_opaque(qual, selft)
        if how is not None:
            key = qual.split(':')[-1]
            if not callable(how):
                n2 = self.repo.func(qual)
                if n2 is not None:
                    args, kw = self.bind_positional(n2, args, kw)
            r = self.opaque_call(how, self._opname(qual), args, kw, st)
            if r is not None:
                return r
        if node is None:
            node = self.repo.func(qual)
        if node is None:
            raise Unsupported('no source for %s' % qual)
        mod = qual.split(':')[0]
        if owner is None and '.' in qual.split(':')[1]:
            owner = qual.rsplit('.', 1)[0]
        if selft is None and owner is not None and args:
            selft = args[0]
        decos = [ast.unparse(d) for d in node.decorator_list]
        special = [d for d in decos if d not in ('property', 'cached_property', 'classmethod', 'staticmethod',
                                                 'functools.cached_property', 'abstractmethod',
                                                 'abc.abstractmethod')
                   and not d.endswith('.setter')
                   and not d.startswith(('functools.lru_cache', 'lru_cache', 'functools.cache', 'functools.wraps', 'jit', 'njit'))]
        if special:
            raise Unsupported('decorator %s' % special[0])
        self.inlined.add(qual)
        return self.invoke(node, mod, qual, owner, [], args, kw, st, None, None, selft)

    def _opname(self, qual):
        o = self.cfg.opaque
        short = qual.split(':')[-1]
        last = short.split('.')[-1]
        if qual in o:
            return short
        if short in o:
            return short
        return '*.' + last

    def bind_positional(self, node, args, kw):
        names = [a.arg for a in node.args.posonlyargs + node.args.args]
        out = list(args)
        kw = dict(kw)
        while len(out) < len(names) and names[len(out)] in kw:
            out.append(kw.pop(names[len(out)]))
        return out, kw

    def default_value(self, node, i, expr, mod, st, kwonly=False):
        k = ('default', node, i, kwonly)
        if k in self._mval:
            return self.standing(k, st)
        cx = Ctx(mod, '<default>', None, [])
        s2 = State({}, TRUE)
        v = self.eval(expr, s2, cx)
        return self.standing(k, st, v, s2)

    def invoke(self, node, mod, qual, owner, frames, args, kw, st, defaults, kwd, selft):
        if len(self.stack) > self.cfg.inline_depth:
            raise Unsupported('call depth at %s' % qual)
        if self.stack.count(('call', node)) > self.cfg.recursion:
            return self.pure_call('rec:' + qual.split(':')[-1], args, kw, st)
        a = node.args
        fr = self.new_frame()
        cx = Ctx(mod, qual, owner, [fr] + list(frames))
        cx.selfterm = selft
        cx.node = node
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        bound = {}
        rest = []
        if any(x.op == 'star' for x in args):
            # *args of unknown length: only for a callee that takes *args
            if a.vararg is None or len(names) > next(i for i, x in enumerate(args) if x.op == 'star'):
                raise Unsupported('starred call')
        for i, v in enumerate(args):
            if i < len(names) and v.op != 'star':
                bound[names[i]] = v
            else:
                rest.append(v)
        if rest and a.vararg is None:
            self.may_raise(st, ['TypeError'], FALSE)
        if a.vararg is not None:
            if any(x.op == 'star' for x in rest):
                bound[a.vararg.arg] = A.concat(*[x.args[0] if x.op == 'star' else mk('tuple', x) for x in rest])
            else:
                bound[a.vararg.arg] = mk('tuple', *rest)
        konly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in konly:
                if k in bound:
                    self.may_raise(st, ['TypeError'], FALSE)
                bound[k] = v
            elif k == '**':
                extra['**'] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            if '**' not in extra:
                self.may_raise(st, ['TypeError'], FALSE)
            raise Unsupported('unexpected keyword %s for %s' % (sorted(extra)[0], qual))
        if a.kwarg is not None:
            r = self.new_ref('dict')
            c = extra.pop('**', mk('dict'))
            for k, v in extra.items():
                c = C.setkey(c, const(k), v)
            st.m[(r, '#')] = c
            bound[a.kwarg.arg] = r
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            nm = names[len(names) - nd + i]
            if nm not in bound:
                bound[nm] = defaults[i] if defaults is not None else self.default_value(node, i, d, mod, st)
        for i, d in enumerate(a.kw_defaults):
            if konly[i] not in bound:
                if d is None:
                    self.may_raise(st, ['TypeError'], FALSE)
                bound[konly[i]] = kwd[i] if kwd is not None else self.default_value(node, i, d, mod, st, True)
        for nm in names:
            if nm not in bound:
                if '**' in kw:
                    raise Unsupported('missing argument %s of %s' % (nm, qual))
                self.may_raise(st, ['TypeError'], FALSE)
        for k, v in bound.items():
            st.m[(fr, k)] = v
        gen = _is_gen(node)
        if gen:
            cx.yields = self.new_ref('list')
            st.m[(cx.yields, '#')] = mk('list')
        self.stack.append(('call', node))
        ncl = len(self.clos)
        src = tm.CUR['src']
        try:
            if isinstance(node, ast.Lambda):
                v = self.eval(node.body, st, cx)
                ends = [(st.copy(), v)]
            else:
                s = st.copy()
                try:
                    self.exec_block(node.body, s, cx)
                    ends = [(s, NONE)]
                except Dead:
                    ends = []
                ends = cx.returns + ends
        finally:
            self.stack.pop()
            tm.CUR['src'] = src
        key = ('#ret%d' % self.nframe, 'v')
        states = []
        for s, v in ends:
            if s.pc is FALSE:
                continue
            s.m[key] = v
            states.append(s)
        r = self.merge(states)
        if r is None:
            st.pc = FALSE
            raise Dead()
        st.take(r)
        v = st.m.pop(key)
        if len(self.clos) == ncl:
            for k in [k for k in st.m if k[0] == fr]:
                del st.m[k]
        if gen:
            return cx.yields
        return restrict(v, st.pc) if v.op == 'ite' else v

    # ------------------------------------------------- instantiation

    def _is_exc(self, q):
        for b in self.repo.mro(q):
            if ':' not in b:
                x = getattr(_bi, b.split('.')[-1], None)
                if isinstance(x, type) and issubclass(x, BaseException):
                    return True
        return False

    def new_object(self, q, st):
        return self.new_ref(q)

    def instantiate(self, q, args, kw, st):
        how = self._is_opaque(q)
        if how is None and q.split(':')[-1] in self.cfg.opaque:
            how = self.cfg.opaque[q.split(':')[-1]]
        if how is not None:
            ini = self.repo.member(q, '__init__')
            if ini is not None and not callable(how):
                a2, kw = self.bind_positional(ini[1], [NONE] + list(args), kw)
                args = a2[1:]
            if callable(how):
                return how(self, args, kw, st)
            ts = [self.R(a, st) for a in args] + [mk('kw', k, self.R(kw[k], st)) for k in sorted(kw)]
            return mk('new', q, *ts)
        new = self.repo.member(q, '__new__')
        if new is not None:
            self.inlined.add('%s.__new__' % new[2])
            obj = self.call_func(new[1], '%s.__new__' % new[2], [mk('cls', q)] + args, kw, st,
                                 owner=new[2], selft=mk('cls', q))
            init = self.repo.member(q, '__init__')
            if init is None:
                return obj
        else:
            obj = self.new_object(q, st)
        init = self.repo.member(q, '__init__')
        if init is not None:
            self.call_func(init[1], '%s.__init__' % init[2], [obj] + args, kw, st, owner=init[2], selft=obj)
        elif self._is_exc(q):
            st.m[(obj, 'args')] = mk('tuple', *[self.R(a, st) for a in args])
        elif args or kw:
            eb = self.repo.ext_bases(q)
            if eb:
                st.m[(obj, '#base')] = self.pure_call('base:' + eb[0], args, kw, st)
            else:
                raise Unsupported('arguments for %s' % q)
        return obj

    # --------------------------------------------- lists and lookups

    def as_list(self, v, st):
        """The sequence of elements of an iterable, as a term."""
        v = restrict(v, st.pc)
        d = self.deref(v, st)
        if d.op == 'ite':
            return map_leaves(d, lambda x: self.as_list(x, st))
        items = self.iter_known(d, st)
        if items is not None:
            return mk('list', *items)
        return self.iter_sym(d, st)

    def iter_known(self, it, st):
        """Elements of an iterable of known length, or None."""
        d = self.deref(it, st)
        op = d.op
        if op in ('list', 'tuple'):
            return list(d.args)
        if op == 'arr':
            return [mk('arr', *x.args) if x.op in ('list', 'tuple') else x for x in d.args]
        if op == 'set':
            return list(d.args)
        if op == 'dict':
            return list(d.args[0::2])
        if is_str(d) or op in ('char', 'fstr'):
            return A.letters(d)
        if op == 'range':
            n = C.len_term(d)
            if is_num(n) and n.args[1] <= 4096:
                return [C.get_term(d, num(i)) for i in range(int(n.args[1]))]
            return None
        if op in ('keys', 'values', 'items'):
            x = self.deref(d.args[0], st)
            if x.op == 'dict':
                ks, vs = x.args[0::2], x.args[1::2]
                if op == 'keys':
                    return list(ks)
                if op == 'values':
                    return list(vs)
                return [mk('tuple', k, v) for k, v in zip(ks, vs)]
            return None
        if op == 'enumerate':
            xs = self.iter_known(d.args[0], st)
            if xs is None:
                return None
            return [mk('tuple', A.add(d.args[1], num(i)), x) for i, x in enumerate(xs)]
        if op == 'zip':
            xss = [self.iter_known(x, st) for x in d.args]
            ks = [x for x in xss if x is not None]
            if not ks:
                return None
            if any(x is None for x in xss):
                # the known operand bounds the iteration
                n = min(len(x) for x in ks)
                return [mk('tuple', *[xs[i] if xs is not None else C.get_term(self.iter_sym(y, st), num(i))
                                      for xs, y in zip(xss, d.args)]) for i in range(n)]
            n = min(len(x) for x in xss)
            return [mk('tuple', *[x[i] for x in xss]) for i in range(n)]
        if op == 'reversed':
            xs = self.iter_known(d.args[0], st)
            return None if xs is None else list(reversed(xs))
        h = self.hint(d) if d.op == 'ref' else None
        if h is not None and ':' in h:
            r = self.iter_object(d, h, st)
            if r is not None:
                return self.iter_known(r, st)
        return None

    def iter_object(self, d, h, st):
        m = self.repo.member(h, '__iter__')
        if m:
            return self.call_func(m[1], '%s.__iter__' % m[2], [d], {}, st, owner=m[2], selft=d)
        if any(b.endswith('MutableSequence') for b in self.repo.ext_bases(h)):
            n = self.repo.member(h, '__len__')
            g = self.repo.member(h, '__getitem__')
            if n and g:
                ln = self.call_func(n[1], '%s.__len__' % n[2], [d], {}, st, owner=n[2], selft=d)
                if is_num(ln):
                    return mk('list', *[self.call_func(g[1], '%s.__getitem__' % g[2], [d, num(i)], {}, st,
                                                       owner=g[2], selft=d) for i in range(int(val(ln)))])
        return None

    def as_dict(self, t, st):
        """Contents of a mapping; of an object that is one, its items as far as they are known."""
        d = self.deref(t, st)
        h = self.hint(t) or ''
        if ':' in h and any(b.endswith('Mapping') for b in self.repo.ext_bases(h)):
            it, g = self.iter_object(t, h, st), self.repo.member(h, '__getitem__')
            ks = self.R(self.as_list(it, st), st) if it is not None else None
            if ks is not None and g and ks.op in ('list', 'tuple') and all(is_const(k) for k in ks.args):
                xs = []
                for k in ks.args:
                    xs += [k, self.call_func(g[1], '%s.__getitem__' % g[2], [t, k], {}, st, owner=g[2], selft=t)]
                return mk('dict', *xs)
        return d

    def iter_sym(self, it, st):
        """A term whose element i (get) and len are those of the iteration."""
        d = self.deref(it, st)
        if d.op == 'ite':
            return map_leaves(d, lambda x: self.iter_sym(x, st))
        op = d.op
        if op == 'dict' or op == 'setkey' or op == 'delkey' or op == 'dupdate':
            return mk('keys', self.R(d, st))
        if op in ('enumerate', 'zip', 'reversed'):
            args = [self.iter_sym(x, st) if i == 0 or op == 'zip' else x for i, x in enumerate(d.args)]
            return mk(op, *args)
        if op in ('keys', 'values', 'items'):
            return mk(op, self.R(self.deref(d.args[0], st), st))
        h = self.hint(d)
        if h == 'dict':
            return mk('keys', self.R(d, st))
        if h is not None and ':' in h:
            r = self.iter_object(d, h, st)
            if r is not None:
                return self.iter_sym(r, st)
        return self.R(d, st)

    def append_term(self, c, v):
        return A.concat(c, mk('list', v))

    def setkey(self, c, k, v):
        return C.setkey(c, k, v)

    def dict_update(self, c, other, st):
        return C.dict_update(c, self.R(other, st) if other.op != 'dict' else other)

    def get_item(self, b, i, st):
        b = restrict(b, st.pc)
        if b.op == 'ite':
            c, x, y = b.args
            return self.branch(st, c, lambda s: self.get_item(x, i, s), lambda s: self.get_item(y, i, s))
        h = self.hint(b)
        if h is not None and ':' in h:
            m = self.repo.member(h, '__getitem__')
            if m:
                return self.call_func(m[1], '%s.__getitem__' % m[2], [b, i], {}, st, owner=m[2], selft=b)
        if b.op == 'cls':
            return b
        d = self.deref(b, st)
        i = self._index(i, st)
        if h is not None and ':' in h and d.op == 'arr' and d.args and all(x.op == 'ref' for x in d.args) and 'numpy.ndarray' in self.repo.ext_bases(h):
            # an array class of the program holds the objects themselves
            r = grids.pick(d, self.V(i, st))
            if r is not None:
                return self.np_methods()['view'](self, r, [mk('cls', h)], {}, st) if r.op == 'arr' else r
        exc = {'dict': ['KeyError'], 'list': ['IndexError'], 'tuple': ['IndexError'], 'fstr': ['IndexError'], 'char': ['IndexError']}.get(d.op)
        if is_str(d):
            exc = ['IndexError']
        certain = exc and is_const(i) and self.has_key(d, i, st) is FALSE
        if certain and d.op != 'dict' and not is_num(i):
            certain = False
        if self.catching or certain:
            ok = self.has_key(d, i, st)
            self.may_raise(st, exc or ['KeyError', 'IndexError'], ok)
            if st.pc is FALSE:
                raise Dead()
            i = restrict(i, st.pc)
        if d.op not in ('list', 'tuple', 'dict', 'setkey', 'concat'):
            d = self.R(d, st)
        r = C.get_term(d, i)
        if r.op == 'list' and d.op == 'list':
            return self.fresh_list(r, st)
        return r

    def has_key(self, d, i, st):
        def f(x, k):
            if is_str(x) or x.op in ('char', 'fstr'):
                n = C.len_term(x)
                if is_num(k) and is_num(n):
                    return TRUE if -n.args[1] <= k.args[1] < n.args[1] else FALSE
            if x.op in ('list', 'tuple') and is_num(k):
                return TRUE if -len(x.args) <= k.args[1] < len(x.args) else FALSE
            if x.op in ('dict', 'setkey', 'delkey') or self.hint(x) == 'dict':
                return C.in_term(k, x)
            if k.op in ('slice', 'tuple'):
                return TRUE
            if is_num(k) and self.hint(x) in ('list', 'tuple', 'str'):
                return A.lt(k, C.len_term(x)) if k.args[1] >= 0 else A.le(num(-k.args[1]), C.len_term(x))
            return C.in_term(k, self.R(x, st)) if is_str(k) else mk('ok', mk('get', self.R(x, st), k))
        return lift_lazy(f, d, i)

    def _index(self, i, st):
        i = restrict(i, st.pc)
        if i.op == 'tuple':
            return mk('tuple', *[self._index(x, st) for x in i.args])
        i = self.deref(i, st)
        return self.R(i, st)

    def set_item(self, b, i, v, st):
        b = restrict(b, st.pc)
        if b.op == 'ite':
            c, x, y = b.args
            return self.branch(st, c, lambda s: self.set_item(x, i, v, s), lambda s: self.set_item(y, i, v, s))
        h = self.hint(b)
        if h is not None and ':' in h:
            m = self.repo.member(h, '__setitem__')
            if m:
                return self.call_func(m[1], '%s.__setitem__' % m[2], [b, i, v], {}, st, owner=m[2], selft=b)
        if b.op == 'dictof' and is_str(i):
            st.m[(b.args[0], val(i))] = v
            return
        c = self.content(b, st)
        i = self._index(i, st)
        if h == 'dict' or c.op in ('dict', 'setkey', 'delkey', 'dupdate'):
            new = C.setkey(c, i, v)
        elif self.maskwrite(c, i):
            new = self.where_term(i, self.R(self.deref(v, st), st), self.R(c, st))
        else:
            v = self.R(self.deref(v, st), st)
            new = lift_lazy(lambda cc: C.setitem(cc, i, v), self.R(c, st))
        st.m[(b, '#')] = new

    def maskwrite(self, c, i):
        return is_bool(i) or i.op in ('bitand', 'bitor', 'invert')

    def del_item(self, b, i, st):
        if b.op == 'dictof' and is_str(i):
            if (b.args[0], val(i)) not in st.m:
                self.may_raise(st, ['KeyError'], FALSE)
            st.m.pop((b.args[0], val(i)), None)
            return
        h = self.hint(b)
        if h is not None and ':' in h:
            m = self.repo.member(h, '__delitem__')
            if m:
                return self.call_func(m[1], '%s.__delitem__' % m[2], [b, i], {}, st, owner=m[2], selft=b)
        for leaf in leaves(b):
            self.set_content(leaf, C.delkey(self.content(leaf, st), self._index(i, st)), st)

    def contains(self, c, x, st):
        c = restrict(c, st.pc)
        if c.op == 'ite':
            k, a, b = c.args
            return self.branch(st, k, lambda s: self.contains(a, x, s), lambda s: self.contains(b, x, s))
        h = self.hint(c)
        if h is not None and ':' in h:
            m = self.repo.member(h, '__contains__')
            if m:
                r = self.call_func(m[1], '%s.__contains__' % m[2], [c, x], {}, st, owner=m[2], selft=c)
                return self.truth(r, st)
            it = self.iter_object(c, h, st) if c.op == 'ref' else None
            if it is not None:
                return self.contains(it, x, st)
        d = self.deref(c, st)
        return C.in_term(self.R(self.deref(x, st), st), self.R(d, st) if d.op not in ('list', 'tuple', 'dict', 'set') else d)

    # ------------------------------------------------ external calls

    def call_ext(self, name, args, kw, st):
        if name in self.cfg.ignore_calls:
            return NONE
        for h in self.cfg.hooks:
            r = h(self, name, args, kw, st)
            if r is not None:
                return r
        if name.startswith('builtins.'):
            f = getattr(self, 'b_' + name[9:].replace('.', '_'), None)
            if f is not None:
                return f(args, kw, st)
            x = getattr(_bi, name[9:].split('.')[0], None)
            if isinstance(x, type) and issubclass(x, BaseException):
                return mk('exc', name[9:])
        f = self.np_table().get(name)
        if f is not None:
            r = f(self, args, kw, st)
            if r is not None:
                return r
        if name in _PATHS:
            r = self.known_text(_PATHS[name], args, kw, st)
            if r is not None:
                return r
        how = self.cfg.opaque.get(name)
        if how is not None:
            return self.opaque_call(how, name, args, kw, st)
        if name == 'functools.partial':
            parts = [args[0], mk('tuple', *args[1:])]
            flat = []
            for k in sorted(kw):
                flat += [k, kw[k]]
            return mk('partial', *parts, *flat)
        if name in ('collections.namedtuple', 'typing.NamedTuple') and len(args) == 2 and not kw:
            fs = self.deref(args[1], st)
            if is_str(fs):
                fs = mk('tuple', *[const(x) for x in val(fs).replace(',', ' ').split()])
            if fs.op in ('tuple', 'list') and all(is_str(x) for x in fs.args):
                return mk('ntcls', *[val(x) for x in fs.args])
        if name in ('copy.copy',):
            return self.copy_value(args[0], st, False)
        if name in ('copy.deepcopy',):
            return self.copy_value(args[0], st, True)
        if name in ('itertools.chain',):
            return self.fresh_list(A.concat(*[self.as_list(a, st) for a in args]), st)
        if name in ('itertools.chain.from_iterable',):
            xs = self.iter_known(args[0], st)
            if xs is not None:
                return self.fresh_list(A.concat(*[self.as_list(a, st) for a in xs]), st) if xs else self.fresh_list(mk('list'), st)
        if name in ('itertools.product', 'itertools.combinations', 'itertools.permutations', 'itertools.combinations_with_replacement'):
            r = self.chosen(name.split('.')[-1], args, kw, st)
            if r is not None:
                return r
        if name in ('collections.OrderedDict',):
            return self.b_dict(args, kw, st)
        if name in ('functools.wraps',):
            return mk('ext', 'identity')
        if name == 'identity':
            return args[0]
        args, kw = self.norm_sig(name, args, kw)
        t = self.pure_call(name, args, kw, st)
        self.may_raise(st, ['Exception'], mk('ok', t))
        return t

    def copy_value(self, t, st, deep, memo=None):
        t = restrict(t, st.pc)
        memo = {} if memo is None else memo
        if t.op == 'ite':
            c, a, b = t.args
            return self.branch(st, c, lambda s: self.copy_value(a, s, deep, memo), lambda s: self.copy_value(b, s, deep, memo))
        if t.op == 'ref':
            if deep and t in memo:
                return memo[t]
            h = self.cls_of[t]
            hook = self.repo.member(h, '__deepcopy__' if deep else '__copy__') if h and ':' in h else None
            if hook:
                q = '%s.%s' % (hook[2], '__deepcopy__' if deep else '__copy__')
                return self.call_func(hook[1], q, [t] + ([mk('dict')] if deep else []), {}, st, owner=hook[2], selft=t)
            r = memo[t] = self.new_ref(h)
            for (loc, f), v in list(st.m.items()):
                if loc is t:
                    st.m[(r, f)] = self._deep(v, st, memo) if deep else v
            return r
        h = self.hint(t)
        if h in ('list', 'dict', 'set'):
            r = self.new_ref(h)
            st.m[(r, '#')] = self.R(self.deref(t, st), st)
            return r
        if is_const(t) or t.op in ('func', 'cls'):
            return t
        if (t, '#') in st.m or h == 'array':
            r = self.new_ref(h or '?')
            st.m[(r, '#')] = self.R(self.deref(t, st), st)
            return r
        return mk('copyof', self.R(t, st)) if self.cfg.__dict__.get('track_copies') else t

    def _deep(self, v, st, memo):
        rs = refs(v)
        if not rs:
            return v
        return subst(v, {r: self.copy_value(r, st, True, memo) for r in rs})

    # ------------------------------------------------------ builtins

    def b_len(self, args, kw, st):
        v = restrict(args[0], st.pc)
        if v.op == 'ite':
            c, a, b = v.args
            return self.branch(st, c, lambda s: self.b_len([a], {}, s), lambda s: self.b_len([b], {}, s))
        h = self.hint(v)
        if h is not None and ':' in h:
            m = self.repo.member(h, '__len__')
            if m:
                return self.call_func(m[1], '%s.__len__' % m[2], [v], {}, st, owner=m[2], selft=v)
        d = self.deref(v, st)
        if d in self.cfg.lengths:
            return self.cfg.lengths[d]
        return C.len_term(d if d.op in ('list', 'tuple', 'dict', 'set') else self.R(d, st))

    def b_range(self, args, kw, st):
        a = [self.R(self.deref(x, st), st) for x in args]
        if len(a) == 1:
            a = [ZERO, a[0], ONE]
        elif len(a) == 2:
            a = a + [ONE]
        return lift_lazy(lambda x, y, z: mk('range', x, y, z), *a)

    def b_enumerate(self, args, kw, st):
        start = kw.get('start', args[1] if len(args) > 1 else ZERO)
        return mk('enumerate', args[0], start)

    def b_zip(self, args, kw, st):
        if any(a.op == 'star' for a in args):
            return self.pure_call('zip', args, {}, st)
        return mk('zip', *args)

    def b_reversed(self, args, kw, st):
        d = self.deref(args[0], st)
        return C.reversed_term(d if d.op in ('list', 'tuple') else self.iter_sym(d, st))

    def b_iter(self, args, kw, st):
        return args[0]

    def b_next(self, args, kw, st):
        items = self.iter_known(args[0], st)
        if items is not None and items:
            return items[0]
        t = self.as_list(args[0], st)
        nonempty = A.truth(t)
        if len(args) > 1:
            return self.branch(st, nonempty, lambda s: C.get_term(t, ZERO), lambda s: args[1])
        self.may_raise(st, ['StopIteration'], nonempty)
        return C.get_term(t, ZERO)

    def b_list(self, args, kw, st):
        if not args:
            return self.fresh_list(mk('list'), st)
        return self.fresh_list(self.as_list(args[0], st), st)

    def b_tuple(self, args, kw, st):
        if not args:
            return mk('tuple')
        c = self.as_list(args[0], st)
        return map_leaves(c, lambda x: mk('tuple', *x.args) if x.op == 'list' else x)

    def b_dict(self, args, kw, st):
        r = self.new_ref('dict')
        c = mk('dict')
        if args:
            d = self.deref(restrict(args[0], st.pc), st)
            if d.op == 'ite':
                x, a, b = d.args
                return self.branch(st, x, lambda s: self.b_dict([a], kw, s), lambda s: self.b_dict([b], kw, s))
            h = self.hint(d)
            if d.op == 'ref' and h is not None and ':' in h:
                c = self.as_dict(d, st)
                if c.op != 'dict':
                    c = self.pure_call('dict', [d], {}, st)
            elif d.op in ('dict', 'setkey', 'delkey', 'dupdate') or self.hint(d) == 'dict':
                c = d
            elif d.op == 'zip' and len(d.args) == 2:
                items = self.iter_known(d, st)
                if items is not None:
                    for p in items:
                        c = C.setkey(c, C.get_term(p, ZERO), C.get_term(p, ONE))
                else:
                    acc = self._build_dict(d, st)
                    c = acc
            else:
                items = self.iter_known(d, st)
                if items is not None:
                    for p in items:
                        c = C.setkey(c, C.get_term(p, ZERO), C.get_term(p, ONE))
                elif d.op in ('enumerate', 'items', 'mu', 'concat'):
                    if d.op == 'items':
                        c = self.R(self.deref(d.args[0], st), st)
                    else:
                        c = self._build_dict(d, st)
                else:
                    c = d
        for k, v in kw.items():
            if k == '**':
                c = C.dict_update(c, v)
            else:
                c = C.setkey(c, const(k), v)
        st.m[(r, '#')] = c
        return r

    def _build_dict(self, d, st):
        r = self.new_ref('dict')
        st.m[(r, '#')] = mk('dict')
        cell = self.new_frame()
        cx = Ctx('', '', None, [cell])

        def assign(v, s):
            s.m[(cell, 'p')] = v

        def body(s):
            p = s.m[(cell, 'p')]
            s.m[(r, '#')] = C.setkey(s.m[(r, '#')], C.get_term(p, ZERO), C.get_term(p, ONE))
        self.run_for(d, assign, body, None, st, cx)
        return st.m[(r, '#')]

    def b_set(self, args, kw, st):
        r = self.new_ref('set')
        if args:
            st.m[(r, '#')] = C.toset(self.R(self.as_list(args[0], st), st))
        else:
            st.m[(r, '#')] = mk('set')
        return r

    b_frozenset = b_set

    def chosen(self, name, args, kw, st):
        """Products and selections of known members."""
        if name == 'product':
            n = self.V(kw['repeat'], st) if 'repeat' in kw else num(1)
            if set(kw) - {'repeat'} or not is_num(n):
                return None
            parts = [self.iter_known(a, st) for a in args]
            if any(p is None for p in parts):
                return None
            out = list(itertools.islice(itertools.product(*parts, repeat=int(n.args[1])), 600))
        else:
            xs = self.iter_known(args[0], st)
            n = self.V(args[1], st) if len(args) == 2 else None
            if kw or xs is None or n is None and name != 'permutations' or n is not None and not is_num(n):
                return None
            f = getattr(itertools, name)
            out = list(itertools.islice(f(xs) if n is None else f(xs, int(n.args[1])), 600))
        return self.fresh_list(mk('list', *[mk('tuple', *x) for x in out]), st) if len(out) < 600 else None

    def b_str(self, args, kw, st):
        if not args:
            return const('')
        x = restrict(args[0], st.pc)
        if x.op == 'ref' and ':' in (self.hint(x) or ''):
            return self.str_of(x, st)
        return self.str_of(self.R(self.deref(x, st), st), st)

    def b_repr(self, args, kw, st):
        return app('repr', self.R(self.deref(args[0], st), st))

    def b_int(self, args, kw, st):
        x = self.R(self.deref(args[0], st), st)
        if len(args) > 1:
            return self.pure_call('int', args, kw, st)

        def f(y):
            if is_num(y):
                return num(int(y.args[1]))
            if A.is_int(y):
                return y
            if is_str(y):
                try:
                    return num(int(val(y)))
                except ValueError:
                    pass
            return mk('int', y)
        r = lift(f, x)
        self.may_raise(st, ['ValueError', 'TypeError'], lift_lazy(lambda y: mk('ok', y) if y.op == 'int' else TRUE, r))
        return r

    def b_float(self, args, kw, st):
        x = self.R(self.deref(args[0], st), st)

        def f(y):
            if is_num(y) or y.op in ('poly', 'mono'):
                return y
            if is_bool(y):
                return y
            if is_str(y) and re.fullmatch(r'\d+\.?\d*|\.\d+', y.args[1], re.A):
                return const(float(y.args[1]))
            return mk('float', y)
        r = lift_lazy(f, x)

        def ok(y):
            if y.op != 'float':
                return TRUE
            cs = A.letters(y.args[0])
            if cs and all(c.op == 'char' and c.args[0] == 'digit' or is_str(c) and c.args[1] in '0123456789.' for c in cs):
                dots = sum(c is const('.') for c in cs)
                return TRUE if dots < 2 and len(cs) > dots else FALSE
            return mk('ok', y)
        self.may_raise(st, ['ValueError', 'TypeError'], lift_lazy(ok, r))
        return r

    def b_bool(self, args, kw, st):
        return self.truth(args[0], st) if args else FALSE

    def b_isinstance(self, args, kw, st):
        cs = self.deref(args[1], st)
        cl = cs.args if cs.op == 'tuple' else (cs,)

        def f(x):
            r = FALSE
            for c in cl:
                r = or_(self.isinst(x, c, st), r)
            return r
        return map_leaves(restrict(args[0], st.pc), f)

    PYCLS = {'list': 'list', 'dict': 'dict', 'set': 'set', 'tuple': 'tuple', 'str': 'str', 'num': 'float'}

    def isinst(self, x, c, st):
        cname = c.args[0] if c.op in ('cls', 'ext') else None
        if cname is None:
            return mk('isinst', self.R(x, st), c)
        cname = cname.replace('builtins.', '')
        h = self.hint(x)
        if is_const(x):
            k = x.args[0]
            if k == 'none':
                return TRUE if cname in ('NoneType', 'object') else FALSE
            if k == 'str':
                return TRUE if cname in ('str', 'object', 'collections.abc.Iterable', 'collections.abc.Sequence') else FALSE
            if k == 'bool':
                return TRUE if cname in ('bool', 'int', 'object', 'numbers.Number') else FALSE
            if k == 'num':
                if cname == 'int':
                    return TRUE if x.args[1].denominator == 1 else FALSE
                return TRUE if cname in ('float', 'object', 'numbers.Number', 'numbers.Real') else FALSE
        if self.numeric(x) and not is_const(x):
            # an integer or a floating point number
            if cname in ('int', 'float'):
                w = mk('isinst', self.R(x, st), mk('cls', 'int'))
                return w if cname == 'int' else not_(w)
            return TRUE if cname in ('object', 'numbers.Number', 'numbers.Real') else FALSE
        if h is not None and ':' in h:
            if ':' in cname:
                mro = self.repo.mro(h)
                if cname in mro:
                    return TRUE
                if x.op == 'ref' or x.op == 'new':
                    return FALSE
                if h not in self.repo.mro(cname):
                    return FALSE
                return mk('isinst', x, mk('cls', cname))
            if cname.split('.')[-1] == 'Iterable' and (self.repo.member(h, '__iter__') or any(
                    b.split('.')[-1] in ('ndarray', 'list', 'dict', 'tuple', 'set', 'MutableSequence', 'Sequence', 'MutableMapping',
                                         'Mapping') for b in self.repo.ext_bases(h))):
                return TRUE
            if x.op == 'ref':
                return TRUE if any(b.split('.')[-1] == cname.split('.')[-1] for b in self.repo.mro(h)) else FALSE
            if any(b.split('.')[-1] == cname.split('.')[-1] for b in self.repo.mro(h)):
                return TRUE
            return FALSE
        if h == 'ndarray' or x.op == 'arr' or x.op == 'ref' and h == 'array':
            return TRUE if cname in ('numpy.ndarray', 'object', 'collections.abc.Iterable', 'typing.Iterable') else FALSE
        if h in ('list', 'dict', 'set', 'tuple', 'str'):
            if cname in ('collections.abc.Iterable', 'typing.Iterable'):
                return TRUE
            if cname in ('collections.abc.Mapping', 'collections.abc.MutableMapping'):
                return TRUE if h == 'dict' else FALSE
            return TRUE if cname in (h, 'object') else FALSE
        if x.op in ('poly', 'mono', 'mm', 'len'):
            if cname in ('str', 'list', 'dict', 'tuple'):
                return FALSE
        if x.op in ('clo', 'func', 'bmeth', 'cls'):
            return FALSE
        return mk('isinst', self.R(x, st), mk('cls', cname))

    def b_issubclass(self, args, kw, st):
        a, b = args
        if a.op == 'cls' and b.op == 'cls':
            return TRUE if b.args[0] in self.repo.mro(a.args[0]) else FALSE
        return mk('subclass', a, b)

    def b_hasattr(self, args, kw, st):
        if is_str(args[1]):
            return self.has_attr(args[0], val(args[1]), st)
        return mk('hasattr', args[0], args[1])

    def b_getattr(self, args, kw, st):
        def one(nm, s):
            if not is_str(nm):
                if len(args) > 2:
                    return self.pure_call('getattr', [args[0], nm, args[2]], {}, s)
                return self.pure_call('getattr', [args[0], nm], {}, s)
            n = val(nm)
            if len(args) > 2:
                c = self.has_attr(args[0], n, s)
                return self.branch(s, c, lambda q: self.get_attr(args[0], n, q), lambda q: args[2])
            return self.get_attr(args[0], n, s)
        nm = restrict(args[1], st.pc)
        return self.over(nm, one, st)

    def over(self, t, f, st):
        """Apply f(leaf, state) case by case."""
        if t.op == 'ite':
            c, a, b = t.args
            return self.branch(st, c, lambda s: self.over(a, f, s), lambda s: self.over(b, f, s))
        return f(t, st)

    def b_setattr(self, args, kw, st):
        def one(nm, s):
            if not is_str(nm):
                for l in leaves(args[0]):
                    dk = (l, '#dyn')
                    s.m[dk] = mk('setkey', s.m.get(dk, mk('dict')), nm, self.R(args[2], s))
                return NONE
            self.set_attr(args[0], val(nm), args[2], s)
            return NONE
        return self.over(restrict(args[1], st.pc), one, st)

    def b_callable(self, args, kw, st):
        x = args[0]
        if x.op in ('clo', 'func', 'bmeth', 'cls', 'ext', 'lam'):
            return TRUE
        if is_const(x):
            return FALSE
        return mk('callable', self.R(x, st))

    def b_type(self, args, kw, st):
        def f(x):
            h = self.hint(x)
            if h is not None and ':' in h:
                return mk('cls', h) if x.op == 'ref' else mk('typeof', x)
            if h in ('list', 'dict', 'set', 'tuple', 'str'):
                return mk('ext', 'builtins.' + h)
            return mk('typeof', self.R(x, st))
        return map_leaves(restrict(args[0], st.pc), f)

    def b_id(self, args, kw, st):
        return mk('id', self.R(args[0], st))

    def _quant(self, args, st, stop):
        """any / all as a loop with an early exit."""
        fr = self.new_frame()
        cx = Ctx('', '', None, [fr])
        key = (fr, 'r')
        s = st
        s.m[key] = FALSE if stop is TRUE else TRUE

        def assign(v, q):
            q.m[(fr, 'v')] = v

        def body(q):
            c = self.truth(q.m[(fr, 'v')], q)
            if stop is FALSE:
                c = not_(c)

            def hit(z):
                z.m[key] = stop
                cx.loops[-1].breaks.append(z.copy())
                z.pc = FALSE
                raise Dead()
            self.branch(q, c, hit, lambda z: None)
        self.run_for(args[0], assign, body, None, st, cx)
        r = st.m.pop(key)
        st.m.pop((fr, 'v'), None)
        return r

    def b_any(self, args, kw, st):
        if self._arrayish(args[0], st):
            return self.call_ext('numpy.any', args, kw, st)
        return self._quant(args, st, TRUE)

    def b_all(self, args, kw, st):
        if self._arrayish(args[0], st):
            return self.call_ext('numpy.all', args, kw, st)
        return self._quant(args, st, FALSE)

    def _arrayish(self, t, st):
        d = self.deref(t, st)
        return is_bool(d) or d.op in ('poly', 'mono', 'mm', 'bitand', 'bitor', 'invert') or \
            (d.op == 'ite') or (d.op == 'call' and isinstance(d.args[0], str) and d.args[0].startswith('numpy.'))

    def b_sum(self, args, kw, st):
        items = self.iter_known(args[0], st)
        start = kw.get('start', args[1] if len(args) > 1 else ZERO)
        if items is not None:
            r = start
            for x in items:
                r = A.add(r, self.R(self.deref(x, st), st))
            return r
        fr = self.new_frame()
        cx = Ctx('', '', None, [fr])
        st.m[(fr, 't')] = start

        def assign(v, q):
            q.m[(fr, 'v')] = v

        def body(q):
            q.m[(fr, 't')] = A.add(q.m[(fr, 't')], self.R(self.deref(q.m[(fr, 'v')], q), q))
        self.run_for(args[0], assign, body, None, st, cx)
        st.m.pop((fr, 'v'), None)
        return st.m.pop((fr, 't'))

    def b_min(self, args, kw, st):
        return self._minmax('min', args, kw, st)

    def b_max(self, args, kw, st):
        return self._minmax('max', args, kw, st)

    def _minmax(self, w, args, kw, st):
        if not kw:
            if len(args) > 1:
                return C.minmax(w, [self.R(self.deref(a, st), st) for a in args])
            items = self.iter_known(args[0], st)
            if items:
                return C.minmax(w, [self.R(self.deref(a, st), st) for a in items])
        return self.pure_call('builtins.' + w, [self.as_list(args[0], st)] + list(args[1:]), kw, st)

    def b_sorted(self, args, kw, st):
        c = self.R(self.as_list(args[0], st), st)
        r = self.sort_concrete(c, kw, st)
        if r is None:
            r = C.sorted_term(c, self.R(kw.get('key', NONE), st), kw.get('reverse', FALSE))
        return self.fresh_list(r, st)

    def sort_concrete(self, c, kw, st):
        """A written out list whose sort keys are all known; sorting is stable."""
        f, rev = kw.get('key', NONE), kw.get('reverse', FALSE)
        if f is NONE or c.op not in ('list', 'tuple', 'arr') or rev not in (TRUE, FALSE) or \
                not all(is_const(x) or x.op == 'tuple' and all(is_const(y) for y in x.args) for x in c.args):
            return None
        ks = [self.R(self.call(f, [x], {}, st), st) for x in c.args]
        if not all(is_num(k) or is_str(k) for k in ks) or len({k.args[0] == 'str' for k in ks}) > 1:
            return None
        o = sorted(range(len(ks)), key=lambda j: ks[j].args[1], reverse=rev is TRUE)
        return mk('list', *[c.args[j] for j in o])

    def b_map(self, args, kw, st):
        if len(args) == 2:
            src = args[1]
        else:
            src = mk('zip', *args[1:])
        r = self.new_ref('list')
        st.m[(r, '#')] = mk('list')
        fr = self.new_frame()
        cx = Ctx('', '', None, [fr])

        def assign(v, q):
            q.m[(fr, 'v')] = v

        def body(q):
            v = q.m[(fr, 'v')]
            xs = [v] if len(args) == 2 else list(v.args)
            q.m[(r, '#')] = self.append_term(q.m[(r, '#')], self.call(args[0], xs, {}, q))
        self.run_for(src, assign, body, None, st, cx)
        st.m.pop((fr, 'v'), None)
        return r

    def b_filter(self, args, kw, st):
        r = self.new_ref('list')
        st.m[(r, '#')] = mk('list')
        fr = self.new_frame()
        cx = Ctx('', '', None, [fr])

        def assign(v, q):
            q.m[(fr, 'v')] = v

        def body(q):
            v = q.m[(fr, 'v')]
            p = v if args[0] is NONE else self.call(args[0], [v], {}, q)

            def yes(z):
                z.m[(r, '#')] = self.append_term(z.m[(r, '#')], v)
            self.branch(q, self.truth(p, q), yes, lambda z: None)
        self.run_for(args[1], assign, body, None, st, cx)
        st.m.pop((fr, 'v'), None)
        return r

    def b_round(self, args, kw, st):
        return self.pure_call('round', args, kw, st)

    def b_open(self, args, kw, st):
        return self.pure_call('open', args, kw, st)

    def b_slice(self, args, kw, st):
        from .execmix import mkslice
        a = [self.R(self.deref(x, st), st) for x in args]
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        elif len(a) == 2:
            a = a + [NONE]
        return mkslice(*a)

    def b_object(self, args, kw, st):
        return self.new_ref('object')

    def b_object___new__(self, args, kw, st):
        return self.new_object(args[0].args[0], st)

    def b_object___init__(self, args, kw, st):
        return NONE

    def b_vars(self, args, kw, st):
        return self.get_attr(args[0], '__dict__', st)

    def b_dict_fromkeys(self, args, kw, st):
        items = self.iter_known(args[0], st)
        r = self.new_ref('dict')
        if items is None:
            st.m[(r, '#')] = self.pure_call('dict.fromkeys', args, kw, st)
            return r
        c = mk('dict')
        for x in items:
            c = C.setkey(c, x, args[1] if len(args) > 1 else NONE)
        st.m[(r, '#')] = c
        return r

    def b_property(self, args, kw, st):
        return mk('propobj', *args)

    def b_divmod(self, args, kw, st):
        a, b = args
        return mk('tuple', A.floordiv(a, b), A.mod(a, b))

    def b_pow(self, args, kw, st):
        return A.power(*[self.R(self.deref(a, st), st) for a in args])

    # ------------------------------------------------------- methods

    def call_method(self, recv, name, args, kw, st):
        d = self.deref(recv, st)
        if recv.op == 'dictof' and name in ('pop', 'setdefault', 'update', 'clear', '__setitem__', '__delitem__'):
            r = self.attributes(recv.args[0], name, d, args, kw, st)
            if r is None:
                raise tm.Unsupported('__dict__.' + name)
            return r
        kind = self._kind(recv, d)
        if self.lacks(d, self.hint(d), name):
            self.may_raise(st, ['AttributeError'], FALSE)
            return mk('noattr', d.op, name)
        if kind is None and recv.op == 'ref' and name in ('keys', 'values', 'items', 'get', 'update'):
            r = self.mapping_method(recv, name, args, kw, st)
            if r is not None:
                return r
        if kind is None and recv.op == 'ref' and name in ('extend', 'append', 'pop'):
            r = self.sequence_method(recv, name, args, st)
            if r is not None:
                return r
        if self.cfg.typeset and name in ('ljust', 'rjust', 'center') and kind in ('str', None):
            return A._bfstr(const(' '), self.R(d, st), const(' '))
        if is_str(d) and name in _TEXT:
            r = self.known_text(getattr(d.args[1], name), args, kw, st)
            if r is not None:
                return r
        f = getattr(self, 'm_%s_%s' % (kind, name), None) if kind else None
        if f is not None:
            r = f(recv, d, args, kw, st)
            if r is not None:
                return r
        f = getattr(self, 'm_any_' + name, None)
        if f is not None and kind is None:
            r = f(recv, d, args, kw, st)
            if r is not None:
                return r
        nf = self.np_methods().get(name)
        if nf is not None and kind not in ('dict', 'str', 'set'):
            r = nf(self, d, args, kw, st)
            if r is not None:
                return r
        how = self.cfg.opaque.get('*.' + name)
        if how is not None:
            return self.opaque_call(how, '*.' + name, [recv] + args, kw, st)
        if kind in ('dict', 'set', 'str') and not hasattr({'dict': dict, 'set': set, 'str': str}[kind], name):
            self.may_raise(st, ['AttributeError'], FALSE)
        if is_num(d) and not hasattr(float, name) and not name.startswith('__') and len(name) > 4:
            self.may_raise(st, ['AttributeError'], FALSE)
        t = self.pure_call('.' + name, [recv] + args, kw, st)
        self.may_raise(st, ['Exception'], lift_lazy(lambda x: mk('ok', x), t))
        return t

    def known_text(self, f, args, kw, st):
        """An operation of the library on known texts and numbers, or None."""
        def known(a):
            t = self.R(self.deref(a, st), st)
            if t is NONE or t is TRUE or t is FALSE:
                return {NONE: None, TRUE: True, FALSE: False}[t]
            if is_str(t):
                return t.args[1]
            if is_num(t) and t.args[1].denominator == 1:
                return int(t.args[1])
            if t.op == 'tuple':
                return tuple(known(x) for x in t.args)
            raise LookupError

        def shown(x):
            if isinstance(x, tuple):
                return mk('tuple', *map(shown, x))
            if isinstance(x, list):
                return self.fresh_list(mk('list', *map(shown, x)), st)
            return const(x)
        try:
            args, kw = [known(a) for a in args], {k: known(v) for k, v in kw.items()}
        except LookupError:
            return None
        try:
            return shown(f(*args, **kw))
        except (ValueError, TypeError) as e:
            self.raise_(st, mk('exc', type(e).__name__))
            return NONE

    def attributes(self, o, name, d, args, kw, st):
        """A change of the attributes of an object through its __dict__."""
        if name == 'clear':
            for k in [k for k in st.m if k[0] is o and not k[1].startswith('#')]:
                del st.m[k]
            return NONE
        if name == 'update':
            for a in args:
                x = self.as_dict(a, st)
                if x.op != 'dict' or not all(is_str(k) for k in x.args[0::2]):
                    return None
                for j in range(0, len(x.args), 2):
                    st.m[(o, val(x.args[j]))] = x.args[j + 1]
            for k, v in kw.items():
                st.m[(o, k)] = v
            return NONE
        if not args or not is_str(args[0]):
            return None
        k = (o, val(args[0]))
        if name == '__setitem__':
            st.m[k] = args[1]
            return NONE
        if name == 'setdefault':
            return st.m.setdefault(k, args[1] if len(args) > 1 else NONE)
        if k not in st.m and (name == '__delitem__' or len(args) < 2):
            self.may_raise(st, ['KeyError'], FALSE)
        v = st.m.pop(k, args[1] if len(args) > 1 else NONE)
        return v if name == 'pop' else NONE

    def mapping_method(self, recv, name, args, kw, st):
        """What a class that is a Mapping inherits."""
        h = self.hint(recv) or ''
        if ':' not in h or not any(b.endswith('Mapping') for b in self.repo.ext_bases(h)):
            return None
        if name == 'update':
            other = self.as_dict(args[0], st) if args else mk('dict')
            w = self.repo.member(h, '__setitem__')
            if other.op != 'dict' or not w:
                return None
            for j in range(0, len(other.args), 2):
                self.call_func(w[1], '%s.__setitem__' % w[2], [recv, other.args[j], other.args[j + 1]], {}, st, owner=w[2], selft=recv)
            for k in kw:
                self.call_func(w[1], '%s.__setitem__' % w[2], [recv, const(k), kw[k]], {}, st, owner=w[2], selft=recv)
            return NONE
        d = self.as_dict(recv, st)
        if d.op != 'dict':
            return None
        return self.call_method(self.fresh_dict(d, st), name, args, kw, st)

    def sequence_method(self, recv, name, args, st):
        """What a class that is a MutableSequence inherits."""
        h = self.hint(recv) or ''
        if ':' not in h or not any(b.endswith('MutableSequence') for b in self.repo.ext_bases(h)):
            return None

        def own(m, xs, s):
            w = self.repo.member(h, m)
            return self.call_func(w[1], '%s.%s' % (w[2], m), [recv] + xs, {}, s, owner=w[2], selft=recv)
        if name == 'extend':
            xs = self.iter_known(args[0], st)
            if xs is None:
                return None
            for x in xs:
                self.call(self.get_attr(recv, 'append', st), [x], {}, st) if self.repo.member(h, 'append') else \
                    own('insert', [own('__len__', [], st), x], st)
            return NONE
        if name == 'append':
            own('insert', [own('__len__', [], st), args[0]], st)
            return NONE
        i = args[0] if args else num(-1)
        v = own('__getitem__', [i], st)
        own('__delitem__', [i], st)
        return v

    def fresh_dict(self, d, st):
        r = self.new_ref('dict')
        st.m[(r, '#')] = d
        return r

    def _kind(self, recv, d):
        h = self.hint(recv)
        if h in ('list', 'dict', 'set', 'tuple', 'str'):
            return h
        h = self.hint(d)
        if h in ('list', 'dict', 'set', 'tuple', 'str'):
            return h
        if d.op in ('keys', 'values', 'items'):
            return 'list'
        return None

    # lists
    def m_list_append(self, recv, d, args, kw, st):
        st.m[(recv, '#')] = self.append_term(d, args[0])
        return NONE

    m_any_append = m_list_append

    def m_list_extend(self, recv, d, args, kw, st):
        st.m[(recv, '#')] = A.concat(d, self.as_list(args[0], st))
        return NONE

    m_any_extend = m_list_extend

    def m_list_insert(self, recv, d, args, kw, st):
        i = self._index(args[0], st)
        if d.op == 'list' and is_num(i):
            xs = list(d.args)
            xs.insert(int(val(i)), args[1])
            st.m[(recv, '#')] = mk('list', *xs)
        elif i is ZERO:
            st.m[(recv, '#')] = A.concat(mk('list', args[1]), d)
        else:
            st.m[(recv, '#')] = app('insert', d, i, self.R(args[1], st))
        return NONE

    def m_list_pop(self, recv, d, args, kw, st):
        i = self._index(args[0], st) if args else num(-1)
        x = C.get_term(d, i)
        if d.op == 'list' and is_num(i) and d.args:
            xs = list(d.args)
            xs.pop(int(val(i)))
            st.m[(recv, '#')] = mk('list', *xs)
        elif i is ZERO:
            st.m[(recv, '#')] = C.get_term(self.R(d, st), mk('slice', ONE, NONE, NONE))
        else:
            st.m[(recv, '#')] = app('popped', self.R(d, st), i)
        return x

    def m_list_remove(self, recv, d, args, kw, st):
        st.m[(recv, '#')] = app('removed', self.R(d, st), self.R(args[0], st))
        return NONE

    def m_list_index(self, recv, d, args, kw, st):
        x = self.R(self.deref(args[0], st), st)
        dd = self.R(d, st)
        self.may_raise(st, ['ValueError'], C.in_term(x, dd))
        if dd.op in ('list', 'tuple') and is_const(x) and all(is_const(y) for y in dd.args) and x in dd.args:
            return num(dd.args.index(x))
        return app('index', dd, x)

    m_tuple_index = m_list_index
    m_any_index = m_list_index

    def m_list_sort(self, recv, d, args, kw, st):
        d = self.R(d, st)
        r = self.sort_concrete(d, kw, st)
        if r is None:
            r = C.sorted_term(d, self.R(kw.get('key', NONE), st), kw.get('reverse', FALSE))
        st.m[(recv, '#')] = r
        return NONE

    def m_list_reverse(self, recv, d, args, kw, st):
        st.m[(recv, '#')] = C.reversed_term(d)
        return NONE

    def m_list_copy(self, recv, d, args, kw, st):
        return self.fresh_list(d, st)

    def m_list_clear(self, recv, d, args, kw, st):
        st.m[(recv, '#')] = mk('list')
        return NONE

    def m_list_count(self, recv, d, args, kw, st):
        d, x = self.R(d, st), self.R(args[0], st)
        if d.op in ('list', 'tuple') and is_const(x) and all(is_const(y) for y in d.args):
            return num(len([y for y in d.args if A.eq(y, x) is TRUE]))
        return app('lcount', d, x)

    # dicts
    def m_dict_get(self, recv, d, args, kw, st):
        k = self._index(args[0], st)
        dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
        d2 = d if d.op in ('dict', 'setkey') else self.R(d, st)
        return ite(C.in_term(k, d2), C.get_term(d2, k), dflt)

    def m_dict_keys(self, recv, d, args, kw, st):
        return mk('keys', d)

    def m_dict_values(self, recv, d, args, kw, st):
        return mk('values', d)

    def m_dict_items(self, recv, d, args, kw, st):
        return mk('items', d)

    m_any_keys = m_dict_keys
    m_any_values = m_dict_values
    m_any_items = m_dict_items

    def m_any_get(self, recv, d, args, kw, st):
        if recv.op == 'attr' or recv.op == 'sym' or recv.op == 'get':
            return self.m_dict_get(recv, d, args, kw, st)
        return None

    def m_dict_update(self, recv, d, args, kw, st):
        c = d
        for a in args:
            x = self.as_dict(restrict(a, st.pc), st)
            if x.op in ('zip', 'list', 'mu') and self.hint(x) != 'dict':
                x = self.deref(self.b_dict([a], {}, st), st)
            c = C.dict_update(c, x if x.op == 'dict' else self.R(x, st))
        for k, v in kw.items():
            if k == '**':
                c = C.dict_update(c, v)
            else:
                c = C.setkey(c, const(k), v)
        st.m[(recv, '#')] = c
        return NONE

    m_any_update = m_dict_update

    def m_dict_pop(self, recv, d, args, kw, st):
        k = self._index(args[0], st)
        inn = C.in_term(k, d)
        if len(args) > 1:
            v = ite(inn, C.get_term(d, k), args[1])
        else:
            self.may_raise(st, ['KeyError'], inn)
            v = C.get_term(d, k)
        st.m[(recv, '#')] = C.delkey(d, k)
        return v

    def m_any_pop(self, recv, d, args, kw, st):
        if args and (is_str(args[0]) or len(args) > 1):
            return self.m_dict_pop(recv, d, args, kw, st)
        return self.m_list_pop(recv, d, args, kw, st)

    def m_dict_setdefault(self, recv, d, args, kw, st):
        k = self._index(args[0], st)
        dv = args[1] if len(args) > 1 else NONE
        inn = restrict(C.in_term(k, d), st.pc)
        v = ite(inn, C.get_term(d, k), dv)
        st.m[(recv, '#')] = ite(inn, d, C.setkey(d, k, dv))
        return v

    def m_dict_copy(self, recv, d, args, kw, st):
        r = self.new_ref('dict')
        st.m[(r, '#')] = d
        return r

    def m_dict_clear(self, recv, d, args, kw, st):
        st.m[(recv, '#')] = mk('dict')
        return NONE

    # sets
    def m_set_add(self, recv, d, args, kw, st):
        st.m[(recv, '#')] = self.setadd(d, self.R(self.deref(args[0], st), st))
        return NONE

    m_any_add = m_set_add

    def m_set_update(self, recv, d, args, kw, st):
        for a in args:
            d = C.union(d, C.toset(self.R(self.as_list(a, st), st)))
        st.m[(recv, '#')] = d
        return NONE

    def m_set_union(self, recv, d, args, kw, st):
        d = self.R(d, st)
        for a in args:
            d = C.union(d, C.toset(self.R(self.as_list(a, st), st)))
        return d

    def m_set_intersection(self, recv, d, args, kw, st):
        return self.setop('BitAnd', self.R(d, st), C.toset(self.R(self.as_list(args[0], st), st)))

    def m_set_difference(self, recv, d, args, kw, st):
        return self.setop('Sub', self.R(d, st), C.toset(self.R(self.as_list(args[0], st), st)))

    def m_set_issubset(self, recv, d, args, kw, st):
        return mk('pred', 'issubset', self.R(d, st), C.toset(self.R(self.as_list(args[0], st), st)))

    def m_set_discard(self, recv, d, args, kw, st):
        st.m[(recv, '#')] = self.setop('Sub', d, mk('set', self.R(args[0], st)))
        return NONE

    m_set_remove = m_set_discard

    # strings
    def _s(self, recv, d, args, st):
        return [self.R(d, st)] + [self.R(self.deref(a, st), st) for a in args]

    def m_str_join(self, recv, d, args, kw, st):
        items = self.iter_known(args[0], st)
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(self.R(d, st))
                parts.append(self.R(self.deref(x, st), st))
            return A._bfstr(*parts) if parts else const('')
        return app('join', self.R(d, st), self.R(self.as_list(args[0], st), st))

    def m_any_join(self, recv, d, args, kw, st):
        return app('join', self.R(d, st), self.R(self.as_list(args[0], st), st))

    def m_str_format(self, recv, d, args, kw, st):
        if is_str(d):
            import string
            parts = []
            auto = 0
            try:
                for lit, field, spec, conv in string.Formatter().parse(d.args[1]):
                    if lit:
                        parts.append(const(lit))
                    if field is None:
                        continue
                    if field == '':
                        x = args[auto]
                        auto += 1
                    elif field.isdigit():
                        x = args[int(field)]
                    elif field in kw:
                        x = kw[field]
                    else:
                        raise Unsupported('format field')
                    x = self.R(self.deref(x, st), st)
                    if spec:
                        parts.append(app('strof', app('fmt', x, const(spec))))
                    elif conv == 'r':
                        parts.append(app('strof', app('repr', x)))
                    else:
                        parts.append(self.str_of(x, st))
            except (IndexError, ValueError):
                raise Unsupported('format string')
            return A._bfstr(*parts) if parts else const('')
        return self.pure_call('.format', [recv] + args, kw, st)

    def _strfold(self, name, recv, d, args, kw, st):
        xs = self._s(recv, d, args, st)
        if all(is_str(x) for x in xs) and not kw:
            return const(getattr(xs[0].args[1], name)(*[x.args[1] for x in xs[1:]]))
        return app('str.' + name, *xs)

    def m_str_lower(self, *a):
        return self._strfold('lower', *a)

    def m_str_upper(self, *a):
        return self._strfold('upper', *a)

    def m_str_strip(self, *a):
        return self._strfold('strip', *a)

    def m_str_lstrip(self, *a):
        return self._strfold('lstrip', *a)

    def m_str_rstrip(self, *a):
        return self._strfold('rstrip', *a)

    def m_str_replace(self, *a):
        return self._strfold('replace', *a)

    def m_str_capitalize(self, *a):
        return self._strfold('capitalize', *a)

    def _strpred(self, name, recv, d, args, kw, st):
        xs = self._s(recv, d, args, st)

        def f(*ys):
            if all(is_str(y) for y in ys):
                return TRUE if getattr(ys[0].args[1], name)(*[y.args[1] for y in ys[1:]]) else FALSE
            if ys[0] is NONE:
                return FALSE
            if len(ys) == 1:
                r = A.charpred(name, ys[0])
                if r is not None:
                    return r
            elif name in ('startswith', 'endswith') and len(ys) == 2:
                cs, ds = A.letters(ys[0]), A.letters(ys[1])
                if cs is not None and ds is not None:
                    if len(ds) > len(cs):
                        return FALSE
                    return A.eq(A.strcat(*(cs[:len(ds)] if name == 'startswith' else cs[len(cs) - len(ds):])), ys[1])
            return mk('pred', name, *ys)
        return lift_lazy(f, *xs)

    def m_any_isalpha(self, *a):
        return self._strpred('isalpha', *a)

    def m_any_isdigit(self, *a):
        return self._strpred('isdigit', *a)

    def m_any_isalnum(self, *a):
        return self._strpred('isalnum', *a)

    def m_any_isspace(self, *a):
        return self._strpred('isspace', *a)

    def m_any_isnumeric(self, *a):
        return self._strpred('isnumeric', *a)

    def m_any_startswith(self, *a):
        return self._strpred('startswith', *a)

    def m_any_endswith(self, *a):
        return self._strpred('endswith', *a)

    m_str_isalpha, m_str_isdigit, m_str_isalnum = m_any_isalpha, m_any_isdigit, m_any_isalnum
    m_str_isspace, m_str_startswith, m_str_endswith = m_any_isspace, m_any_startswith, m_any_endswith

    def m_any_lower(self, recv, d, args, kw, st):
        return app('str.lower', self.R(d, st))

    def m_any_upper(self, recv, d, args, kw, st):
        return app('str.upper', self.R(d, st))


_TEXT = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'find', 'rfind', 'index', 'rindex', 'count', 'title', 'swapcase', 'ljust', 'rjust',
         'center', 'zfill', 'removesuffix', 'removeprefix', 'casefold', 'strip', 'lstrip', 'rstrip', 'replace', 'expandtabs'}
_PATHS = {'os.path.' + f: getattr(posixpath, f) for f in ('basename', 'dirname', 'splitext', 'split', 'join', 'normpath', 'isabs')}


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    g = node.__dict__.get('_generator')
    if g is None:
        g = node._generator = _has_yield(node)
    return g


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


_MASKED = {'nz', 'argwhere', 'find_first', 'argmax', 'any', 'all', 'sum', 'flatnonzero'}


def call_term(name, *ts):
    if isinstance(name, str) and (name.startswith(('numpy.', 'scipy.')) or name in _MASKED):
        ts = [tm.mask(t) if isinstance(t, T) else t for t in ts]
    return lift(lambda *a: mk('call', name, *a), *ts)


tm.builder('call')(call_term)
