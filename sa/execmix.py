"""Statements and expressions."""
from __future__ import annotations

import ast
import re

from . import arith as A
from . import terms as tm
from . import grids
from . import containers as C
from .terms import (T, mk, num, const, is_num, is_const, is_str, is_bool, val, TRUE, FALSE, NONE,
                    UNDEF, ZERO, ONE, ite, not_, and_, or_, restrict, lift_lazy, Unsupported, leaves,
                    refs, app)
from .interp import State, Ctx, LoopCtx, Dead


class ExecMixin:

    # ---------------------------------------------------- statements

    def exec_block(self, body, st, cx):
        """Run statements; `st` is the state that falls through.
        Raises Dead when nothing falls through."""
        for n in body:
            self.exec_stmt(n, st, cx)
            if st.pc is FALSE:
                raise Dead()

    def exec_stmt(self, n, st, cx):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        old = tm.CUR['src']
        tm.CUR['src'] = (cx.mod, n.lineno)
        try:
            m(n, st, cx)
        finally:
            tm.CUR['src'] = old

    def x_Pass(self, n, st, cx):
        pass

    def x_Expr(self, n, st, cx):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(n.value, st, cx)
            return
        self.eval(n.value, st, cx)

    def do_yield(self, y, st, cx):
        r = cx.yields
        if isinstance(y, ast.YieldFrom):
            v = self.eval(y.value, st, cx)
            st.m[(r, '#')] = A.concat(st.m[(r, '#')], self.as_list(v, st))
        else:
            v = self.eval(y.value, st, cx) if y.value is not None else NONE
            st.m[(r, '#')] = self.append_term(st.m[(r, '#')], v)

    def x_Import(self, n, st, cx):
        for a in n.names:
            name = a.asname or a.name.split('.')[0]
            tgt = a.name if a.asname else a.name.split('.')[0]
            v = mk('mod', tgt) if tgt in self.repo.modules else self.norm_ext(tgt)
            self.bind_name(name, v, st, cx)

    def x_ImportFrom(self, n, st, cx):
        mod = self.repo.modules[cx.mod]._abs(n)
        for a in n.names:
            if mod in self.repo.modules:
                v = self.mod_attr(mod, a.name, st)
            else:
                v = self.norm_ext(mod + '.' + a.name)
            self.bind_name(a.asname or a.name, v, st, cx)

    def x_Global(self, n, st, cx):
        cx.globals.update(n.names)

    def x_Nonlocal(self, n, st, cx):
        cx.nonlocals.update(n.names)

    def x_Assert(self, n, st, cx):
        c = self.cond(n.test, st, cx)
        self.raise_(st, mk('exc', 'AssertionError'), not_(c))

    def x_Delete(self, n, st, cx):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.m.pop((cx.frames[0], t.id), None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, cx)
                i = self.eval_index(t.slice, st, cx)
                self.del_item(b, i, st)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st, cx)
                for l in leaves(b):
                    st.m.pop((l, t.attr), None)
                    if l.op != 'ref':
                        st.m[(l, t.attr)] = mk('deleted')
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, n, st, cx):
        v = self.closure(n, st, cx)
        for d in reversed(n.decorator_list):
            s = ast.unparse(d)
            if s.startswith(('functools.wraps', 'wraps')):
                continue
            v = self.call(self.eval(d, st, cx), [v], {}, st)
        self.bind_name(n.name, v, st, cx)

    def closure(self, n, st, cx):
        k = len(self.clos)
        t = mk('clo', k, n.name if isinstance(n, ast.FunctionDef) else '<lambda>')
        defaults = [self.eval(d, st, cx) for d in n.args.defaults]
        kwd = [self.eval(d, st, cx) if d is not None else None for d in n.args.kw_defaults]
        self.clos[k] = (n, cx.mod, cx.qual, cx.owner, list(cx.frames), defaults, kwd, cx.selfterm)
        return t

    def x_ClassDef(self, n, st, cx):
        raise Unsupported('local class')

    def x_Return(self, n, st, cx):
        v = self.eval(n.value, st, cx) if n.value is not None else NONE
        cx.returns.append((st.copy(), v))
        st.pc = FALSE
        raise Dead()

    def x_Raise(self, n, st, cx):
        if n.exc is None:
            e = st.m.get(('exc', 'current'), mk('exc', 'Exception'))
        else:
            # messages are not compared: build the exception for its class
            e = self.eval_exc(n.exc, st, cx)
        self.raise_(st, e)

    def eval_exc(self, x, st, cx):
        if isinstance(x, ast.Call):
            f = self.eval(x.func, st, cx)
            if f.op == 'cls':
                q = f.args[0]
                if q.split(':')[-1] in self.cfg.exc_fields:
                    return self.eval(x, st, cx)
                # arguments are evaluated for their effects only
                for a in list(x.args) + [k.value for k in x.keywords]:
                    self.quiet(a, st, cx)
                return mk('exc', q)
            if f.op == 'ext':
                return mk('exc', f.args[0].replace('builtins.', ''))
            return self.eval(x, st, cx)
        v = self.eval(x, st, cx)
        return v

    def quiet(self, a, st, cx):
        """Evaluate a message; what it computes does not matter."""
        s2 = st.copy()
        keep = self.catching
        self.catching = []
        self.raises.append([])
        try:
            self.eval(a, s2, cx)
        except (Dead, Unsupported):
            pass
        finally:
            self.raises.pop()
            self.catching = keep

    def x_If(self, n, st, cx):
        c = self.cond(n.test, st, cx)

        def ft(s):
            self.exec_block(n.body, s, cx)

        def ff(s):
            self.exec_block(n.orelse, s, cx)
        self.branch(st, c, ft, ff)

    def x_Assign(self, n, st, cx):
        v = self.eval(n.value, st, cx)
        for t in n.targets:
            self.assign(t, v, st, cx)

    def x_AnnAssign(self, n, st, cx):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st, cx), st, cx)

    def x_AugAssign(self, n, st, cx):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, cx)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value, st, cx)
            old = self.get_attr(base, t.attr, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value, st, cx)
            idx = self.eval_index(t.slice, st, cx)
            old = self.get_item(base, idx, st)
        else:
            raise Unsupported('augmented assignment')
        v = self.eval(n.value, st, cx)
        old = restrict(old, st.pc)
        if old.op == 'ref' and isinstance(n.op, ast.Add) and self.cls_of.get(old) == 'list':
            self.set_content(old, A.concat(self.content(old, st), self.as_list(v, st)), st)
            return
        if old.op == 'ref' and isinstance(n.op, ast.BitOr) and self.cls_of.get(old) in ('set', 'dict'):
            self.call_method(old, 'update', [v], {}, st)
            return
        r = self.binop(n.op, old, v, st)
        if old.op == 'ref' and (old, '#') in st.m and self.cls_of.get(old) == 'array':
            self.set_content(old, self.R(r, st), st)
            return
        if isinstance(t, ast.Name):
            self.assign(t, r, st, cx)
        elif isinstance(t, ast.Attribute):
            self.set_attr(base, t.attr, r, st)
        else:
            self.set_item(base, idx, r, st)

    def assign(self, t, v, st, cx):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st, cx)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, st, cx), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, cx)
            i = self.eval_index(t.slice, st, cx)
            self.set_item(b, i, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            k = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            v = restrict(v, st.pc)
            if star:
                i = star[0]
                after = k - i - 1
                for j in range(i):
                    self.assign(t.elts[j], self.get_item(v, num(j), st), st, cx)
                mid = self.get_item(v, mk('slice', num(i), num(-after) if after else NONE, NONE), st)
                self.assign(t.elts[i].value, self.fresh_list(self.as_list(mid, st), st), st, cx)
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], self.get_item(v, num(j - after), st), st, cx)
                return
            items = [self.get_item(v, num(j), st) for j in range(k)]
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, cx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, cx)
        else:
            raise Unsupported('assignment target')

    def bind_name(self, name, v, st, cx):
        if name in cx.globals:
            st.m[('glob:' + cx.mod, name)] = v
            return
        if name in cx.nonlocals:
            for f in cx.frames[1:]:
                if (f, name) in st.m:
                    st.m[(f, name)] = v
                    return
        if not cx.frames:
            raise Unsupported('module-level binding')
        st.m[(cx.frames[0], name)] = v

    def lookup(self, name, st, cx):
        if name not in cx.globals:
            for f in cx.frames:
                v = st.m.get((f, name))
                if v is not None:
                    if v.op == 'ite':
                        v = restrict(v, st.pc)
                    return v
        return self.mod_attr(cx.mod, name, st)

    def x_Try(self, n, st, cx):
        caught = []
        for h in n.handlers:
            caught.append(self.handler_names(h, st, cx))
        flat = tuple(x for c in caught for x in c)
        self.raises.append([])
        self.catching.append(flat)
        ends = []
        body = st.copy()
        nret = len(cx.returns)
        try:
            try:
                self.exec_block(n.body, body, cx)
                ends.append(body)
            except Dead:
                pass
        finally:
            self.catching.pop()
            raised = self.raises.pop()
        if n.orelse and ends:
            try:
                self.exec_block(n.orelse, body, cx)
            except Dead:
                ends = []
        # group raised outcomes per handler
        groups = [[] for _ in n.handlers]
        for pc, m, e in raised:
            name = self._exc_name(e)
            for i, c in enumerate(caught):
                if self._caught(name, c):
                    groups[i].append((pc, m, e))
                    break
            else:
                self.raises[-1].append((pc, m, e))
        for h, g in zip(n.handlers, groups):
            if not g:
                continue
            # all ways into this handler
            s = None
            exc = None
            for pc, m, e in g:
                s2 = State(dict(m), pc)
                s2.m[('exc', 'current')] = e
                s = s2 if s is None else self.merge2(s, s2)
            if h.name:
                s.m[(cx.frames[0], h.name)] = s.m[('exc', 'current')]
            try:
                self.exec_block(h.body, s, cx)
                s.m.pop(('exc', 'current'), None)
                ends.append(s)
            except Dead:
                pass
        r = self.merge(ends)
        if n.finalbody:
            if len(cx.returns) != nret:
                raise Unsupported('return inside try/finally')
            if r is not None:
                self.exec_block(n.finalbody, r, cx)
        if r is None:
            st.pc = FALSE
            raise Dead()
        st.take(r)

    def handler_names(self, h, st, cx):
        if h.type is None:
            return ('BaseException',)
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.eval(t, st.copy(), cx)
            for x in ([v] if v.op != 'tuple' else v.args):
                out.append(self._exc_name(x))
        return tuple(out)

    def x_With(self, n, st, cx):
        for it in n.items:
            v = self.eval(it.context_expr, st, cx)
            if it.optional_vars is not None:
                h = self.hint(self.R(v, st)) or ''
                if h.startswith('spec.') and self.repo.member(h, '__enter__'):
                    # leaving it has no effect
                    x = self.call(self.get_attr(v, '__enter__', st), [], {}, st)
                else:
                    x = mk('enter', self.R(v, st))
                self.assign(it.optional_vars, x, st, cx)
        self.exec_block(n.body, st, cx)

    def x_Break(self, n, st, cx):
        cx.loops[-1].breaks.append(st.copy())
        st.pc = FALSE
        raise Dead()

    def x_Continue(self, n, st, cx):
        cx.loops[-1].continues.append(st.copy())
        st.pc = FALSE
        raise Dead()

    # --------------------------------------------------- expressions

    def eval(self, n, st, cx):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, st, cx)

    def cond(self, n, st, cx):
        """Truth of an expression in this state."""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return restrict(not_(self.cond(n.operand, st, cx)), st.pc)
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)

            def go(i, s):
                c = self.cond(n.values[i], s, cx)
                if i == len(n.values) - 1:
                    return c
                if isand:
                    return self.branch(s, c, lambda q: go(i + 1, q), lambda q: FALSE)
                return self.branch(s, c, lambda q: TRUE, lambda q: go(i + 1, q))
            return restrict(go(0, st), st.pc)
        v = self.eval(n, st, cx)
        return restrict(self.truth(v, st), st.pc)

    def truth(self, v, st):
        def f(x):
            if x.op == 'ref':
                c = self.cls_of.get(x)
                if c is not None and ':' in c:
                    m = self.repo.member(c, '__bool__') or self.repo.member(c, '__len__')
                    if m:
                        r = self.call_func(m[1], '%s.%s' % (m[2], m[1].name), [x], {}, st, owner=m[2], selft=x)
                        return self.truth(r, st)
                    if self.repo.ext_bases(c):
                        return A.truth(self.R(x, st))
                    return TRUE
            if x.op == 'sym' and self.numeric(x):
                return not_(A.eq(x, tm.ZERO))
            d = self.deref(x, st)
            if d.op == 'ite':
                return tm.map_leaves(d, lambda y: A.truth(self.R(y, st)))
            if d.op == 'dict':
                return TRUE if d.args else FALSE
            if d.op == 'set':
                return TRUE if d.args else FALSE
            if is_bool(d):
                return d
            h = self.hint(x)
            if h is not None and ':' in h:
                m = self.repo.member(h, '__bool__') or self.repo.member(h, '__len__')
                if m:
                    r = self.call_func(m[1], '%s.%s' % (m[2], m[1].name), [x], {}, st, owner=m[2], selft=x)
                    return self.truth(r, st)
            return A.truth(self.R(d, st))
        if v.op == 'ite':
            return tm.map_leaves(v, f)
        return f(v)

    def e_Constant(self, n, st, cx):
        return const(n.value)

    def e_Name(self, n, st, cx):
        return self.lookup(n.id, st, cx)

    def e_Attribute(self, n, st, cx):
        t = self.eval(n.value, st, cx)
        return self.get_attr(t, n.attr, st, n)

    def e_Starred(self, n, st, cx):
        raise Unsupported('starred expression')

    def e_NamedExpr(self, n, st, cx):
        v = self.eval(n.value, st, cx)
        self.assign(n.target, v, st, cx)
        return v

    def e_Tuple(self, n, st, cx):
        parts = self.eval_elts(n.elts, st, cx)
        if parts is not None and all(k == 'i' for k, _ in parts):
            return mk('tuple', *[v for _, v in parts])
        return A.concat(*[mk('tuple', v) if k == 'i' else self.as_list(v, st) for k, v in parts])

    def eval_elts(self, elts, st, cx):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st, cx)
                c = self.as_list(v, st)
                if c.op in ('list', 'tuple'):
                    out += [('i', x) for x in c.args]
                else:
                    out.append(('s', c))
            else:
                out.append(('i', self.eval(e, st, cx)))
        return out

    def e_List(self, n, st, cx):
        parts = self.eval_elts(n.elts, st, cx)
        if all(k == 'i' for k, _ in parts):
            c = mk('list', *[v for _, v in parts])
        else:
            c = A.concat(*[mk('list', v) if k == 'i' else v for k, v in parts])
        return self.fresh_list(c, st)

    def fresh_list(self, c, st):
        r = self.new_ref('list')
        if c.op == 'tuple':
            c = mk('list', *c.args)
        st.m[(r, '#')] = c
        return r

    def e_Set(self, n, st, cx):
        r = self.new_ref('set')
        c = mk('set')
        for k, v in self.eval_elts(n.elts, st, cx):
            c = self.setadd(c, v)
        st.m[(r, '#')] = c
        return r

    def setadd(self, c, v):
        if c.op == 'set' and is_const(v) and all(is_const(x) for x in c.args):
            return mk('set', *sorted(set(c.args) | {v}, key=lambda x: x.key))
        return mk('setadd', c, v)

    def e_Dict(self, n, st, cx):
        r = self.new_ref('dict')
        c = mk('dict')
        for k, v in zip(n.keys, n.values):
            if k is None:
                c = self.dict_update(c, self.as_dict(self.eval(v, st, cx), st), st)
                continue
            kt = self.eval(k, st, cx)
            vt = self.eval(v, st, cx)
            c = self.setkey(c, kt, vt)
        st.m[(r, '#')] = c
        return r

    def e_JoinedStr(self, n, st, cx):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st, cx)
                x = self.R(self.deref(x, st), st)
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, st, cx)
                    if self.cfg.typeset:
                        parts += self.typeset(x, spec, st)
                        continue
                    x = app('fmt', x, spec)
                    parts.append(app('strof', x))
                elif v.conversion == 114:
                    parts.append(app('strof', app('repr', x)))
                else:
                    parts.append(self.str_of(x, st))
        return A._bfstr(*parts) if parts else const('')

    def typeset(self, x, spec, st):
        """A value as it is formatted, apart from the blanks around it."""
        ps = spec.args if spec.op == 'fstr' else [spec]
        t = ''.join(p.args[1] if is_str(p) else '?' for p in ps)
        m = re.fullmatch(r'(.?[<>^=])?[-+ ]?0?[\d?]*(?:\.(\d+))?([a-z%]?)', t)
        if not m:
            raise Unsupported('format ' + t)
        if m.group(2) is None and m.group(3) in ('', 's', 'd'):
            return [const(' '), self.str_of(x, st), const(' ')]
        return [const(' '), mk('strof', mk('fmt', x, const('.' + (m.group(2) or '6') + m.group(3)))), const(' ')]

    def str_of(self, x, st):
        def f(y):
            h = self.hint(y)
            if h is not None and ':' in h:
                m = self.repo.member(h, '__str__') or self.repo.member(h, '__repr__')
                if m and not self._is_opaque('%s.%s' % (m[2], m[1].name)):
                    return self.call_func(m[1], '%s.%s' % (m[2], m[1].name), [y], {}, st, owner=m[2], selft=y)
            if h == 'str':
                return y
            if y.op == 'attr' and self.cfg.attr_types.get(y.args[1]) == 'str':
                return y
            return A.strof(y)
        if x.op == 'ite':
            return tm.map_leaves(x, f)
        return f(x)

    def e_BoolOp(self, n, st, cx):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.eval(n.values[i], s, cx)
            if i == len(n.values) - 1:
                return v
            c = restrict(self.truth(v, s), s.pc)
            if isand:
                return self.branch(s, c, lambda q: go(i + 1, q),
                                   lambda q: FALSE if is_bool(v) else v)
            return self.branch(s, c, lambda q: TRUE if is_bool(v) else v,
                               lambda q: go(i + 1, q))
        return go(0, st)

    def e_IfExp(self, n, st, cx):
        c = self.cond(n.test, st, cx)
        return self.branch(st, c, lambda s: self.eval(n.body, s, cx),
                           lambda s: self.eval(n.orelse, s, cx))

    def e_UnaryOp(self, n, st, cx):
        if isinstance(n.op, ast.Not):
            return not_(self.cond(n.operand, st, cx))
        v = self.R(self.deref(self.eval(n.operand, st, cx), st), st)
        if isinstance(n.op, ast.USub):
            return A.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.invert(v)
        raise Unsupported('unary operator')

    def invert(self, v):
        def f(x):
            if is_bool(x):
                return not_(x)
            if x.op == 'arr':
                return grids.each(f, x)
            if x.op == 'invert':
                return x.args[0]
            return mk('invert', x)
        if is_bool(v):
            return not_(v)
        return lift_lazy(f, v)

    def e_BinOp(self, n, st, cx):
        a = self.eval(n.left, st, cx)
        b = self.eval(n.right, st, cx)
        return self.binop(n.op, a, b, st)

    DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__',
              'BitOr': '__or__', 'BitAnd': '__and__', 'MatMult': '__matmul__', 'Mod': '__mod__'}

    def binop(self, op, a, b, st):
        k = type(op).__name__
        a = self.deref(restrict(a, st.pc), st)
        b = self.deref(restrict(b, st.pc), st)
        h = self.hint(a)
        if h is not None and ':' in h and k in self.DUNDER:
            m = self.repo.member(h, self.DUNDER[k])
            if m:
                return self.call_func(m[1], '%s.%s' % (m[2], m[1].name), [a, b], {}, st, owner=m[2], selft=a)
        if k == 'Add' and (self._islist(a) or self._islist(b)):
            return self.fresh_list(A.concat(a, b), st)
        if k == 'Mult' and (a.op == 'list' or b.op == 'list'):
            return self.fresh_list(A.mul(a, b), st)
        if k in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and ('set' in (self.hint(a), self.hint(b))):
            return self.setop(k, self.R(a, st), self.R(b, st))
        if k == 'BitOr' and 'dict' in (self.hint(a), self.hint(b)):
            r = self.new_ref('dict')
            st.m[(r, '#')] = self.dict_update(a, b, st)
            return r
        a, b = self.R(a, st), self.R(b, st)
        f = {'Add': A.add, 'Sub': A.sub, 'Mult': A.mul, 'Div': A.div, 'Pow': A.power}.get(k)
        if f is not None and (a.op == 'arr' or b.op == 'arr'):
            r = self.elementwise(f, a, b)
            if r is not None:
                return r
        if k == 'Add':
            return A.add(a, b)
        if k == 'Sub':
            return A.sub(a, b)
        if k == 'Mult':
            for x, y in ((a, b), (b, a)):
                if is_str(x) and is_num(y):
                    return const(x.args[1] * int(y.args[1]))
                if self.cfg.typeset and is_str(x) and x.args[1].isspace() and not is_num(y):
                    return const(' ')
            return A.mul(a, b)
        if k == 'Div':
            return self.path_div(a, b)
        if k == 'Pow':
            return A.power(a, b)
        if k == 'MatMult':
            return self.matmul(a, b)
        if k == 'FloorDiv':
            return A.floordiv(a, b)
        if k == 'Mod':
            return A.mod(a, b)
        if k == 'BitAnd':
            return self.bitop(a, b, True)
        if k == 'BitOr':
            return self.bitop(a, b, False)
        return app('binop:' + k, a, b)

    def elementwise(self, f, *ts):
        """An operation on written-out arrays of numbers, or None."""
        def numbers(t):
            return t.op == 'arr' and t.args and all(self.numeric(x) or x.op == 'arr' and numbers(x) for x in t.args)
        if not all(numbers(t) or self.numeric(t) for t in ts) or not any(t.op == 'arr' for t in ts):
            return None
        if len(ts) == 1:
            return grids.each(f, ts[0])
        a, b = ts
        if a.op == 'arr' and b.op == 'arr':
            if grids.shape_of(a) != grids.shape_of(b):
                return None
            return grids._zip(f, a, b)
        return grids.each(lambda x: f(x, b), a) if a.op == 'arr' else grids.each(lambda x: f(a, x), b)

    def numeric(self, t):
        """Terms known to be one number."""
        if is_num(t) or A.infinite(t):
            return True
        if t.op in ('poly', 'mono'):
            return all(self.numeric(x) for x in A.factors(t))
        if t.op == 'wrap':
            return self.numeric(t.args[0])
        return t.op == 'sym' and self.cfg.sym_types.get(t.args[0]) == 'num'

    def _islist(self, t):
        return t.op in ('list', 'concat', 'append')

    def path_div(self, a, b):
        def f(x, y):
            if is_str(y) and not is_num(x) or x.op == 'path':
                return mk('path', x, y)
            return A.div(x, y)
        return lift_lazy(f, a, b)

    def bitop(self, a, b, isand):
        if is_bool(a) and is_bool(b):
            return and_(a, b) if isand else or_(a, b)

        def f(x, y):
            if x.op == 'arr' and y.op == 'arr' and grids.shape_of(x) == grids.shape_of(y) and grids.truth(x) and grids.truth(y):
                return grids._zip(and_ if isand else or_, x, y)
            if is_bool(x) and not is_const(y) and not is_bool(y):
                y = mk('pred', y)
            elif is_bool(y) and not is_const(x) and not is_bool(x):
                x = mk('pred', x)
            if is_bool(x) and is_bool(y):
                return and_(x, y) if isand else or_(x, y)
            op = 'bitand' if isand else 'bitor'
            parts = []
            for z in (x, y):
                parts += list(z.args) if z.op == op else [z]
            parts = sorted(set(parts), key=lambda z: z.key)
            return mk(op, *parts) if len(parts) > 1 else parts[0]
        return lift_lazy(f, a, b)

    def setop(self, k, a, b):
        op = {'BitOr': 'union', 'BitAnd': 'inter', 'Sub': 'setdiff', 'BitXor': 'symdiff'}[k]
        if op in ('union', 'inter', 'symdiff'):
            a, b = sorted((a, b), key=lambda z: z.key)
        if op == 'union':
            return C.union(a, b)

        def fold(x, y):
            if x.op == 'set' and y.op == 'set' and all(is_const(z) for z in x.args + y.args):
                p, q = set(x.args), set(y.args)
                r = p & q if op == 'inter' else p - q if op == 'setdiff' else p ^ q
                return mk('set', *sorted(r, key=lambda z: z.key))
            return app(op, x, y)
        return lift_lazy(fold, a, b)

    def e_Compare(self, n, st, cx):
        left = self.eval(n.left, st, cx)

        def go(i, l, s):
            r = self.eval(n.comparators[i], s, cx)
            c = self.compare(n.ops[i], l, r, s)
            if i == len(n.ops) - 1:
                return c
            return self.branch(s, self.truth(c, s), lambda q: go(i + 1, r, q), lambda q: FALSE)
        return go(0, left, st)

    def compare(self, op, a, b, st):
        k = type(op).__name__
        a, b = restrict(a, st.pc), restrict(b, st.pc)
        if k in ('Is', 'IsNot'):
            r = self.is_(a, b, st)
            return r if k == 'Is' else not_(r)
        if k in ('In', 'NotIn'):
            r = self.contains(b, a, st)
            return r if k == 'In' else not_(r)
        if k in ('Eq', 'NotEq'):
            def eqf(x, y):
                hx = self.hint(x)
                if hx is not None and ':' in hx:
                    m = self.repo.member(hx, '__eq__')
                    if m and not self._is_opaque('%s.__eq__' % m[2]):
                        return self.truth(self.call_func(m[1], '%s.__eq__' % m[2], [x, y], {}, st,
                                                         owner=m[2], selft=x), st)
                if x.op == 'ref' and y.op == 'ref' and hx is not None and ':' in hx:
                    return TRUE if x is y else FALSE
                return A.eq(self.R(self.deref(x, st), st), self.R(self.deref(y, st), st))
            r = lift_lazy(eqf, a, b)
            return r if k == 'Eq' else grids.each(not_, r) if r.op == 'arr' else not_(r)
        a = self.R(self.deref(a, st), st)
        b = self.R(self.deref(b, st), st)
        if k == 'Lt':
            return A.lt(a, b)
        if k == 'Gt':
            return A.lt(b, a)
        if k == 'LtE':
            return A.le(a, b)
        if k == 'GtE':
            return A.le(b, a)
        raise Unsupported('comparison ' + k)

    def is_(self, a, b, st):
        def f(x, y):
            if x is y:
                return TRUE
            if (x is NONE and self.numeric(y)) or (y is NONE and self.numeric(x)):
                return FALSE
            if is_const(x) or is_const(y):
                return A.eq(x, y)
            if x.op == 'ref' and y.op == 'ref':
                return FALSE
            if x.op == 'ref' or y.op == 'ref':
                return FALSE
            if {x.op, y.op} <= {'cls', 'ext', 'func'}:
                return FALSE
            p, q = sorted((x, y), key=lambda z: z.key)
            return mk('is', p, q)
        return lift_lazy(f, a, b)

    def e_Subscript(self, n, st, cx):
        b = self.eval(n.value, st, cx)
        i = self.eval_index(n.slice, st, cx)
        return self.get_item(b, i, st)

    def eval_index(self, n, st, cx):
        if isinstance(n, ast.Slice):
            return self.e_Slice(n, st, cx)
        if isinstance(n, ast.Tuple):
            return mk('tuple', *[self.eval_index(e, st, cx) for e in n.elts])
        return self.eval(n, st, cx)

    def e_Slice(self, n, st, cx):
        lo = self.eval(n.lower, st, cx) if n.lower is not None else NONE
        hi = self.eval(n.upper, st, cx) if n.upper is not None else NONE
        step = self.eval(n.step, st, cx) if n.step is not None else NONE
        return mkslice(self.deref(lo, st), self.deref(hi, st), self.deref(step, st))

    def e_Lambda(self, n, st, cx):
        return self.closure(n, st, cx)

    def e_Call(self, n, st, cx):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            s = cx.selfterm
            if s is None:
                raise Unsupported('super() outside of a method')
            c = s.args[0] if s.op == 'cls' else self.hint(s)
            if c is None:
                c = cx.owner
            return mk('super', c, s, cx.owner)
        f = self.eval(n.func, st, cx) if not isinstance(n.func, ast.Attribute) else None
        recv = None
        if f is None:
            recv = self.eval(n.func.value, st, cx)
        args = []
        star = None
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.as_list(self.eval(a.value, st, cx), st)
                if v.op in ('list', 'tuple'):
                    args += list(v.args)
                else:
                    args.append(mk('star', v))
            else:
                args.append(self.eval(a, st, cx))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, st, cx)
            if k.arg is None:
                d = self.deref(v, st)
                if d.op == 'dict' and all(is_str(d.args[i]) for i in range(0, len(d.args), 2)):
                    for i in range(0, len(d.args), 2):
                        kw[val(d.args[i])] = d.args[i + 1]
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = v
        old = tm.CUR['src']
        tm.CUR['src'] = (cx.mod, n.lineno)
        try:
            if recv is not None:
                return self.call_attr(recv, n.func.attr, args, kw, st)
            return self.call(f, args, kw, st)
        finally:
            tm.CUR['src'] = old

    def e_Await(self, n, st, cx):
        raise Unsupported('await')

    def e_Yield(self, n, st, cx):
        self.do_yield(n, st, cx)
        return NONE

    def e_YieldFrom(self, n, st, cx):
        self.do_yield(n, st, cx)
        return NONE

    # ------------------------------------------------ comprehensions

    def _comp(self, gens, st, cx, emit):
        """Nested for/if of a comprehension; `emit(st, cx)` is its body."""
        fr = self.new_frame()
        c2 = Ctx(cx.mod, cx.qual, cx.owner, [fr] + list(cx.frames))
        c2.selfterm = cx.selfterm
        c2.globals = cx.globals

        def level(i, s):
            if i == len(gens):
                emit(s, c2)
                return
            g = gens[i]
            it = self.eval(g.iter, s, cx if i == 0 else c2)

            def body(s2):
                def conds(j, s3):
                    if j == len(g.ifs):
                        level(i + 1, s3)
                        return
                    c = self.cond(g.ifs[j], s3, c2)
                    self.branch(s3, c, lambda q: conds(j + 1, q), lambda q: None)
                conds(0, s2)
            self.run_for(it, lambda v, s2: self.assign(g.target, v, s2, c2), body, None, s, c2)
        level(0, st)
        for k in [k for k in st.m if k[0] == fr]:
            del st.m[k]

    def e_ListComp(self, n, st, cx):
        r = self.new_ref('list')
        st.m[(r, '#')] = mk('list')

        def emit(s, c2):
            v = self.eval(n.elt, s, c2)
            s.m[(r, '#')] = self.append_term(s.m[(r, '#')], v)
        self._comp(n.generators, st, cx, emit)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, cx):
        r = self.new_ref('set')
        st.m[(r, '#')] = mk('set')

        def emit(s, c2):
            v = self.eval(n.elt, s, c2)
            s.m[(r, '#')] = self.setadd(s.m[(r, '#')], self.R(v, s))
        self._comp(n.generators, st, cx, emit)
        return r

    def e_DictComp(self, n, st, cx):
        r = self.new_ref('dict')
        st.m[(r, '#')] = mk('dict')

        def emit(s, c2):
            k = self.eval(n.key, s, c2)
            v = self.eval(n.value, s, c2)
            s.m[(r, '#')] = self.setkey(s.m[(r, '#')], k, v)
        self._comp(n.generators, st, cx, emit)
        return r


def mkslice(lo, hi, step):
    def f(l, h, s):
        if is_num(s) and s is ONE:
            s = NONE
        if is_num(l) and l is ZERO and (s is NONE):
            l = NONE
        return mk('slice', l, h, s)
    return lift_lazy(f, lo, hi, step)


tm.builder('slice')(mkslice)
