"""Edits that keep the behaviour, to probe checks for false alarms."""
import ast
import copy


class _Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            return ast.copy_location(ast.Name(self.m[n.id], n.ctx), n)
        return n


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def local_names(fn):
    a = fn.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg:
        ps.add(a.vararg.arg)
    if a.kwarg:
        ps.add(a.kwarg.arg)
    gl = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            gl |= set(n.names)
    loc = names(fn, ast.Store) - gl
    inner = {n.name for n in ast.walk(fn) if isinstance(n, ast.FunctionDef) and n is not fn}
    exc = {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name}
    return ps, loc - ps - inner - exc


def has_scope(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in ast.walk(fn) if n is not fn)


def blocks(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def pure(e):
    """No calls, so that evaluation can be moved."""
    return not any(isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(e))


def refactorings(tree, fn, text):
    """Yield (description, new module text)."""
    if isinstance(fn, ast.ClassDef):
        return
    path = find(tree, fn)

    def fresh():
        t = copy.deepcopy(tree)
        return t, follow(t, path)

    def out(t):
        ast.fix_missing_locations(t)
        return ast.unparse(t)

    # 1 rename locals
    ps, loc = local_names(fn)
    if loc and not has_scope(fn):
        t, f = fresh()
        m = {x: x + '_renamed' for x in loc}
        f.body = [_Ren(m).visit(s) for s in f.body]
        yield 'rename locals', out(t)
    # 2 no-op statement
    t, f = fresh()
    f.body.insert(1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and len(f.body) > 1 else 0,
                  ast.parse('_unused = None').body[0])
    yield 'noop', out(t)

    nodes = list(ast.walk(fn))
    idx = {id(n): i for i, n in enumerate(nodes)}

    def at(i):
        t, f = fresh()
        return t, f, list(ast.walk(f))[i]

    # 3 if/else flip, early return to else, merge
    for i, n in enumerate(nodes):
        if isinstance(n, ast.If) and n.orelse:
            t, f, m = at(i)
            m.test = ast.UnaryOp(ast.Not(), m.test)
            m.body, m.orelse = m.orelse, m.body
            yield 'L%d flip if' % n.lineno, out(t)
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            t, f, m = at(i)
            v = m.test.values
            inner = ast.If(v[-1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), m.body, [])
            m.test = v[0]
            m.body = [inner]
            yield 'L%d nest if' % n.lineno, out(t)
        if isinstance(n, ast.IfExp):
            t, f, m = at(i)
            m.test, m.body, m.orelse = ast.UnaryOp(ast.Not(), m.test), m.orelse, m.body
            yield 'L%d flip ifexp' % n.lineno, out(t)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            mir = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            k = mir.get(type(n.ops[0]))
            if k and pure(n.left) and pure(n.comparators[0]):
                t, f, m = at(i)
                m.left, m.comparators, m.ops = m.comparators[0], [m.left], [k()]
                yield 'L%d mirror compare' % n.lineno, out(t)
            neg = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            k = neg.get(type(n.ops[0]))
            if k and isinstance(parent(fn, n), (ast.If, ast.While)):
                t, f, m = at(i)
                p = parent(f, m)
                m.ops = [k()]
                p.test = ast.UnaryOp(ast.Not(), m)
                yield 'L%d negate compare' % n.lineno, out(t)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and pure(n.left) and pure(n.right):
            t, f, m = at(i)
            m.left, m.right = m.right, m.left
            yield 'L%d commute mult' % n.lineno, out(t)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            t, f, m = at(i)
            p = parent(f, m)
            swap(f, m, ast.BinOp(ast.Constant(-1), ast.Mult(), m.operand))
            yield 'L%d neg as mult' % n.lineno, out(t)
        # 4 spelling of matrix algebra
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == 'np' and not n.keywords:
            a = n.func.attr
            t, f, m = at(i)
            if a in ('dot', 'matmul') and len(m.args) == 2:
                swap(f, m, ast.BinOp(m.args[0], ast.MatMult(), m.args[1]))
                yield 'L%d np.%s as @' % (n.lineno, a), out(t)
            elif a == 'transpose' and len(m.args) == 1:
                swap(f, m, ast.Attribute(m.args[0], 'T', ast.Load()))
                yield 'L%d transpose as .T' % n.lineno, out(t)
            elif a in ('vstack', 'hstack') and len(m.args) == 1:
                m.func.attr = 'concatenate'
                m.keywords = [ast.keyword('axis', ast.Constant(0 if a == 'vstack' else 1))]
                yield 'L%d %s as concatenate' % (n.lineno, a), out(t)
        # 5 comprehension to loop
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.ListComp) and len(n.value.generators) == 1 \
                and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            t, f, m = at(i)
            blk, j = container(f, m)
            c = m.value
            g = c.generators[0]
            app = ast.Expr(ast.Call(ast.Attribute(ast.Name('_acc', ast.Load()), 'append', ast.Load()), [c.elt], []))
            body = [app]
            for cond in reversed(g.ifs):
                body = [ast.If(cond, body, [])]
            blk[j:j + 1] = [ast.Assign([ast.Name('_acc', ast.Store())], ast.List([], ast.Load()), lineno=m.lineno),
                            ast.For(g.target, g.iter, body, [], lineno=m.lineno),
                            ast.Assign(m.targets, ast.Name('_acc', ast.Load()), lineno=m.lineno)]
            yield 'L%d comprehension to loop' % n.lineno, out(t)
        # 6 for to index loop / while
        if isinstance(n, ast.For) and not n.orelse and isinstance(n.iter, (ast.Name, ast.Attribute)):
            t, f, m = at(i)
            tgt, it = m.target, m.iter
            m.target = ast.Name('_i', ast.Store())
            m.iter = ast.parse('range(len(X))', mode='eval').body
            m.iter.args[0].args[0] = it
            m.body.insert(0, ast.Assign([tgt], ast.Subscript(copy.deepcopy(it), ast.Name('_i', ast.Load()), ast.Load()), lineno=m.lineno))
            yield '?L%d for to index (only for sequences)' % n.lineno, out(t)
        if isinstance(n, ast.For) and not n.orelse and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) \
                and n.iter.func.id == 'enumerate' and isinstance(n.target, ast.Tuple) and len(n.iter.args) == 1:
            t, f, m = at(i)
            it = m.iter.args[0]
            a, b = m.target.elts
            m.target = ast.Name(a.id, ast.Store())
            m.iter = ast.parse('range(len(X))', mode='eval').body
            m.iter.args[0].args[0] = it
            m.body.insert(0, ast.Assign([b], ast.Subscript(copy.deepcopy(it), ast.Name(a.id, ast.Load()), ast.Load()), lineno=m.lineno))
            yield '?L%d enumerate to range(len) (only for sequences)' % n.lineno, out(t)
        if isinstance(n, ast.For) and not n.orelse and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) \
                and n.iter.func.id == 'range' and len(n.iter.args) in (1, 2) and isinstance(n.target, ast.Name) \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)):
            t, f, m = at(i)
            blk, j = container(f, m)
            lo = m.iter.args[0] if len(m.iter.args) == 2 else ast.Constant(0)
            hi = m.iter.args[-1]
            v = m.target.id
            blk[j:j + 1] = [ast.Assign([ast.Name(v, ast.Store())], lo, lineno=m.lineno),
                            ast.While(ast.Compare(ast.Name(v, ast.Load()), [ast.Lt()], [hi]),
                                      m.body + [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1))], [])]
            yield '?L%d range to while (bound must be invariant)' % n.lineno, out(t)
        # 7 temporary for a sub-expression of a simple statement
    for blkn, fld, b in blocks(fn):
        for j, s in enumerate(b):
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and getattr(s, 'value', None) is not None:
                subs = [x for x in ast.walk(s.value) if isinstance(x, (ast.Call, ast.BinOp)) and x is not s.value]
                for x in subs[:4]:
                    if inside_scope(s, x):
                        continue
                    t, f = fresh()
                    m = list(ast.walk(f))[idx[id(x)]]
                    st = list(ast.walk(f))[idx[id(s)]]
                    blk, k = container(f, st)
                    swap(st, m, ast.Name('_tmp', ast.Load()))
                    blk.insert(k, ast.Assign([ast.Name('_tmp', ast.Store())], m, lineno=st.lineno))
                    yield '%sL%d temporary for %s' % ('' if first_eval(s, x) else '?', s.lineno, ast.unparse(x)[:40]), out(t)
            # 8 reorder adjacent independent statements
            if j + 1 < len(b):
                q = b[j + 1]
                if independent(s, q):
                    t, f = fresh()
                    st = list(ast.walk(f))[idx[id(s)]]
                    blk, k = container(f, st)
                    blk[k], blk[k + 1] = blk[k + 1], blk[k]
                    yield 'L%d reorder' % s.lineno, out(t)
            # 9 early return to else
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and j + 1 < len(b):
                t, f = fresh()
                st = list(ast.walk(f))[idx[id(s)]]
                blk, k = container(f, st)
                st.orelse = blk[k + 1:]
                del blk[k + 1:]
                yield 'L%d early return to else' % s.lineno, out(t)
            # 10 inline a temporary used once
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and j + 1 < len(b):
                v = s.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                nxt = [x for x in ast.walk(b[j + 1]) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                if len(uses) == 2 and len(nxt) == 1 and isinstance(b[j + 1], (ast.Assign, ast.Return, ast.Expr)) and pure(s.value):
                    t, f = fresh()
                    st = list(ast.walk(f))[idx[id(s)]]
                    u = list(ast.walk(f))[idx[id(nxt[0])]]
                    blk, k = container(f, st)
                    swap(blk[k + 1], u, st.value)
                    del blk[k]
                    yield 'L%d inline %s' % (s.lineno, v), out(t)
            # 11 unpacking
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) \
                    and isinstance(s.value, ast.Tuple) and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                ns = {e.id for e in s.targets[0].elts}
                if not ns & names(s.value):
                    t, f = fresh()
                    st = list(ast.walk(f))[idx[id(s)]]
                    blk, k = container(f, st)
                    blk[k:k + 1] = [ast.Assign([a], v, lineno=s.lineno) for a, v in zip(st.targets[0].elts, st.value.elts)]
                    yield 'L%d split tuple assignment' % s.lineno, out(t)
    # 12 extract the tail / a block of the body into a helper
    if not has_scope(fn) and not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for n in nodes) \
            and 'super' not in names(fn):
        start = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        body = fn.body
        params, loc = local_names(fn)
        allp = params | loc
        for j in range(start + 1, len(body)):
            tail = body[j:]
            used = set()
            for s in tail:
                used |= names(s, ast.Load)
            bound_before = set(params)
            for s in body[:j]:
                bound_before |= names(s, ast.Store)
            ins = sorted(used & bound_before)
            maybe = set()
            t, f = fresh()
            helper = ast.FunctionDef('_extracted_helper', ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []),
                                     f.body[j:], [], None, lineno=1)
            call = ast.Call(ast.Name('_extracted_helper', ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
            f.body = f.body[:j] + [ast.Return(call)]
            t.body.append(helper)
            unbound = any(maybe_unbound(body[:j], x, params) for x in ins)
            if not unbound:
                yield 'L%d extract tail' % body[j].lineno, out(t)


def maybe_unbound(stmts, x, params):
    if x in params:
        return False
    return not any(x in names(s, ast.Store) and isinstance(s, (ast.Assign, ast.AugAssign, ast.With, ast.AnnAssign)) for s in stmts)


def independent(s, q):
    if not (isinstance(s, ast.Assign) and isinstance(q, ast.Assign)):
        return False
    if not (pure(s.value) or pure(q.value)):
        return False
    for a in (s, q):
        for t in a.targets:
            if not all(isinstance(e, ast.Name) for e in (t.elts if isinstance(t, ast.Tuple) else [t])):
                return False
    d1, d2 = names(s, ast.Store), names(q, ast.Store)
    u1, u2 = names(s, ast.Load), names(q, ast.Load)
    # attribute state may be changed by the call of the other one
    if not (pure(s.value) and pure(q.value)) and any(isinstance(n, (ast.Attribute, ast.Subscript)) for n in ast.walk(s if pure(s.value) else q)):
        return False
    return not (d1 & u2 or d2 & u1 or d1 & d2)


def first_eval(s, x):
    """Everything else in the statement is free of calls."""
    calls = [n for n in ast.walk(s) if isinstance(n, ast.Call)]
    inner = {id(n) for n in ast.walk(x)}
    anc = [n for n in calls if any(m is x for m in ast.walk(n))]
    return all(id(n) in inner or n in anc for n in calls)


def inside_scope(s, x):
    for n in ast.walk(s):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp)) \
                and n is not x and any(m is x for m in ast.walk(n)):
            return True
    return False


def parent(root, n):
    for p in ast.walk(root):
        for c in ast.iter_child_nodes(p):
            if c is n:
                return p


def container(root, n):
    for p in ast.walk(root):
        for f, v in ast.iter_fields(p):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is n:
                        return v, i
    raise KeyError


def swap(root, old, new):
    for p in ast.walk(root):
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
                return
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new
                        return


def find(tree, fn):
    def go(n, p):
        if n is fn:
            return p
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        r = go(x, p + [(f, i)])
                        if r is not None:
                            return r
            elif isinstance(v, ast.AST):
                r = go(v, p + [(f, None)])
                if r is not None:
                    return r
        return None
    return go(tree, [])


def follow(t, path):
    for f, i in path:
        t = getattr(t, f)
        if i is not None:
            t = t[i]
    return t
