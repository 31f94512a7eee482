"""Loops as canonical fixed-point terms.

`mu(tree, sig, init...)` is the value a loop leaves behind: `tree` is the
decision diagram of one iteration over the loop variables (bound names), with
leaves `exit(value)` and `next(new values...)`.
"""
from __future__ import annotations

import itertools

from . import arith as A
from . import containers as C
from . import terms as tm
from .terms import (T, mk, num, const, is_num, is_const, is_bool, TRUE, FALSE, NONE, UNDEF, ZERO, ONE,
                    ite, not_, and_, or_, restrict, leaves, map_leaves, fv, subst, Unsupported,
                    bdd_atoms, cof, theory)


def exit_(v):
    return mk('exit', v)


def _nexts(tree):
    return [l for l in leaves(tree) if l.op == 'next']


def mkmu(tree, phis, inits):
    """Close a loop: the value of its exit."""
    phis, inits = list(phis), list(inits)
    while True:
        nx = _nexts(tree)
        if not nx:
            tree = subst(tree, dict(zip(phis, inits)))
            return map_leaves(tree, lambda l: l.args[0])
        # slice: the loop variables this value depends on
        need = set()
        work = [fv_nonnext(tree)]
        pset = {p: j for j, p in enumerate(phis)}
        todo = [p for p in fv_nonnext(tree) if p in pset]
        while todo:
            p = todo.pop()
            if p in need:
                continue
            need.add(p)
            for l in nx:
                for q in fv(l.args[pset[p]]):
                    if q in pset and q not in need:
                        todo.append(q)
        keep = [j for j, p in enumerate(phis) if p in need]
        if len(keep) != len(phis):
            tree = _keep(tree, keep)
            phis = [phis[j] for j in keep]
            inits = [inits[j] for j in keep]
            nx = _nexts(tree)
            continue
        # values the loop does not change
        m = {}
        for j, p in enumerate(phis):
            if all(l.args[j] is p or (l.args[j] is inits[j] and not (fv(inits[j]) & set(phis)))
                   for l in nx):
                m[p] = inits[j]
        if m:
            keep = [j for j, p in enumerate(phis) if p not in m]
            tree = subst(_keep(tree, keep), m)
            phis = [phis[j] for j in keep]
            inits = [inits[j] for j in keep]
            continue
        # induction variables
        ctr = None
        aff = {}
        for j, p in enumerate(phis):
            steps = {A.sub(l.args[j], p) for l in nx}
            if len(steps) == 1:
                s = steps.pop()
                if not (fv(s) & set(phis)) and _numeric(s, inits[j], p):
                    aff[p] = (inits[j], s, j)
                    if p.args[-1] == 'i' and inits[j] is ZERO and s is ONE:
                        ctr = p
        others = {p: v for p, v in aff.items() if p is not ctr}
        if others:
            if ctr is None:
                ctr = tm.fresh_phi('i')
                phis.append(ctr)
                inits.append(ZERO)
                tree = map_leaves(tree, lambda l: mk('next', *l.args, A.add(ctr, ONE))
                                  if l.op == 'next' else l)
            m = {p: A.add(i0, A.mul(s, ctr)) for p, (i0, s, j) in others.items()}
            keep = [j for j, p in enumerate(phis) if p not in m]
            tree = subst(_keep(tree, keep), m)
            phis = [phis[j] for j in keep]
            inits = [inits[j] for j in keep]
            continue
        break
    pset = frozenset(phis)
    # single-iteration facts that do not depend on the loop
    for a in sorted(bdd_atoms(tree), key=lambda z: z.key):
        if not (fv(a) & pset) and a.op != 'phi':
            hi = mkmu(theory(cof(tree, a, True), a, True), phis, inits)
            lo = mkmu(theory(cof(tree, a, False), a, False), phis, inits)
            return ite(a, hi, lo)
    for j, v in enumerate(inits):
        if v.op == 'ite':
            a = v.args[0]
            i1 = [cof(x, a, True) if x.op == 'ite' else x for x in inits]
            i0 = [cof(x, a, False) if x.op == 'ite' else x for x in inits]
            return ite(a, mkmu(tree, phis, i1), mkmu(tree, phis, i0))
    # a flag that is set once decides the exit
    r = _flag(tree, phis, inits)
    if r is not None:
        return r
    return _close(tree, phis, inits)


def _numeric(s, init, p):
    if p.args[-1] in ('s', 'l'):
        return False
    if s is ZERO:
        return False
    if is_num(s):
        return init.op not in ('list', 'tuple', 'dict', 'set', 'fstr', 'concat', 'undef') and not tm.is_str(init)
    return False


def fv_nonnext(tree):
    """Bound names used by the conditions and the exits."""
    out = set()
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'ite':
            out.update(fv(x.args[0]))
            go(x.args[1])
            go(x.args[2])
        elif x.op == 'exit':
            out.update(fv(x.args[0]))
    go(tree)
    return out


def _keep(tree, keep):
    return map_leaves(tree, lambda l: mk('next', *[l.args[j] for j in keep]) if l.op == 'next' else l)


def _flag(tree, phis, inits):
    """flag := K where c, left alone otherwise; the exit returns the flag and
    the rest of the loop does not look at it."""
    ex = [l for l in leaves(tree) if l.op == 'exit']
    if len(ex) != 1:
        return None
    e = ex[0].args[0]
    if e not in phis:
        return None
    j = phis.index(e)
    nx = _nexts(tree)
    if len(nx) != 1 or not is_const(inits[j]):
        return None
    v = nx[0].args[j]
    if v.op != 'ite' and not is_bool(v):
        if not (is_const(v) or v is e):
            return None
    # the new value as a decision between the flag and one constant
    if e in tm.BOOLEAN_OPS or is_bool(v):
        return None
    ls = leaves(v)
    ks = [l for l in ls if l is not e]
    if len(ks) != 1 or not is_const(ks[0]) or ks[0] is inits[j]:
        return None
    k = ks[0]
    c = map_leaves(v, lambda l: TRUE if l is k else FALSE)
    if e in fv(c):
        return None
    for i, x in enumerate(nx[0].args):
        if i != j and e in fv(x):
            return None
    # conditions outside of the leaf must not look at the flag
    def conds(x, seen):
        if x.op == 'ite' and x not in seen:
            seen.add(x)
            return e in fv(x.args[0]) or conds(x.args[1], seen) or conds(x.args[2], seen)
        return False
    if conds(tree, set()):
        return None
    t2 = map_leaves(tree, lambda l: ite(c, exit_(k), l) if l.op == 'next' else exit_(inits[j]))
    return mkmu(t2, phis, inits)


def _close(tree, phis, inits):
    n = len(phis)
    lvl = max([tm.binder_level(tree)] + [tm.binder_level(i) for i in inits]) + 1
    isb = all(is_bool(l.args[0]) or l.args[0] is UNDEF for l in leaves(tree) if l.op == 'exit') and \
        any(l.op == 'exit' and is_bool(l.args[0]) for l in leaves(tree))
    base = sorted(range(n), key=lambda j: (phis[j].args[-1], inits[j].key))
    groups = []
    for j in base:
        k = (phis[j].args[-1], inits[j].key)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(j)
        else:
            groups.append((k, [j]))
    total = 1
    for _, g in groups:
        for i in range(2, len(g) + 1):
            total *= i
    if total > 24:
        groups = _refine(groups, tree, phis)
        total = 1
        for _, g in groups:
            for i in range(2, len(g) + 1):
                total *= i
    if total > 720:
        orders = [[j for _, g in groups for j in g]]
    else:
        orders = [[j for g in combo for j in g]
                  for combo in itertools.product(*[list(itertools.permutations(g)) for _, g in groups])]
    best = None
    for o in orders:
        names = {phis[j]: mk('phi', 'b', lvl, i, phis[j].args[-1]) for i, j in enumerate(o)}
        t = subst(_keep(tree, o), names)
        kinds = tuple(phis[j].args[-1] for j in o)
        ini = [inits[j] for j in o]
        r = _final(t, (lvl, kinds), ini, isb)
        k = show_key(r)
        if best is None or k < best[0]:
            best = (k, r)
    return best[1]


def show_key(r):
    return r.key


def _refine(groups, tree, phis):
    """Split ties by how the loop uses the variables."""
    col = {}
    for gi, (k, g) in enumerate(groups):
        for j in g:
            col[j] = 'g%d' % gi
    for _ in range(3):
        new = {}
        for j in col:
            m = {p: mk('sym', '~' + col[i] + ('!' if i == j else '')) for i, p in enumerate(phis)}
            t = map_leaves(tree, lambda l: mk('bag2', *sorted(
                [mk('pair', mk('sym', '~' + col[i] + ('!' if i == j else '')), subst(x, m))
                 for i, x in enumerate(l.args)], key=lambda z: z.key)) if l.op == 'next' else l)
            new[j] = col[j] + subst(t, m).key[:8]
        col = new
    out = []
    for gi, (k, g) in enumerate(groups):
        d = {}
        for j in g:
            d.setdefault(col[j], []).append(j)
        for c in sorted(d):
            out.append(((k, c), d[c]))
    return out


def _final(tree, sig, inits, isb):
    if not isb:
        t = mk('mu', tree, sig, *inits)
        r = _special(t)
        return r if r is not None else t
    t = mk('bmu', tree, sig, *inits)
    r = _special_b(tree, sig, inits)
    if r is not None:
        return r
    flip = map_leaves(tree, lambda l: exit_(not_(l.args[0])) if l.op == 'exit' and l.args[0] is not UNDEF else l)
    r = _special_b(flip, sig, inits)
    if r is not None:
        return not_(r)
    u = mk('bmu', flip, sig, *inits)
    return t if t.key < u.key else not_(u)


def _special(t):
    m = C.as_map(t)
    if m is not None:
        n, e, i = m
        if e.op == 'get' and e.args[1] is i and not C.occurs(e.args[0], i) and n is C.len_term(e.args[0]):
            return e.args[0]
    return None


def _special_b(tree, sig, inits):
    """any(x == y for y in ys)  ->  x in ys"""
    if len(inits) != 1 or inits[0] is not ZERO or sig[1] != ('i',):
        return None
    i = mk('phi', 'b', sig[0], 0, 'i')
    if tree.op != 'ite':
        return None
    # enumerate the paths: in range and equal -> True; in range -> next; else False
    ats = bdd_atoms(tree)
    rng = [a for a in ats if a.op == 'lt0' and _range_of(a, i) is not None]
    eqs = [a for a in ats if a.op == 'eq' and i in fv(a)]
    if len(ats) != 2 or len(rng) != 1 or len(eqs) != 1:
        return None
    r, e = rng[0], eqs[0]
    n = _range_of(r, i)
    inr = cof(tree, r, True)
    out = cof(tree, r, False)
    out1 = cof(out, e, True)
    out0 = cof(out, e, False)
    if out1.op != 'exit' or out1 is not out0 or out1.args[0] is not FALSE:
        return None
    a, b = cof(inr, e, True), cof(inr, e, False)
    if a.op != 'exit' or a.args[0] is not TRUE or b.op != 'next':
        return None
    for x, g in (e.args, e.args[::-1]):
        if i not in fv(x) and g.op == 'get' and g.args[1] is i and i not in fv(g.args[0]) \
                and C.len_term(g.args[0]) is n:
            return C.in_term(x, g.args[0])
    return None


def _range_of(a, i):
    n = A.sub(i, a.args[0])
    return n if i not in fv(n) else None


tm._builders['close_mu'] = mkmu


class LoopMixin:

    def x_While(self, n, st, cx):
        if not isinstance(n.test, __import__('ast').Constant):
            if self.try_unroll_while(n, st, cx):
                return

        def condf(s):
            return self.cond(n.test, s, cx)
        self.run_loop(condf, None, lambda s: self.exec_block(n.body, s, cx), n.orelse, st, cx)

    def try_unroll_while(self, n, st, cx):
        """Loops whose test is decided in every round."""
        from .interp import LoopCtx, Dead
        probe = st.copy()
        keepcl = dict(self.clos)
        nret, nraise = len(cx.returns), len(self.raises[-1])
        try:
            c = self.cond(n.test, probe, cx)
        except Dead:
            return False
        finally:
            del self.raises[-1][nraise:]
        if c is FALSE and not n.orelse:
            self.cond(n.test, st, cx)
            return True
        if c is not TRUE:
            return False
        probe = st.copy()
        ok = False
        breaks = []
        owners = {k[0] for k in probe.m} | set(cx.frames)
        before = None
        try:
            for rounds in range(self.cfg.unroll):
                if rounds > 1:
                    now = ({k: v for k, v in probe.m.items() if k[0] in owners}, probe.pc)
                    if now == before and not breaks:
                        # a whole round changed nothing: no further one will
                        self.raise_(probe, mk('exc', 'Diverges'))
                    before = now
                c = self.cond(n.test, probe, cx)
                if c is FALSE:
                    ok = True
                    break
                if c is not TRUE:
                    break
                lc = LoopCtx()
                cx.loops.append(lc)
                try:
                    try:
                        self.exec_block(n.body, probe, cx)
                        ends = [probe]
                    except Dead:
                        ends = []
                finally:
                    cx.loops.pop()
                breaks += lc.breaks
                s = self.merge(ends + lc.continues)
                if s is None:
                    ok = True
                    probe = None
                    break
                probe = s
        except Dead:
            ok = True
            probe = None
        if not ok:
            del cx.returns[nret:]
            del self.raises[-1][nraise:]
            return False
        if probe is not None and n.orelse:
            try:
                self.exec_block(n.orelse, probe, cx)
            except Dead:
                probe = None
        s = self.merge([probe] + breaks)
        if s is None:
            st.pc = FALSE
            raise Dead()
        st.take(s)
        return True

    def x_For(self, n, st, cx):
        it = self.eval(n.iter, st, cx)
        self.run_for(it, lambda v, s: self.assign(n.target, v, s, cx),
                     lambda s: self.exec_block(n.body, s, cx), n.orelse, st, cx)

    def run_for(self, it, assign, body, orelse, st, cx):
        from .interp import LoopCtx, Dead
        it = restrict(it, st.pc)
        if it.op == 'ite':
            c, a, b = it.args
            if not (self.iter_known(a, st) is None and self.iter_known(b, st) is None) or True:
                self.branch(st, c, lambda s: self.run_for(a, assign, body, orelse, s, cx),
                            lambda s: self.run_for(b, assign, body, orelse, s, cx))
                return
        items = self.iter_known(it, st)
        if items is not None and len(items) <= self.cfg.unroll:
            cur = st.copy()
            breaks = []
            for v in items:
                lc = LoopCtx()
                cx.loops.append(lc)
                try:
                    try:
                        assign(v, cur)
                        body(cur)
                        ends = [cur]
                    except Dead:
                        ends = []
                finally:
                    cx.loops.pop()
                breaks += lc.breaks
                cur = self.merge(ends + lc.continues)
                if cur is None:
                    break
            if cur is not None and orelse:
                try:
                    self.exec_block(orelse, cur, cx)
                except Dead:
                    cur = None
            s = self.merge([cur] + breaks)
            if s is None:
                st.pc = FALSE
                raise Dead()
            st.take(s)
            return
        src = self.iter_sym(it, st)
        self.run_loop(None, (src, assign), body, orelse, st, cx)

    def run_loop(self, condf, forsrc, body, orelse, st, cx):
        from .interp import LoopCtx, Dead, State
        base_ref = self.nref
        st0 = st.copy()
        cells = []
        phis = {}
        ctr = tm.fresh_phi('i') if forsrc is not None else None
        allframes = self.nframe
        for _round in range(25):
            s = st0.copy()
            for k in cells:
                s.m[k] = phis[k]
            start = dict(s.m)
            outcomes = []
            self.raises.append([])
            keepret, cx.returns = cx.returns, []
            lc = LoopCtx()
            cx.loops.append(lc)
            try:
                dead_exit = False
                if forsrc is not None:
                    src, assign = forsrc
                    n = C.len_term(src)
                    c = A.lt(ctr, n)
                else:
                    try:
                        c = restrict(condf(s), s.pc)
                    except Dead:
                        c = None
                ends = []
                if c is not None:
                    s_exit = s.copy(and_(s.pc, not_(c)))
                    if s_exit.pc is not FALSE:
                        outcomes.append(('N', s_exit, None))
                    sb = s.copy(and_(s.pc, c))
                    if sb.pc is not FALSE:
                        try:
                            if forsrc is not None:
                                assign(C.get_term(src, ctr), sb)
                            body(sb)
                            ends.append(sb)
                        except Dead:
                            pass
            finally:
                cx.loops.pop()
                rets, cx.returns = cx.returns, keepret
                raised = self.raises.pop()
            ends += lc.continues
            for b in lc.breaks:
                outcomes.append(('B', b, None))
            for rs, v in rets:
                outcomes.append(('R', rs, v))
            for pc, m, e in raised:
                outcomes.append(('E:' + self._exc_name(e), State(m, pc), e))
            nxt = self.merge(ends)
            if nxt is None:
                new = []
            else:
                new = [k for k, v in nxt.m.items()
                       if k not in phis and self._loop_cell(k, v, start, base_ref, st0, phis, ctr, allframes)]
            if not new:
                break
            for k in sorted(new, key=lambda q: (str(q[0]), q[1])):
                init = self._cell_init(k, st0)
                phis[k] = tm.fresh_phi(self._cell_kind(k, init))
                cells.append(k)
        else:
            raise Unsupported('loop does not stabilise')
        inits = [self._cell_init(k, st0) for k in cells]
        plist = [phis[k] for k in cells]
        if nxt is not None:
            vals = [self.R_new(nxt.m.get(k, phis[k]), nxt, base_ref) for k in cells]
        else:
            vals = []
        if ctr is not None:
            plist = plist + [ctr]
            inits = inits + [ZERO]
            vals = vals + [A.add(ctr, ONE)]
        nextleaf = mk('next', *vals) if nxt is not None else None
        out2 = []
        for kind, s1, v in outcomes:
            rel = restrict(s1.pc, st0.pc)
            out2.append((kind, rel, s1, v))
        kinds = {k for k, *_ in out2}
        normal = {'N', 'B'}

        def tree_of(f):
            """Exit value per outcome (None: does not matter)."""
            t = nextleaf
            for kind, rel, s1, v in out2:
                x = f(kind, s1, v)
                leaf = exit_(UNDEF if x is None else x)
                t = leaf if t is None else ite(rel, leaf, t)
            return t

        def result(f):
            xs = [f(kind, s1, v) for kind, rel, s1, v in out2]
            known = {x for x in xs if x is not None}
            if len(known) == 1:
                x = next(iter(known))
                if not (fv(x) & set(plist)):
                    return x
            return mkmu(tree_of(f), plist, inits)

        def is_kind(ks):
            if not (kinds - ks):
                return TRUE
            if not (kinds & ks):
                return FALSE
            return mkmu(tree_of(lambda kind, s1, v: TRUE if kind in ks else FALSE), plist, inits)

        def state_for(ks):
            m = dict(st0.m)
            changed = set(cells)
            for kind, rel, s1, v in out2:
                if kind in ks:
                    for k, x in s1.m.items():
                        y = st0.m.get(k)
                        if x is not y:
                            changed.add(k)
            for k in changed:
                if isinstance(k[0], T) and k[0].op == 'ref' and k[0].args[0] > base_ref:
                    # allocated in the loop, on the way out
                    pass
                val_ = result(lambda kind, s1, v: None if kind not in ks else
                              self._exit_val(k, s1, st0, base_ref))
                m[k] = val_
            return m

        ends = []
        if orelse and 'B' in kinds:
            groups = [{'N'}, {'B'}]
        else:
            groups = [normal]
        for g in groups:
            if not (kinds & g):
                continue
            c = is_kind(g)
            pc = and_(st0.pc, c)
            if pc is FALSE:
                continue
            s1 = State(state_for(g), pc)
            if orelse and 'N' in g:
                try:
                    self.exec_block(orelse, s1, cx)
                except Dead:
                    continue
            ends.append(s1)
        if 'R' in kinds:
            c = is_kind({'R'})
            v = result(lambda kind, s1, v: None if kind != 'R' else self.R_new(v, s1, base_ref))
            cx.returns.append((State(state_for({'R'}), and_(st0.pc, c)), v))
        for k in sorted(x for x in kinds if x.startswith('E:')):
            c = is_kind({k})
            self.raises[-1].append((and_(st0.pc, c), state_for({k}), mk('exc', k[2:])))
        r = self.merge(ends)
        if r is None:
            st.pc = FALSE
            raise Dead()
        st.take(r)

    def _exit_val(self, k, s1, st0, base_ref):
        v = s1.m.get(k)
        if v is None:
            d = self._default(k)
            v = d if d is not None else UNDEF
        return self.R_new(v, s1, base_ref)

    def _cell_init(self, k, st0):
        v = st0.m.get(k)
        if v is not None:
            return v
        d = self._default(k)
        return d if d is not None else UNDEF

    def _cell_kind(self, k, init):
        if A._strlike(init):
            return 's'
        if init.op in ('list', 'concat', 'append'):
            return 'l'
        if k[1] == '#' and isinstance(k[0], T) and self.cls_of.get(k[0]) == 'list':
            return 'l'
        return 'v'

    def _loop_cell(self, k, v, start, base_ref, st0, phis, ctr, allframes):
        loc = k[0]
        if k in start and start[k] is v:
            return False
        if isinstance(loc, T):
            if loc.op == 'ref' and loc.args[0] > base_ref:
                return False
            if loc.op != 'ref':
                if fv(loc) & (set(phis.values()) | {ctr}):
                    raise Unsupported('store into a field of a loop element')
                d = self._default(k)
                if d is v:
                    return False
        elif loc == 'exc':
            return False
        elif loc.startswith('f') and loc[1:].isdigit():
            if int(loc[1:]) > allframes:
                return False
        return True

    def R_new(self, v, st, base_ref):
        """Snapshot of what was allocated inside the loop."""
        rs = [r for r in tm.refs(v) if r.args[0] > base_ref]
        if not rs and v.op != 'clo':
            return v
        m = {}
        for r in rs:
            m[r] = self._reify(r, st, {}, ())
        return subst(v, m)
