"""Obligations of a check, their verdicts, and the evidence file."""
from __future__ import annotations

import ctypes
import functools
import hashlib
import json
import os
import pickle
import sys
import threading
import time
import traceback
import types

from . import terms as tm
from .terms import T, TRUE, FALSE, NONE, ite, restrict, mk, sym, const, show
from .compare import Aligner, location
from .engine import Engine
from .interp import State, Cfg, Dead
from .repo import Repo

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYNARE_REPO', '/repo')


class TooLong(tm.Unsupported):
    """An obligation that takes too long is left undecided."""

    def __str__(self):
        return 'takes too long'


class WATCH:
    """Interrupts the analysis of one obligation after a while.

    The time for one obligation shrinks when much of the time for the whole
    check is used, so that the check always ends.
    """
    lock = threading.Lock()
    current = None
    thread = None

    def __init__(self, bench):
        used = time.time() - bench.t0
        full = 120 if bench.tier == 'thorough' else 30
        self.limit = full if used < 200 else 5 if used < 400 else 0.5 if used < 500 else 0.03
        self.limit *= float(os.environ.get('SA_PATIENCE', '1'))

    def __enter__(self):
        with WATCH.lock:
            WATCH.current = (threading.get_ident(), time.time() + self.limit)
            if WATCH.thread is None or not WATCH.thread.is_alive():
                WATCH.thread = threading.Thread(target=WATCH.loop, daemon=True)
                WATCH.thread.start()

    def __exit__(self, *a):
        with WATCH.lock:
            WATCH.current = None

    @staticmethod
    def loop():
        while True:
            time.sleep(0.2)
            with WATCH.lock:
                c = WATCH.current
                if c is not None and time.time() > c[1]:
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(c[0]), ctypes.py_object(TooLong))
                    WATCH.current = (c[0], time.time() + 2)


class AnchorLost(Exception):
    """A construct that the property is anchored to does not exist."""


def freeze(f, memo=None):
    """A function whose free variables keep the values they have now."""
    memo = {} if memo is None else memo
    if id(f) in memo:
        return memo[id(f)]
    if not isinstance(f, types.FunctionType) or not f.__closure__:
        return f
    cells = tuple(types.CellType() for c in f.__closure__)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, cells)
    g.__kwdefaults__ = f.__kwdefaults__
    memo[id(f)] = g
    for new, old in zip(cells, f.__closure__):
        try:
            new.cell_contents = freeze(old.cell_contents, memo)
        except ValueError:
            pass
    return g


class Bench:

    def __init__(self, pid, tier='quick', technique=''):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.repo = Repo({'pynare': os.path.join(REPO, 'pynare'),
                          'spec': os.path.join(VERIF, 'spec')})
        self.obs = []
        self.queue = []
        self.defer = False
        self.functions = set()
        self.unknown = set()
        self.assumptions = []
        self.rule = ''

    # ------------------------------------------------------------ results

    def ok(self, name, detail=''):
        self.obs.append(dict(name=name, status='discharged', detail=detail))

    def open(self, name, detail, where=None):
        self.obs.append(dict(name=name, status='undecided', detail=str(detail)[:1500], where=where))

    def bad(self, name, detail, where=None, key=None):
        self.obs.append(dict(name=name, status='violated', detail=str(detail)[:3000], where=where,
                             key=key or name))

    # --------------------------------------------------------- evaluation

    def anchor(self, qual):
        if ':' in qual and '.' in qual.split(':')[1]:
            c, m = qual.rsplit('.', 1)
            try:
                r = self.repo.member(c, m)
            except Exception:
                r = None
            if r is None and self.repo.func(qual) is None:
                raise AnchorLost(qual)
            return qual
        if self.repo.func(qual) is None and self.repo.cls(qual) is None:
            raise AnchorLost(qual)
        return qual

    def engine(self, cfg):
        return Engine(self.repo, cfg)

    def guard(self, name, f):
        """Run one obligation; anything outside the model leaves it undecided.

        Where obligations are deferred, it is run at the end, with the values
        that its variables have now.
        """
        if self.defer:
            self.queue.append(functools.partial(self.guard, name, freeze(f)))
            return None
        n = tm.mark()
        done = False
        try:
            try:
                with WATCH(self):
                    r = f()
                done = True
                return r
            except AnchorLost:
                done = True
                raise
            except tm.Unsupported as e:
                done = not isinstance(e, (tm.Budget, TooLong))
                self.open(name, 'outside of the model: %s' % e)
            except RecursionError:
                self.open(name, 'outside of the model: recursion depth')
            except MemoryError:
                self.open(name, 'outside of the model: memory')
            except Dead:
                done = True
                self.open(name, 'outside of the model: no normal exit')
            except Exception as e:
                if os.environ.get('SA_DEBUG'):
                    raise
                done = True
                self.open(name, 'analysis error: %r %s' % (e, traceback.format_exc()[-600:]))
        except TooLong:
            self.open(name, 'outside of the model: takes too long')
        finally:
            if not done:
                tm.release(n)
        return None

    def settle(self):
        jobs, self.queue, self.defer = self.queue, [], False
        every = int(os.environ.get('SA_EVERY', 1))      # development only: a part of the obligations
        jobs = jobs[::every]
        self.spread(jobs)

    def spread(self, jobs):
        """Run independent obligations, on several processors where there are some."""
        jobs = list(jobs)
        n = min(int(os.environ.get('SA_JOBS', 0)) or len(os.sched_getaffinity(0)), len(jobs), 8)
        if n <= 1:
            for j in jobs:
                j()
            return
        sys.stdout.flush()
        sys.stderr.flush()
        kids = []
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                status = 1
                try:
                    os.close(r)
                    self._work(jobs[w::n], wr)
                    status = 0
                finally:
                    os._exit(status)
            os.close(wr)
            kids.append((pid, r))
        got = []
        lost = None
        for w, (pid, r) in enumerate(kids):
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                obs, fs, unknown, assumed, anchor = pickle.loads(data)
            except Exception:
                self.open('part %d of %d' % (w + 1, n), 'outside of the model: the analysis ended early')
                continue
            lost = lost or anchor
            self.functions |= fs
            self.unknown |= unknown
            self.assumptions += [a for a in assumed if a not in self.assumptions]
            got += [(i * n + w, k, o) for i, k, o in obs]
        self.obs += [o for i, k, o in sorted(got, key=lambda x: x[:2])]
        if lost:
            raise AnchorLost(lost)

    def _work(self, jobs, out):
        WATCH.lock = threading.Lock()
        WATCH.current = WATCH.thread = None
        self.obs, anchor, res = [], None, []
        for i, j in enumerate(jobs):
            k = len(self.obs)
            try:
                j()
            except AnchorLost as e:
                anchor = str(e)
            for q, o in enumerate(self.obs[k:]):
                res.append((i, q, dict(o, where=_where(o.get('where')))))
        with os.fdopen(out, 'wb') as f:
            pickle.dump((res, set(self.functions), {str(x) for x in self.unknown}, list(self.assumptions), anchor), f)

    def outcome(self, I, f, args, kw=None, st=None, effects=None):
        """Value of a call as one term: normal result or raised class, per case."""
        st = State() if st is None else st
        pc0 = st.pc
        I.raises.append([])
        try:
            try:
                v = I.call(f, list(args), dict(kw or {}), st)
                r = effects(v, st) if effects else I.R(I.deref(v, st), st)
                r = restrict(r, st.pc)
            except Dead:
                r = None
            rs = I.raises[-1]
        finally:
            I.raises.pop()
        self.functions |= I.inlined
        self.unknown |= I.unknown
        out = r
        for pc, m, e in rs:
            x = mk('raise', I._exc_name(e))
            c = restrict(pc, pc0)
            if out is None:
                out = x
                acc = c
            else:
                out = ite(c, x, out)
        if out is None:
            raise Dead()
        return restrict(out, pc0)

    def given(self, *facts):
        """A state in which the facts hold."""
        st = State()
        for f in facts:
            st.pc = tm.and_(st.pc, f)
        return st

    def value(self, I, entry, pick=None, st=None, look=None, only=None):
        """(value of the normal exits, their condition, the raised classes).

        With `only`, exceptions of other classes are outside of the claim.
        """
        st = State() if st is None else st
        pc0 = st.pc
        I.raises.append([])
        try:
            try:
                v = entry(st)
                if pick is not None:
                    v = I.get_item(v, const(pick), st) if not isinstance(pick, str) else \
                        I.get_attr(v, pick, st)
                if look is not None:
                    v = look(v, st)
                r = I.R(I.deref(v, st), st)
                pc = st.pc
                r = restrict(r, pc)
            except Dead:
                r, pc = None, FALSE
            rs = I.raises[-1]
        finally:
            I.raises.pop()
        self.functions |= I.inlined
        self.unknown |= I.unknown
        for a in I.assumed:
            if a not in self.assumptions:
                self.assumptions.append(a)
        out = FALSE_RAISE = mk('sym', 'normal')
        for p, m, e in reversed(rs):
            if only is not None and I._exc_name(e).split(':')[-1] not in only:
                continue
            out = ite(restrict(p, pc0), mk('raise', I._exc_name(e)), out)
        return r, pc, out

    def match(self, name, code, spec, raises=False, aligner=None, alive=False):
        """Same value wherever both exit normally; with `raises`, also the
        same exceptions in the same cases."""
        c, cpc, cr = code
        s, spc, sr = spec
        if raises:
            self.compare(name + ' [exceptions]', cr, sr, aligner)
        if c is None and s is not None and spc is not FALSE:
            self.bad(name, 'never returns normally: %s' % show(cr, 3), location(cr))
            return
        if c is None and s is None and (cr is sr or not raises and cr.op == sr.op == 'raise'):
            if alive:
                self.open(name, 'no normal exit of either side')
            else:
                self.ok(name)
            return
        if c is None or s is None:
            self.open(name, 'no normal exit')
            return
        if c is s:
            self.ok(name)
            return
        care = tm.and_(cpc, spc)
        if care is FALSE:
            self.open(name, 'no common normal exit')
            return
        self.compare(name, restrict(c, care), restrict(s, care), aligner)

    def compare(self, name, code, spec, aligner=None):
        if code is spec:
            self.ok(name)
            return True
        ds = (aligner or Aligner()).top(code, spec)
        if os.environ.get('SA_DIFF'):
            print('---', name)
            for d in ds:
                print('   ', d.definite, d.text(6), d.loc())
        if ds and all(d.definite for d in ds):
            d = ds[0]
            self.bad(name, '; '.join(x.text() for x in ds[:3]), d.loc(),
                     key=name)
            return False
        if ds:
            d = next(x for x in ds if not x.definite)
            self.open(name, d.text(), d.loc())
        else:
            self.open(name, 'normal forms differ, no smallest difference')
        return None

    # ------------------------------------------------------------- ending

    def finish(self, minimum=1, level_note='', trusted=None):
        known = load_known()
        n = len(self.obs)
        if n < minimum and not os.environ.get('SA_EVERY'):
            print('ANALYSIS-BROKEN property=%s: %d obligations, at least %d expected'
                  % (self.pid, n, minimum))
            return 2
        bad = [o for o in self.obs if o['status'] == 'violated']
        und = [o for o in self.obs if o['status'] == 'undecided']
        good = [o for o in self.obs if o['status'] == 'discharged']
        listed = [o for o in bad if (self.pid, o['key']) in known]
        new = [o for o in bad if (self.pid, o['key']) not in known]
        for o in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[(self.pid, o['key'])]))
        ev = dict(
            property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
            level='other',
            coverage=dict(
                explanation='Static analysis of the source of /repo as it is now: %s '
                            'Each obligation is a fact about one construct that is derived from the syntax '
                            'trees; nothing of the analysed program is executed.' % self.rule,
                obligations=n, discharged=len(good), undecided=len(und), violated=len(bad),
                functions_analysed=sorted(self.functions),
                source_digest=self.repo.digest(),
                instances=instances(self.obs),
                instances_listed='all' if n <= LISTED else 'every undecided and violated one, and every %d-th other' % (n // LISTED + 1),
            ),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
            violations=[dict(obligation=o['name'], where=_where(o.get('where')), detail=o['detail'][:1000])
                        for o in new])
        if len(ev['violations']) == 0:
            ev['violations'] = []
        path = os.path.join(VERIF, 'evidence', self.pid + '.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('property=%s obligations=%d discharged=%d undecided=%d violated=%d functions=%d wall=%.1fs'
              % (self.pid, n, len(good), len(und), len(bad), len(self.functions), time.time() - self.t0))
        for o in und:
            print('UNDECIDED %s: %s %s' % (o['name'], o['detail'][:300], _where(o.get('where'))))
        if new:
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, self.pid + '.txt')
            with open(rp, 'w') as f:
                for o in new:
                    f.write('%s\n  at %s\n  %s\n' % (o['name'], _where(o.get('where')), o['detail']))
            for o in new:
                print('  %s at %s: %s' % (o['name'], _where(o.get('where')), o['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


LISTED = 1500


def instances(obs):
    """Obligations for the evidence file: all, or all the noteworthy ones and evenly many of the others."""
    every = len(obs) // LISTED + 1 if len(obs) > LISTED else 1
    return [dict(name=o['name'], status=o['status'], detail=(o.get('detail') or '')[:400], where=_where(o.get('where')))
            for i, o in enumerate(obs) if o['status'] != 'discharged' or i % every == 0]


def _where(w):
    if not w:
        return None
    if isinstance(w, (tuple, list)):
        return ':'.join(str(x) for x in w)
    return str(w)


def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {(k['property'], k['key']): k['what'] for k in d.get('known', [])}
