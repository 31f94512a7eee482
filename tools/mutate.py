#!/usr/bin/env python3
"""Sensitivity and false-alarm probe of a check (development tool).

mutate.py P19 'core.solve.first_order:.*' [...]     one-node edits that change behaviour
mutate.py P19 --refactor 'core.solve.*:.*'          edits that keep the behaviour
"""
import ast
import copy
import io
import contextlib
import importlib
import multiprocessing as mp
import os
import re
import sys
import random
import threading
import time
import resource
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
os.environ.setdefault('SA_PATIENCE', '0.15')
os.environ['SA_JOBS'] = '1'
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.setrecursionlimit(12000)
threading.stack_size(512 * 1024 * 1024)

from sa.repo import Repo
from sa.bench import Bench, AnchorLost, REPO, load_known
KNOWN = load_known()
import sa.bench
import sa.terms as tm


def functions(tree, prefix=''):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield prefix + n.name, n
        elif isinstance(n, ast.ClassDef):
            yield from functions(n, prefix + n.name + '.')
            yield prefix + n.name, n


def mutations(fn):
    """(description, apply, undo) for one function node"""
    skip = set()
    for n in ast.walk(fn):
        # not in docstrings, f-strings of messages, or annotations
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n.value)
        if isinstance(n, ast.arg) and n.annotation is not None:
            for m in ast.walk(n.annotation):
                skip.add(m)
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            for m in ast.walk(n.returns):
                skip.add(m)
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(m)
    def field(n, f, new, d):
        return (d, n, f, new)
    for n in ast.walk(fn):
        if n in skip:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
                   ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div,
                   ast.MatMult: ast.Mult}
            a = alt.get(type(n.op))
            if a:
                yield field(n, 'op', a(), '%d %s -> %s' % (ln, type(n.op).__name__, a.__name__))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult)):
                yield ('%d swap operands' % ln, n, ('left', 'right'), (n.right, n.left))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            yield ('%d drop %s' % (ln, type(n.op).__name__), n, 'REPLACE', n.operand)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
                   ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            a = alt[type(n.ops[0])]
            yield field(n, 'ops', [a()], '%d %s -> %s' % (ln, type(n.ops[0]).__name__, a.__name__))
        elif isinstance(n, ast.BoolOp):
            a = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield field(n, 'op', a(), '%d boolop' % ln)
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    yield field(n, 'values', n.values[:i] + n.values[i+1:], '%d drop operand %d' % (ln, i))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield field(n, 'value', not n.value, '%d bool %r' % (ln, n.value))
            elif isinstance(n.value, int):
                yield field(n, 'value', n.value + 1, '%d const %r+1' % (ln, n.value))
                if n.value:
                    yield field(n, 'value', n.value - 1, '%d const %r-1' % (ln, n.value))
            elif isinstance(n.value, float):
                yield field(n, 'value', n.value * 2 + 1, '%d const %r' % (ln, n.value))
            elif isinstance(n.value, str) and n.value:
                yield field(n, 'value', n.value + '_x', '%d str %r' % (ln, n.value))
        elif isinstance(n, ast.If):
            yield ('%d drop if body' % ln, n, 'body', [ast.Pass()])
            yield ('%d always true' % ln, n, 'test', ast.Constant(True))
            yield ('%d always false' % ln, n, 'test', ast.Constant(False))
        elif isinstance(n, ast.IfExp):
            yield ('%d ifexp swap' % ln, n, ('body', 'orelse'), (n.orelse, n.body))
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield ('%d swap args 0,1' % ln, n, 'args', [n.args[1], n.args[0]] + n.args[2:])
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
                yield ('%d drop call %s' % (ln, ast.unparse(n.func)), n, 'REPLACE', n.args[0])
            if n.keywords:
                for i in range(len(n.keywords)):
                    yield ('%d drop kw %s' % (ln, n.keywords[i].arg), n, 'keywords', n.keywords[:i] + n.keywords[i+1:])
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            alts = {'backward': 'forward', 'forward': 'backward', 'n_forward': 'n_backward', 'n_static': 'n_mixed',
                    'n_backward': 'n_forward', 'state': 'static', 'mixed': 'static', 'lhs': 'rhs', 'gy': 'gu', 'gu': 'gy',
                    'T': None, 'append': None, 'n_mixed': 'n_static'}
            if n.attr in alts and alts[n.attr]:
                yield ('%d attr %s' % (ln, n.attr), n, 'attr', alts[n.attr])
            elif n.attr == 'T':
                yield ('%d drop .T' % ln, n, 'REPLACE', n.value)
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                yield ('%d drop slice lower' % ln, n, 'lower', None)
            if n.upper is not None:
                yield ('%d drop slice upper' % ln, n, 'upper', None)
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            yield ('%d swap tuple' % ln, n, 'elts', [n.elts[1], n.elts[0]] + n.elts[2:])
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr,)) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)):
                        continue
                    nb = b[:i] + b[i+1:] or [ast.Pass()]
                    yield ('%d drop stmt: %s' % (s.lineno, ast.unparse(s).split('\n')[0][:60]), n, f, nb)


class Rep(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return self.generic_visit(n)


def render(tree, mut):
    d, n, f, new = mut
    if f == 'REPLACE':
        # shallow swap: find parent field
        for p in ast.walk(tree):
            for name, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, name, new)
                    t = ast.unparse(tree)
                    setattr(p, name, n)
                    return t
                if isinstance(v, list):
                    for i, x in enumerate(v):
                        if x is n:
                            v[i] = new
                            t = ast.unparse(tree)
                            v[i] = n
                            return t
        return None
    fs = f if isinstance(f, tuple) else (f,)
    ns = new if isinstance(f, tuple) else (new,)
    old = [getattr(n, x) for x in fs]
    for x, v in zip(fs, ns):
        setattr(n, x, v)
    try:
        ast.fix_missing_locations(tree)
        return ast.unparse(tree)
    finally:
        for x, v in zip(fs, old):
            setattr(n, x, v)


def eager(B):
    """The obligations in some other order, until one is violated or the time is up."""
    jobs, B.queue, B.defer = B.queue, [], False
    jobs = jobs[::int(os.environ.get('SA_EVERY', 1))]
    random.Random(1).shuffle(jobs)
    end = time.time() + float(os.environ.get('SA_LIMIT', 120))
    for j in jobs:
        j()
        if time.time() > end or any(o['status'] == 'violated' and (B.pid, o['key']) not in KNOWN for o in B.obs[-3:]):
            break


def one(job):
    pid, mod, text, desc = job
    try:
        compile(text, mod, 'exec')
    except Exception as e:
        return desc, 'nocompile', ''
    Repo.OVERLAY = {mod: text}
    res = []

    def go():
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                B = Bench(pid)
                m = importlib.import_module('checks.' + pid)
                m.run(B)
                eager(B)
            bad = [o for o in B.obs if o['status'] == 'violated' and (pid, o['key']) not in KNOWN]
            und = [o for o in B.obs if o['status'] == 'undecided']
            if bad:
                res.append(('VIOLATION', bad[0]['name'] + ': ' + str(bad[0]['detail'])[:260] + ' @' + str(bad[0].get('where'))))
            elif und:
                res.append(('undecided', '; '.join(o['name'] + ': ' + str(o['detail'])[:260] for o in und[:2])))
            else:
                res.append(('quiet', ''))
        except AnchorLost as e:
            res.append(('ANCHOR', str(e)))
        except BaseException as e:
            res.append(('ERROR', repr(e)[:300]))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return (desc,) + (res[0] if res else ('ERROR', 'no result'))


def main():
    args = sys.argv[1:]
    pid = args[0]
    refac = '--refactor' in args
    verbose = '-v' in args
    pats = [a for a in args[1:] if not a.startswith('-')]
    R = Repo({'pynare': os.path.join(REPO, 'pynare')})
    jobs = []
    for name, m in R.modules.items():
        tree = ast.parse(m.text)
        for q, fn in functions(tree):
            full = name.replace('pynare.', '', 1) + ':' + q
            if not any(re.fullmatch(p, full) for p in pats):
                continue
            if refac:
                import refactor
                for d, text in refactor.refactorings(tree, fn, m.text):
                    jobs.append((pid, name, text, '%s %s' % (full, d)))
                continue
            if isinstance(fn, ast.ClassDef):
                continue
            for mu in mutations(fn):
                t = render(tree, mu)
                if t is not None:
                    jobs.append((pid, name, t, '%s L%s' % (full, mu[0])))
    count = {}
    with mp.Pool(8, maxtasksperchild=8) as pool:
        for desc, st, det in pool.imap(one, jobs):
            if 'unresolved name' in det and not refac:
                st = 'undefined name'
            count[st] = count.get(st, 0) + 1
            want = ('VIOLATION', 'undecided', 'ERROR', 'ANCHOR') if refac else ('quiet', 'undecided', 'ERROR', 'ANCHOR')
            if st in want or verbose:
                print('%-10s %s | %s' % (st, desc, det))
    print(count)


if __name__ == '__main__':
    main()
