"""Facts and vocabulary shared by the numeric checks."""
from __future__ import annotations

from . import arith as A
from . import terms as tm
from .terms import mk, const, NONE, ZERO


def identity(I, args, kw, st):
    return args[0]


def matmul_scalar(I, args, kw, st):
    if kw or len(args) != 2:
        return I.pure_call('matmul_scalar', args, kw, st)
    return A.mm(I.V(args[0], st), I.V(args[1], st))


def ensure_2d(I, args, kw, st):
    I.assumed.add('axes of length one are not distinguished')
    return args[0]


def find_first(I, args, kw, st):
    args, kw = list(args) + list(kw.values()), {}
    t = I.V(args[0], st) if len(args) == 1 else None
    if t is not None and t.op == 'arr' and t.args and all(x is tm.TRUE or x is tm.FALSE for x in t.args):
        return tm.num(t.args.index(tm.TRUE) if tm.TRUE in t.args else -1)
    return I.pure_call('find_first', args, kw, st)


UNP = {
    'pynare.utils.numpy:find_first': find_first,
    'pynare.utils.numpy:matmul_scalar': matmul_scalar,
    'pynare.utils.numpy:ensure_2darray': ensure_2d,
}

# the index manager is in P15; these are its counts
_COUNTS = {
    'n_dynamic': lambda x: A.sub(mk('attr', x, 'n_endog'), mk('attr', x, 'n_static')),
}


def index_facts(t):
    """Relations between the counts of the index manager (decided by P15)."""
    if t.args[1] in _COUNTS and t.args[0].op == 'attr' and t.args[0].args[1] == 'indexes':
        return _COUNTS[t.args[1]](t.args[0])
    return None


def named_result(fname, n, record):
    """The results of an external routine as new names; its arguments are
    recorded to be compared separately."""
    def hook(I, name, args, kw, st):
        if name != fname:
            return None
        args, kw = I.norm_sig(name, args, kw)
        ts = [I.V(a, st) for a in args] + [tm.mk('kw', k, I.V(kw[k], st)) for k in sorted(kw)]
        record.append(mk('tuple', *ts))
        return mk('tuple', *[tm.sym('%s.%d' % (fname, i)) for i in range(n)])
    return hook
