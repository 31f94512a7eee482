"""First-order solution formulas."""
from sa.interp import Cfg
from sa.helpers import helpers
from sa.terms import sym, mk
from sa.shapes import structures, model, KINDS, USUAL
from sa.vocab import UNP, named_result, index_facts

FO = 'pynare.core.solve.first_order:'
SS = 'pynare.core.solve.statespace:'
MINIMUM = 6
M = sym('model')

AT = {'model': SS.replace('solve.statespace', 'model') + 'Model'}


def cfg(record=None):
    hooks = [named_result('scipy.linalg.ordqz', 6, record)] if record is not None else []
    return Cfg(opaque=dict(UNP), hooks=hooks, rewrite=index_facts,
               attr_types={'statespace': SS + 'StateSpace'})


def state_space(B, fields, names=None, qz=True):
    """Compare the fields of the state space with the specification."""
    def go():
        rc, rs = [], []
        I, J = B.engine(cfg(rc)), B.engine(cfg(rs))
        code, spec = {}, {}
        for f in fields:
            code[f] = B.value(I, lambda s: I.instantiate(B.anchor(SS + 'StateSpace'), [M], {}, s), pick=f)
        for f in fields:
            spec[f] = B.value(J, lambda s: J.call(mk('func', 'spec.linear:generalized_schur'), [M], {}, s),
                              look=lambda v, s: J.get_item(v, tm_const(f), s))
        for f in fields:
            B.match('state space: ' + f, code[f], spec[f])
        if qz:
            B.compare('state space: arguments of the ordered QZ decomposition', rc[0], rs[0])
    B.guard('state space', go)


def tm_const(x):
    from sa.terms import const
    return const(x)


def run(B):
    B.defer = True
    B.rule = ('the matrices computed by the state space and by the public solver are normalised, with everything they '
              'call inlined, and compared with the normal form of the formulas of Villemot (2011).')
    state_space(B, ['jacobian', 'lhs', 'rhs', 'zarrays', 'larrays', 'rarrays'])
    for i, part in enumerate(('gy', 'gu')):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            code = B.value(I, lambda s: I.call(mk('func', B.anchor(FO + 'solve_first_order')), [M], {}, s), pick=i)
            spec = B.value(J, lambda s: J.call(mk('func', 'spec.linear:first_order'), [M], {}, s), pick=i)
            B.match('policy matrix ' + part, code, spec)
        B.guard('policy matrix ' + part, go)

    # models of known structure
    for i, ks in enumerate(structures(B.tier)):
        ne = 1 + i % 2
        tag = ' (%s; %d shock%s)' % (', '.join(ks), ne, 's'[:ne - 1])
        dynamic = [k for k in ks if k != 'static']
        if dynamic:
            def go():
                I, J = B.engine(cfg([])), B.engine(cfg([]))
                for f in ('jacobian', 'lhs', 'rhs'):
                    c = B.value(I, lambda s: I.instantiate(SS + 'StateSpace', [model(I, ks, ne, s)], {}, s), pick=f)
                    e = B.value(J, lambda s: J.call(mk('func', 'spec.linear:generalized_schur'), [model(J, ks, ne, s)], {}, s),
                                look=lambda v, s: J.get_item(v, tm_const(f), s))
                    B.match('state space: ' + f + tag, c, e)
            B.guard('state space' + tag, go)

        def go():
            I, J = B.engine(cfg([])), B.engine(cfg([]))

            def given(E, s):
                m = model(E, ks, ne, s)
                E.set_attr(m, 'statespace', sym('space'), s)
                return m
            for p, part in enumerate(('gy', 'gu')):
                c = B.value(I, lambda s: I.call(mk('func', FO + 'solve_first_order'), [given(I, s)], {}, s), pick=p)
                e = B.value(J, lambda s: J.call(mk('func', 'spec.linear:first_order'), [given(J, s)], {}, s), pick=p)
                if part == 'gy' and 'static' not in ks and c[0] is not e[0]:
                    # blocks of no rows may differ
                    B.open('policy matrix ' + part + tag, 'no static variables')
                else:
                    B.match('policy matrix ' + part + tag, c, e)
        B.guard('policy matrices' + tag, go)
    helpers(B, 'array_shingle', 'find_first')
