"""Classification of variables and the order of the decision rule."""
import itertools
from sa.interp import Cfg
from sa.terms import sym, mk, num, not_, const, TRUE, FALSE
from sa.arith import eq
from sa.shapes import KINDS as SHAPES, USUAL

VA = 'pynare.core.variables:'
MINIMUM = 130
GE = 'pynare.core.generic:'
LLX, STOCH = sym('llx'), sym('stoch')
KINDS = 'state cont static dynamic forward pure_forward backward pure_backward mixed'.split()
COUNTS = 'n_static n_forward n_backward n_mixed n_dynamic n_state n_endog'.split()

STATED = [('incidence', ['llx', 'exogenous_jacobian', 'n_endog_inc', 'n_exog'], 'stated_incidence', 2), ('orders', ['dr_order', 'dc_order'], 'stated_orders', 1),
          ('counts', COUNTS, 'stated_counts', 1), ('positions', KINDS, 'stated_positions', 1), ('decision-rule incidence', ['dr.llx'], 'stated_reordered', 1),
          ('columns', ['%s_timed.%d' % (k, p) for k in KINDS for p in (-1, 0, 1)], 'stated_columns', 1),
          ('decision-rule positions', ['dr.' + k for k in KINDS], 'stated_dr_positions', 1),
          ('decision-rule columns', ['dr.%s_timed.%d' % (k, p) for k in KINDS for p in (-1, 0, 1)], 'stated_dr_columns', 1)]


def run(B):
    B.defer = True
    B.rule = ('the index sets, counts and orders of the index manager are normalised for an arbitrary incidence array and '
              'compared with the normal form of their definitions; the incidence array itself is normalised for arbitrary variables.')
    cfg = lambda: Cfg(sym_types={'llx': 'ndarray'},
                      lengths={})
    typer, mgr = B.anchor(VA + 'VariableTyper'), B.anchor(VA + 'VariableIndexManager')

    def same(label, entry, spec, args, raises=False, known=()):
        def go():
            I, J = B.engine(cfg()), B.engine(cfg())
            c = B.value(I, lambda s: entry(I, s), st=B.given(*known))
            e = B.value(J, lambda s: J.call(mk('func', 'spec.classify:' + spec), list(args(J, s)), {}, s), st=B.given(*known))
            B.match(label, c, e, raises=raises)
        B.guard(label, go)

    for k in KINDS:
        same('positions of %s variables' % k,
             lambda I, s, k=k: I.get_attr(I.instantiate(typer, [LLX], {}, s), k, s), k, lambda J, s: [LLX])
        for p, keys in ((-1, (num(-1), const('t-1'), const('-1'))), (0, (num(0), const('t'), const('0'))),
                        (1, (num(1), const('t+1'), const('+1')))):
            for key in keys:
                same('Jacobian columns of %s variables at %s' % (k, key.args[1]),
                     lambda I, s, k=k, key=key: I.get_item(I.get_attr(I.instantiate(typer, [LLX], {}, s), k + '_timed', s), key, s),
                     k + '_timed', lambda J, s, p=p: [LLX, num(p)])

    def manager(I, s):
        """A manager whose incidence array is arbitrary."""
        o = I.instantiate('spec.given:Indexed', [LLX], {}, s)
        return o

    def attr(*names):
        def f(I, s):
            o = manager(I, s)
            for n in names:
                o = I.get_attr(o, n, s)
            return o
        return f

    for k in COUNTS + ['dr_order', 'dc_order']:
        B.anchor(VA + 'VariableIndexManager.' + k)
        same('index manager: ' + k, attr(k), k, lambda J, s: [LLX])
    same('decision-rule incidence', attr('dr', 'llx'), 'reordered', lambda J, s: [LLX])
    for k in KINDS:
        same('index manager, order of declaration: ' + k, attr(k), k, lambda J, s: [LLX])

    # the groups of variables of a model
    for k in ('state', 'pure_forward', 'pure_backward', 'mixed', 'static', 'forward', 'backward'):
        q = B.anchor(GE + 'DynamicModel.%s_vars' % k)

        def go():
            I = B.engine(Cfg())
            J = B.engine(Cfg())
            c = B.value(I, lambda s: I.get_attr(I.instantiate('spec.given:Grouped', [sym('model')], {}, s), k + '_vars', s))
            e = B.value(J, lambda s: J.call(mk('func', 'spec.classify:named_vars'), [sym('model'), const(k)], {}, s))
            B.match('%s variables of the model' % k, c, e)
        B.guard('%s variables of the model' % k, go)

    # construction, for one to three variables of different names
    def named(I, i, s):
        return I.instantiate(VA + 'EndogVar', [const('xyz'[i])], {'lead_lag': sym('periods%d' % i)}, s)

    for n, maker in ((1, 'only'), (2, 'pair'), (3, 'triple')):
        def endog(I, s):
            return I.call(mk('func', 'spec.given:' + maker), [named(I, i, s) for i in range(n)], {}, s)

        def built(*fields):
            def f(I, s):
                o = I.instantiate(mgr, [endog(I, s), STOCH], {}, s)
                for x in fields:
                    o = I.get_attr(o, x, s)
                return o
            return f
        for label, fields, spec, args in (('incidence', ['llx'], 'incidence', []),
                                          ('decision-rule incidence', ['dr', 'llx'], 'dr_incidence', []),
                                          ('states in the order of declaration', ['state'], 'dc_state', []),
                                          ('declared positions', ['var_cols'], 'declared', []),
                                          ('columns of the shocks', ['exogenous_jacobian'], 'exogenous_jacobian', [STOCH])):
            same('%s, %d variable(s)' % (label, n), built(*fields), spec, lambda J, s: [endog(J, s)] + args,
                 raises='incidence' == spec)

    # models of known structure: everything is a number
    def seen(ks):
        return sorted({tuple(sorted(PERIODS[k])) for k in ks})

    def manager_of(I, ks, ne, s, shared):
        sets = {k: I.call(mk('func', 'spec.given:periods_of'), [num(p) for p in PERIODS[k]], {}, s) for k in ks} if shared else {}
        vs = [I.instantiate(VA + 'EndogVar', [const('v%d' % i)], {'lead_lag': sets[k] if shared else I.call(
            mk('func', 'spec.given:periods_of'), [num(p) for p in PERIODS[k]], {}, s)}, s) for i, k in enumerate(ks)]
        es = [I.instantiate(VA + 'StochVar', [const('e%d' % i)], {}, s) for i in range(ne)]
        return I.call(mk('func', 'spec.given:managed'), [I.call(mk('func', 'spec.given:listed'), vs, {}, s), I.call(mk('func', 'spec.given:listed'), es, {}, s)], {}, s)

    def table(ks):
        rows, c = [], 0
        for p in (-1, 0, 1):
            r = []
            for k in ks:
                r.append(num(c) if p in PERIODS[k] else mk('ext', 'numpy.nan'))
                c += p in PERIODS[k]
            rows.append(mk('arr', *r))
        return mk('arr', *rows)

    PERIODS = dict(SHAPES, none=())
    seqs = list(itertools.product(USUAL, repeat=4)) if B.tier == 'thorough' else []
    seqs += [ks for n in (1, 2) for ks in itertools.product(SHAPES, repeat=n)] + list(itertools.product(USUAL, repeat=3))
    seqs += [ks for i, ks in enumerate(itertools.product(USUAL, repeat=4)) if i % 3 == 0]
    seqs += [ks for i, ks in enumerate(itertools.product(SHAPES, repeat=5)) if i % 211 == 7]
    seqs += [ks for i, ks in enumerate(itertools.product(USUAL, repeat=7)) if i % 1201 == 5]
    for i, ks in enumerate(dict.fromkeys(seqs)):
        ne = i % 4
        for label, fs, spec, takes in STATED:
            def go():
                I, J = B.engine(Cfg()), B.engine(Cfg())

                def got(s):
                    o = manager_of(I, ks, ne, s, i % 2)
                    r = []
                    for f in fs:
                        v = o
                        for a in f.split('.'):
                            v = I.get_item(v, num(int(a)), s) if a.lstrip('-').isdigit() else I.get_attr(v, a, s)
                        r.append(v)
                    return mk('tuple', *r)
                c = B.value(I, got)
                e = B.value(J, lambda s: J.call(mk('func', 'spec.classify:' + spec), [J.call(mk('func', 'spec.functions:whole'), [table(ks)], {}, s), num(ne)][:takes], {}, s))
                B.match(tag, c, e, raises=True, alive=True)
            tag = '%s (%s; %d shock(s))' % (label, ', '.join(ks), ne)
            B.guard(tag, go)
