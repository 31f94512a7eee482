"""Variance decomposition."""
from sa.interp import Cfg
from sa.helpers import helpers
from sa.terms import sym, mk, NONE, TRUE, FALSE, const, num, not_
from sa.arith import eq
from sa.shapes import structures, model, policies, states, symbols
from sa.vocab import UNP, index_facts

VD = 'pynare.stats.var:var_decomp'
MINIMUM = 40
SELECT = [('all', 'nothing', 0), ('one', 'single', 1), ('two', 'pair', 2)]
STR = {x + str(i): 'str' for x in ('endog', 'stoch') for i in range(2)}
M = sym('model')
FIRST = [sym(x) for x in ('gy', 'gu')]
SECOND = FIRST + [sym(x) for x in ('ghxx', 'ghxu', 'ghuu', 'del2')]


def run(B):
    B.defer = True
    B.rule = ('the decomposition is normalised, with the loop over shocks and the selection of variables, and compared with the '
              'normal form of the variance shares of the orthogonalised shocks.')
    cfg = lambda n=None: Cfg(lengths={mk('attr', M, 'stoch'): num(n)} if n else {}, opaque=dict(UNP), rewrite=index_facts, attr_types={'state': 'ndarray'}, sym_types=STR)
    for kind, arrs in (('first', FIRST), ('second', SECOND)):
        for solved in (TRUE, FALSE):
            for en in SELECT:
                for sc in SELECT:
                  for n in (None, 2, 3):
                    if n and (solved is FALSE or en[2] or sc[2]):
                        continue
                    label = '%s order%s%s, %s and %s' % (kind, ', %d shocks' % n if n else '', '' if solved is TRUE else ' (not solved before)',
                                                      en[0] + ' variable(s)', sc[0] + ' shock(s)')

                    def go():
                        I, J = B.engine(cfg(n)), B.engine(cfg(n))

                        def pick(K, which, name, s):
                            return K.call(mk('func', 'spec.given:' + which[1]), [sym(name + str(i)) for i in range(which[2])], {}, s)

                        def entry(s):
                            m = I.call(mk('func', 'spec.given:measured_' + kind), [M] + arrs + [solved], {}, s)
                            return I.call(mk('func', B.anchor(VD)), [m, pick(I, en, 'endog', s), pick(I, sc, 'stoch', s)], {}, s)
                        c = B.value(I, entry)
                        e = B.value(J, lambda s: J.call(mk('func', 'spec.moments:selected'),
                                                        [M] + FIRST + [pick(J, en, 'endog', s), pick(J, sc, 'stoch', s)], {}, s))
                        B.match(label, c, e)
                    B.guard(label, go)

    # models of known structure, selections of known names
    lst = lambda *xs: mk('list', *[const(x) for x in xs])
    tup = lambda *xs: mk('tuple', *[const(x) for x in xs])
    for i, ks in enumerate(structures(B.tier, longest=3)):
        if not states(ks) or len(ks) > (3 if B.tier == 'quick' else 4):
            continue
        n = len(ks)
        names = ['v%d' % k for k in range(n)]
        chosen = [('all variables', NONE), ('the last variable', const(names[-1])), ('every variable, the last first', lst(*names[::-1])),
                  ('the first variable twice', lst(names[0], names[0])), ('an unknown variable', const('zz')),
                  ('known and unknown variables', tup(names[0], 'e0'))]
        for ne in (1, 2, 3):
            es = ['e%d' % k for k in range(ne)]
            shocks = [('all shocks', NONE), ('the last shock', const(es[-1])), ('every shock, the last first', tup(*es[::-1])),
                      ('the last shock twice', lst(es[-1], es[-1])), ('unknown shocks', lst('v0', es[0]))]
            for j, (ename, en) in enumerate(chosen):
                for k, (sname, sc) in enumerate(shocks):
                    if B.tier == 'quick' and n > 1 and (i + j + k) % 4:
                        continue
                    label = '%s and %s (%s; %d shock%s)' % (ename, sname, ', '.join(ks), ne, 's'[:ne - 1])

                    def go():
                        I, J = B.engine(cfg()), B.engine(cfg())
                        arrs = policies(ks, ne)
                        given = lambda K, s: model(K, ks, ne, s, sigma=symbols('var', ne, ne))

                        def entry(s):
                            m = I.call(mk('func', 'spec.given:measured_first'), [given(I, s)] + arrs + [TRUE], {}, s)
                            return I.call(mk('func', VD), [m, en, sc], {}, s)
                        c = B.value(I, entry)
                        e = B.value(J, lambda s: J.call(mk('func', 'spec.moments:selected'), [given(J, s)] + arrs + [en, sc], {}, s))
                        B.match(label, c, e, raises=True)
                    B.guard(label, go)
    helpers(B, 'ensure_2darray')
