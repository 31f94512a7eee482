"""Second-order solution formulas."""
from sa import terms as tm
from sa.interp import Cfg
from sa.helpers import helpers
from sa.terms import sym, mk, const
from sa.shapes import structures, model, policies, states, symbols
from sa.vocab import UNP, index_facts

SO = 'pynare.core.solve.second_order:'
MINIMUM = 4
M = sym('model')


def run(B):
    B.defer = True
    B.rule = ('the arrays of the second-order solution are normalised, with everything they call inlined, and compared with the '
              'normal form of the second-order expansion of the equilibrium conditions.')
    cls = B.anchor(SO + 'SecondOrderSolution')
    B.anchor(SO + 'SecondOrderSolution.solve')
    gy, gu, gxx = sym('gy'), sym('gu'), sym('gxx')

    def sylvester(I, args, kw, st):
        return gxx

    def solver(I, args, kw, st):
        # the first-order solution of the model, decided by P19
        return I.instantiate('spec.given:LowerSolution', [gy, gu], {}, st)

    def code(part, rec, ks=None, ne=None):
        def syl(I, args, kw, st):
            args, kw = I.norm_sig('pynare.utils.numpy:generalized_sylvester', args, kw)
            rec.append(mk('tuple', *[I.V(a, st) for a in args]))
            return gxx
        op = dict(UNP)
        op['pynare.utils.numpy:generalized_sylvester'] = syl
        I = B.engine(Cfg(opaque=op, rewrite=index_facts))

        def entry(s):
            a = [model(I, ks, ne, s, sigma=symbols('var', ne, ne))] + policies(ks, ne) if ks else [M, gy, gu]
            m = I.instantiate('spec.given:SolvedModel', a, {}, s)
            o = I.instantiate(cls, [m], {}, s)
            return I.call(I.get_attr(o, 'solve', s), [], {}, s)
        return B.value(I, entry, pick=part)

    def spec(part, rec=None, ks=None, ne=None):
        op = dict(UNP)
        if part == 'ghxx':
            def syl(I, args, kw, st):
                rec.append(mk('tuple', *[I.V(a, st) for a in args]))
                return gxx
            op['pynare.utils.numpy:generalized_sylvester'] = syl
        I = B.engine(Cfg(opaque=op, rewrite=index_facts))

        def entry(s):
            args = [model(I, ks, ne, s, sigma=symbols('var', ne, ne))] + policies(ks, ne) if ks else [M, gy, gu]
            return I.call(mk('func', 'spec.second:' + part), args + ([gxx] if part != 'ghxx' else []), {}, s)
        return B.value(I, entry)

    for part in ('ghxx', 'ghxu', 'ghuu', 'del2'):
        def go():
            a, b = [], []
            c = code(part, a)
            s = spec(part, b)
            B.match('policy array ' + part, c, s)
            if part == 'ghxx' and a:
                B.compare('Sylvester equation of ghxx', a[0], b[0])
        B.guard('policy array ' + part, go)

    # models of known structure
    for ks in structures(B.tier):
        for ne in (1, 2, 3):
            if not states(ks):
                continue
            for part in ('ghxx', 'ghxu', 'ghuu', 'del2'):
                def go():
                    a, b = [], []
                    c = code(part, a, ks, ne)
                    s = spec(part, b, ks, ne)
                    B.match(tag, c, s)
                    if part == 'ghxx' and a:
                        B.compare('Sylvester equation: ' + tag, a[0], b[0])
                tag = '%s (%s; %d shock%s)' % (part, ', '.join(ks), ne, 's'[:ne - 1])
                B.guard(tag, go)
    helpers(B, 'matmul_scalar', 'concatenate_maybe_1d', 'matrix_kronecker_product', 'ensure_2darray')
