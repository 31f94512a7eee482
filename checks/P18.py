"""Existence and uniqueness of the stable solution are checked before it is returned."""
from fractions import Fraction
from sa.helpers import helpers
from sa.terms import sym, mk, num
from sa.shapes import structures, model, symbols, KINDS
from checks import P19

MINIMUM = 5
M = sym('model')
INF = mk('ext', 'numpy.inf')
STABLE = [Fraction(1, 2), Fraction(-7, 10), Fraction(0), Fraction(1), Fraction(-1), Fraction(9999, 10000)]
EXPLOSIVE = [Fraction(2), Fraction(10001, 10000), None, Fraction(-3), Fraction(100001, 100000), Fraction(-1000001, 1000000)]


def run(B):
    B.defer = True
    B.rule = ('the conditions under which the state space and the first-order solver raise are derived, with '
              'everything they call inlined, and compared as boolean functions with the conditions of Blanchard and Kahn.')
    P19.state_space(B, ['eigen', 'zarrays', 'larrays', 'rarrays'])

    def drive(f):
        I = B.engine(P19.cfg([]))
        return B.value(I, lambda s: I.call(mk('func', 'spec.gate:' + f), [M], {}, s),
                       only=('ModelIdentificationError',))

    B.anchor(P19.SS + 'StateSpace.verify')
    B.anchor(P19.FO + 'solve_first_order')
    pairs = [
        ('construction of the state space', 'construct', 'rank_of_statics'),
        ('verification of the state space', 'verify', 'conditions'),
        ('verification after a failed verification', 'verify_again', 'conditions'),
        ('verification after a passed verification', 'verify_passed', 'passes'),
        ('first-order solver', 'solve', 'conditions'),
        ('first-order solver after a failed attempt', 'solve_again', 'conditions'),
        ('state transition of the Kalman form', 'kalman', 'conditions'),
    ]
    for name, f, g in pairs:
        def go():
            c = drive(f)
            s = drive(g)
            B.compare('exceptions: ' + name, c[2], s[2])
        B.guard('exceptions: ' + name, go)

    # models of known structure with known eigenvalues
    def decomposed(values):
        def hook(I, name, args, kw, st):
            if name != 'scipy.linalg.ordqz':
                return None
            n = len(values)
            return mk('tuple', symbols('S', n, n), symbols('T', n, n), mk('arr', *[INF if v is None else num(v) for v in values]),
                      mk('arr', *[num(1)] * n), symbols('Q', n, n), symbols('Z', n, n))
        return hook

    for i, ks in enumerate(ks for ks in structures(B.tier, longest=3) if set(ks) - {'static'}):
        nb, nf = sum(-1 in KINDS[k] for k in ks), sum(1 in KINDS[k] for k in ks)
        n = nb + nf
        for m in range(n + 1):
            if B.tier != 'thorough' and m != nf and (i + m) % (4 if len(ks) > 3 else 3):
                continue
            values = (STABLE * 3)[i % 3:][:n - m] + (EXPLOSIVE * 3)[(i + m) % 4:][:m]

            def outcome(f):
                c = P19.cfg()
                c.hooks = [decomposed(values)]
                I = B.engine(c)

                def go(s):
                    return I.call(mk('func', 'spec.gate:' + f), [model(I, ks, 1, s)], {}, s)
                return B.value(I, go, only=('ModelIdentificationError',))

            for name, f, g in pairs[1:4:2] + [pairs[4]]:
                def go():
                    c, s = outcome(f), outcome(g)
                    B.compare(label, c[2], s[2])
                label = 'exceptions: %s (%s; eigenvalues %s)' % (name, ', '.join(ks), ', '.join('infinite' if v is None else str(v) for v in values))
                B.guard(label, go)
    helpers(B, 'find_first')
