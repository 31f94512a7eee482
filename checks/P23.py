"""Which solution a model shows."""
import itertools
from sa.terms import mk, const, num, val, NONE, TRUE
from checks.P12 import World, base, cfg, call, Z

MO = 'pynare.core.model:Model'
MINIMUM = 300
STEPS = ('solve 1', 'solve 2', 'solve', 'solve first', 'solve 3', 'look', 'look first', 'ask order', 'parameter', 'equation')
EVENTS = ('solve 1', 'solve 2', 'solve 3', 'look', 'look first', 'ask order', 'parameter')


def step(W, I, m, k, s):
    if k in ('solve 1', 'solve 2'):
        call(W, I, m, 'solve', [num(int(k[-1]))], {}, s)
    elif k == 'solve':
        call(W, I, m, 'solve', [], {}, s)
    elif k == 'solve first':
        call(W, I, m, 'solve', [], {'order': num(1)}, s)
    elif k == 'solve 3':
        W.B.said.append(I.call(mk('func', 'spec.solved:attempt'), [m, num(3)], {}, s))
    elif k == 'look':
        I.get_attr(m, 'solution', s)
    elif k == 'look first':
        I.get_attr(m, 'first_order_solution', s)
    elif k == 'ask order':
        I.get_attr(m, 'solution_order', s)
    elif k == 'parameter':
        call(W, I, m, 'add_params', [], {'a': num(7)}, s)
    elif k == 'equation':
        call(W, I, m, 'add_endog', [const('z')], {}, s)
        call(W, I, m, 'add_exprs', [W.equation(I, *Z, s)], {}, s)


def order_after(history, DEFAULT):
    o = None
    for k in history:
        if k in ('solve 1', 'solve 2'):
            o = int(k[-1])
        elif k == 'solve first':
            o = 1
        elif k == 'solve':
            o = DEFAULT
        elif k in ('look', 'look first') and o is None:
            o = DEFAULT
        elif k in ('parameter', 'equation'):
            o = None
    return o


def run(B):
    B.defer = True
    B.rule = ('the solution a model shows after a history of solving, looking and changing its definition is normalised, and compared with '
              'the last one that was asked for since the definition changed.')
    for a in ('solve', 'solution', 'solution_order', 'first_order_solution'):
        B.anchor(MO + '.' + a)
    W = World(B)
    B.said = []
    I = B.engine(cfg())
    DEFAULT = int(val(B.value(I, lambda s: I.call(mk('func', 'spec.solved:default'), [], {}, s))[0]))

    def check(history, what, expected, *args):
        label = '%s after %s' % (what, ', '.join(history) or 'nothing')

        def go():
            I, J = B.engine(cfg()), B.engine(cfg())

            def code(s):
                m = W.model(I, s, **base())
                B.said = []
                for k in history:
                    step(W, I, m, k, s)
                r = I.call(mk('func', 'spec.solved:' + what), [m] + list(args), {}, s)
                return mk('tuple', *B.said, r) if 'solve 3' in history else r

            def spec(s):
                said = [const('not possible')] * history.count('solve 3')
                return mk('tuple', *said, expected) if said else expected
            B.match(label, B.value(I, code), B.value(J, spec), raises=True)
        B.guard(label, go)

    def name(o):
        return mk('list', const('first' if o == 1 else 'second'), num(o))

    for n in range(0, 3):
        for h in itertools.product(STEPS, repeat=n):
            o = order_after(h, DEFAULT)
            check(h, 'shown', name(o or DEFAULT))
            check(h, 'shown_first', name(1))
            check(h, 'shown_order', NONE if o is None else num(o))
    for h in itertools.product(EVENTS, repeat=3):
        o = order_after(h, DEFAULT)
        check(h, 'shown', name(o or DEFAULT))
        check(h, 'shown_order', NONE if o is None else num(o))
    for n in (0, 1):
        for h in itertools.product(STEPS, repeat=n):
            for k in (1, 2):
                check(h, 'same_object', mk('list', TRUE, TRUE), num(k))
                check(h, 'same_named', mk('list', TRUE, num(k), TRUE), num(k))
            check(h, 'asked_twice', mk('list', TRUE, TRUE))
