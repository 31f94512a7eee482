"""When is a linear model rejected?  (Blanchard and Kahn, 1980; Villemot, 2011)"""
import numpy as np

from pynare.core.solve.first_order import solve_first_order
from pynare.core.solve.statespace import StateSpace
from pynare.errors import ModelIdentificationError

from spec.linear import generalized_schur, rotated_jacobian


class Given:
    """What the solver may see of a model."""

    def __init__(self, model, state):
        self.indexes = model.indexes
        self.jacobian = model.jacobian
        self.statespace = state
        self.sigma = model.sigma
        self.first_order_solution = model.first_order_solution


# what the code does

def construct(model):
    return StateSpace(model)


def verify(model):
    StateSpace(model).verify()


def verify_again(model):
    state = StateSpace(model)
    try:
        state.verify()
    except ModelIdentificationError:
        pass
    state.verify()


def verify_passed(model):
    state = StateSpace(model)
    try:
        state.verify()
    except ModelIdentificationError:
        return
    state.verify()


def solve(model):
    return solve_first_order(Given(model, StateSpace(model)))


def solve_again(model):
    given = Given(model, StateSpace(model))
    try:
        solve_first_order(given)
    except ModelIdentificationError:
        pass
    return solve_first_order(given)


def kalman(model):
    return StateSpace(model).kalman_transition


# what it should do

def rank_of_statics(model):
    rotated_jacobian(model)


def conditions(model):
    ix = model.indexes
    found = generalized_schur(model)
    m = np.abs(found['eigen'])
    if np.sum((m > 1) | np.isinf(m)) != ix.n_forward:
        raise ModelIdentificationError()
    Z22 = found['zarrays'][3]
    if np.linalg.matrix_rank(Z22) != Z22.shape[0]:
        raise ModelIdentificationError()


def passes(model):
    rotated_jacobian(model)
