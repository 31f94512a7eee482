"""The solution that a model shows."""
from pynare.core.solve import default_order


def default():
    return default_order


def attempt(model, order):
    try:
        model.solve(order)
    except ValueError:
        return 'not possible'


def shown(model):
    return [model.solution.kind, model.solution.order]


def shown_first(model):
    return [model.first_order_solution.kind, model.first_order_solution.order]


def shown_order(model):
    return model.solution_order


def same_object(model, order):
    s = model.solve(order)
    return [s is model.solution, model.solution is model.solution]


def same_named(model, order):
    s = model.solve(order=order)
    return [s is model.solution, s.order, s.state == model.solution.state]


def asked_twice(model):
    s = model.solution
    return [s is model.solution, s.order == model.solution_order]


def made_from(model):
    return model.solution.state
