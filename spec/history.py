"""What can be seen of a model whose definition changed."""
import copy

from pynare.core.variables import ModelCalibration
from pynare.errors import CalibrationError


class Made:
    """Something computed from a state of the model."""

    def __init__(self, kind, state, order):
        self.kind = kind
        self.state = state
        self.order = order
        self.__name__ = kind

    def solve(self, *args, **kwargs):
        return self

    @property
    def lower_solution(self):
        return Made('first', self.state, 1)

    @property
    def gy(self):
        return self.state


def functions(r):
    return [f.state for f in r.func_list]


def dynamics(model):
    return [functions(model.dynamic_repr), model.indexes.llx, model.sigma]


def statics(model):
    return [functions(model.steady_repr), model.initial]


def derivative(model):
    return [functions(model.dynamic_repr), functions(model.steady_repr), model.indexes.llx]


def place(model):
    """What the equations say, while the model is being brought up to date."""
    return [functions(model.dynamic_repr), functions(model.steady_repr), model.indexes.llx]


def variables(model):
    model.indexes
    return [[v.name, v.lead_lag, v.initial, v.terminal, v.historical] for v in model.endog]


def stored_variables(model):
    return [[v.name, v.initial, v.terminal, v.historical] for v in model.endog]


def shocks(model):
    return [[v.name, v.variance, v.corr, v.cov, v.other] for v in model.stoch] + [[v.name, v.periods, v.values] for v in model.determ]


def names(model):
    return [list(model.endog.names), list(model.stoch.names), list(model.determ.names)]


def parameters(model):
    return {k: model.model_scope[k] for k in sorted(model.model_scope)}


def definition(model):
    return [names(model), parameters(model), dict(model.local_params), [e for e in model.exprs], model.language, model.name]


def incidence(model):
    return [model.indexes.llx, model.indexes.n_endog]


def types(model):
    return [model.indexes.state, model.indexes.static, model.indexes.mixed, model.indexes.forward]


def steady(model):
    return [functions(model.steady_repr), model.steady_repr.n_endog]


def dynamic(model):
    return [functions(model.dynamic_repr), model.dynamic_repr.n_vars, model.dynamic_repr.n_endog]


def covariance(model):
    return model.sigma


def statespace(model):
    return model.statespace.state


def jacobian(model):
    return model.jacobian.state


def hessian(model):
    return model.hessian.state


def solution(model):
    return [model.solution.state, model.solution.order]


def solution_first(model):
    return [model.first_order_solution.state, model.first_order_solution.order]


def steadystate(model):
    return [model.ss.state, model.steady_repr.jacobian.state]


def moments(model):
    return [model.stats.model.indexes.llx, model.stats.model.sigma]


def groups(model):
    return [[v.name for v in model.state_vars], [v.name for v in model.static_vars], len(model.exog)]


def order_known(model):
    return model.solution_order


def calibrated(c):
    return [(k, c[k]) for k in sorted(c)]


def no_calibration():
    raise CalibrationError(1)


def size(c):
    return len(c)


def holds(c, k):
    return k in c


def recalibrated(c):
    return ModelCalibration(c)


def deep(c):
    return copy.deepcopy(c)


def shallow(c):
    return copy.copy(c)


def no_parameter():
    raise KeyError('no parameter')
