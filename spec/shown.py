"""Things with a summary."""
import numpy as np

from pynare.core.model import Model
from pynare.core.solve.first_order import FirstOrderSolution
from pynare.core.solve.second_order import SecondOrderSolution
from pynare.core.variables import ModelCalibration, VarArray, VariableIndexManager
from pynare.stats.stats import ModelStatistics
from spec.given import Steady


class Space:
    def __init__(self, eigen):
        self.eigen = eigen


class Shown(Model):
    """A model of known structure."""

    is_altered = False

    def solve(self, **kw):
        return self

    def __init__(self, endog, stoch, sigma, ss, eigen, params):
        self.endog = VarArray(endog)
        self.stoch = VarArray(stoch)
        self.params = ModelCalibration(params)
        self.known = [Steady(ss), VariableIndexManager(endog, stoch), sigma, Space(eigen)]

    @property
    def ss(self):
        return self.known[0]

    @property
    def indexes(self):
        return self.known[1]

    @property
    def sigma(self):
        return self.known[2]

    @property
    def statespace(self):
        return self.known[3]


class First(FirstOrderSolution):

    def __init__(self, model, gy, gu):
        super().__init__(model)
        self.gy = gy
        self.gu = gu


class Second(SecondOrderSolution):

    def __init__(self, model, gy, gu, ghxx, ghxu, ghuu, del2):
        super().__init__(model)
        self.lower_solution = First(model, gy, gu)
        self.ghxx = ghxx
        self.ghxu = ghxu
        self.ghuu = ghuu
        self.del2 = del2


class Statistics(ModelStatistics):

    def __init__(self, model, mean, std, corr, autocorr, decomp):
        self.model = model
        self.known = [mean, std, corr, autocorr, decomp]

    def mean(self):
        return self.known[0]

    def std(self):
        return self.known[1]

    def corr(self):
        return self.known[2]

    def autocorr(self, p):
        return np.array(self.known[3][:p])

    def var_decomp(self):
        return self.known[4]


def first(model, gy, gu, kw):
    return str(First(model, gy, gu).summary(**kw))


def second(model, gy, gu, ghxx, ghxu, ghuu, del2, kw):
    return str(Second(model, gy, gu, ghxx, ghxu, ghuu, del2).summary(**kw))


def model(m, kw):
    return str(m.summary(**kw))


def statistics(m, mean, std, corr, autocorr, decomp, kw):
    return str(Statistics(m, mean, std, corr, autocorr, decomp).summary(**kw))

