"""What the analysed routines may see of a model whose earlier stages are
decided by other properties."""
from pynare.core.solve.base import LinearSolution
from pynare.parsing.ast import AST
from pynare.core.generic import DynamicModel
from pynare.parsing.factory import DynareModelFactory, ModelOutline, ScopedMemory
from pynare.core.linearizing import ModelJacobian
from pynare.core.variables import VarArray, VariableIndexManager, VariableTyper


class LowerSolution:
    order = 1

    def __init__(self, gy, gu):
        self.gy = gy
        self.gu = gu


class SolvedModel:

    def __init__(self, model, gy, gu):
        self.indexes = model.indexes
        self.jacobian = model.jacobian
        self.hessian = model.hessian
        self.sigma = model.sigma
        self.name = model.name
        self.gy = gy
        self.gu = gu

    def solve(self, order=0):
        if order == 1:
            return LowerSolution(self.gy, self.gu)
        raise ValueError()


class Simulated:
    """A solved model, as the simulation sees it."""

    def __init__(self, model, solution):
        self.indexes = model.indexes
        self.ss = model.ss
        self.sigma = model.sigma
        self.stoch = model.stoch
        self.endog = model.endog
        self.solution = solution

    def update(self):
        pass

    def solve(self, order=0):
        return self.solution


class First(LinearSolution):
    order = 1

    def __init__(self, gy, gu):
        self.gy = gy
        self.gu = gu


class Second(LinearSolution):
    order = 2

    def __init__(self, gy, gu, ghxx, ghxu, ghuu, del2):
        self.lower_solution = First(gy, gu)
        self.ghxx = ghxx
        self.ghxu = ghxu
        self.ghuu = ghuu
        self.del2 = del2


def simulated_first(model, gy, gu):
    return Simulated(model, First(gy, gu))


def simulated_second(model, gy, gu, ghxx, ghxu, ghuu, del2):
    return Simulated(model, Second(gy, gu, ghxx, ghxu, ghuu, del2))


class Measured:
    """A model with a solution of known order, or not solved yet."""

    def __init__(self, model, solution, solved):
        self.indexes = model.indexes
        self.ss = model.ss
        self.sigma = model.sigma
        self.endog = model.endog
        self.stoch = model.stoch
        self.statespace = model.statespace
        self.made = solution
        self.solution_order = None
        if solved:
            self.solve()

    def solve(self):
        self.solution = self.made
        self.solution_order = self.made.order
        return self.made


def measured_first(model, gy, gu, solved):
    return Measured(model, First(gy, gu), solved)


def measured_second(model, gy, gu, ghxx, ghxu, ghuu, del2, solved):
    return Measured(model, Second(gy, gu, ghxx, ghxu, ghuu, del2), solved)


class Transition:
    """What the state space may see of a model for its own moments."""

    def __init__(self, model, gy, gu):
        self.indexes = model.indexes
        self.sigma = model.sigma
        self.jacobian = model.jacobian
        self.first_order_solution = First(gy, gu)


def pair(a, b):
    return [a, b]


def nothing():
    return None


def single(a):
    return a


class Indexed(VariableIndexManager):
    """An index manager with an arbitrary incidence array."""

    def __init__(self, llx):
        self.llx = llx
        self.dr_typer = VariableTyper(llx[:, self.dr_order])
        self.dc_typer = VariableTyper(llx)


def only(a):
    return [a]


def triple(a, b, c):
    return [a, b, c]


class Grouped(DynamicModel):
    """The groups of variables of a model, by its index manager."""

    def __init__(self, model):
        self.endog = model.endog
        self.model = model

    @property
    def indexes(self):
        return self.model.indexes


class Part(AST):
    """A part of an expression with an arbitrary meaning."""

    def __init__(self, meaning):
        self.meaning = meaning


def empty():
    return {}


def holding(name, value):
    return {name: value, 'other': value.other}


def without(name, value):
    return {'other': value.other}


def timed(name, value):
    return {name + 'm1': value.lag, name: value, name + 'p1': value.lead}


class Scope:
    def __init__(self, name, value):
        self.name = name
        self.value = value

    def lookup(self, name):
        return self.value if name == self.name else None


class Named:
    """Variables of which only the names matter here."""

    def __init__(self, names):
        self.names = names

    def __len__(self):
        return len(self.names)


class Incidence:
    def __init__(self, llx, n):
        self.llx = llx
        self.n_endog_inc = n


class Equations:
    """A model of which only the equations matter."""

    def __init__(self, endog, stoch, llx, n, params, exprs):
        self.endog = Named(endog)
        self.stoch = Named(stoch)
        self.indexes = Incidence(llx, n)
        self.model_scope = params
        self.exprs = exprs


class Steady:
    def __init__(self, values):
        self.values = values


class Repr:
    def __init__(self, funcs):
        self.func_list = funcs


class Derived:
    """A model of which only the functions and the steady state matter."""

    def __init__(self, funcs, ss, llx, stoch):
        self.dynamic_repr = Repr(funcs)
        self.steady_repr = Repr(funcs)
        self.ss = Steady(ss)
        self.indexes = Incidence(llx, None)
        self.stoch = stoch

    @property
    def jacobian(self):
        return ModelJacobian(self)


def listed(*xs):
    return list(xs)


def lead_lags(vs):
    return [v.lead_lag for v in vs]


class Variables:
    """Variable objects and their names."""

    def __init__(self, vs):
        self.vs = vs
        self.names = tuple([v.name for v in vs])

    def __iter__(self):
        return iter(self.vs)

    def __len__(self):
        return len(self.vs)

    def __getitem__(self, i):
        return self.vs[i]


class Shocking(DynareModelFactory):
    """The reader of a file, at its shocks."""

    def __init__(self):
        self.outline = ModelOutline('dynare')
        self.model_scope = ScopedMemory()
        self.file_scope = ScopedMemory(enclosing_scope=self.model_scope)


class Stochastic(DynamicModel):
    """A model whose shocks were just set."""

    def __init__(self, stoch):
        self.stoch = stoch
        self.endog = None
        self.exprs = None
        self.is_altered = True


class Arrayed:
    def __init__(self, array):
        self.array = array


class Structured:
    """A model of known structure: which variable appears when."""

    def __init__(self, endog, stoch, jacobian, hessian, sigma, ss, space):
        self.endog = VarArray(endog)
        self.stoch = VarArray(stoch)
        self.statespace = space
        self.ss = Steady(ss)
        self.indexes = VariableIndexManager(endog, stoch)
        self.jacobian = Arrayed(jacobian)
        self.hessian = Arrayed(hessian)
        self.sigma = sigma
        self.name = ''
        self.first_order_solution = None


def periods_of(*ps):
    return set(ps)


def managed(endog, stoch):
    return VariableIndexManager(VarArray(endog), VarArray(stoch))
