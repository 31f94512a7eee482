"""What the functions of model equations are."""
import numpy as np
from autograd import grad, jacobian


def incidence():
    """x has a lag, y and z have a lead."""
    return np.array([[0, np.nan, np.nan], [1, 2, 3], [np.nan, 4, 5]])


def params(name, value):
    return {name: value, 'beta': value.other}


def value(kind, place, side, v, c):
    if kind == 'equation':
        return v - c if side == 'left' else c - v
    if kind == 'binary':
        r = v * c
    elif kind == 'unary':
        r = -v
    else:
        r = np.exp(v)
    return r if side == 'left' else -r


def pair(a, b):
    return [a, b]


def vector(a, b, c):
    return np.array([a, b, c])


def steady_point(model):
    return model.ss.values


def model_point(model):
    """The steady state at each appearance (columns of `incidence`), then the shocks."""
    x, y, z = model.ss.values
    return np.array([x, x, y, z, y, z, 0, 0])


def SteadyJacobian(model):
    f, g = model.steady_repr.func_list
    p = steady_point(model)
    return np.array([np.array(grad(f)(p)), np.array(grad(g)(p))])


def ModelJacobian(model):
    f, g = model.dynamic_repr.func_list
    p = model_point(model)
    return np.array([np.array(grad(f)(p)), np.array(grad(g)(p))])


def ModelHessian(model):
    f, g = model.dynamic_repr.func_list
    p = model_point(model)
    return np.array([np.array(jacobian(grad(f))(p)).flatten('C'),
                     np.array(jacobian(grad(g))(p)).flatten('C')])


def four(a, b, c, d):
    return [a, b, c, d]


def steady_system(x, y, y1, u, a, c):
    return np.array([x - c, c - y, -c, a - c])


def dynamic_system(x, y, y1, u, a, c):
    return np.array([x - c, c - y1, u - c, a - c])


def no_shocks(x, y, y1, u, a, c):
    return np.array([x - c, c - y1, -c, a - c])


def too_many(x, y, y1, u, a, c):
    raise ValueError('number of arguments')


def whole(a):
    return a


def derivatives_SteadyJacobian(p, *fs):
    return np.array([np.array(grad(f)(p)) for f in fs])


def derivatives_ModelJacobian(p, *fs):
    return np.array([np.array(grad(f)(p)) for f in fs])


def derivatives_ModelHessian(p, *fs):
    return np.array([np.array(jacobian(grad(f))(p)).flatten('C') for f in fs])


def fails_ValueError():
    raise ValueError()


def fails_TypeError():
    raise TypeError()


def scaled(x, y):
    return x * y


def product(x, y):
    return np.matmul(x, y)


def kronecker(a, b, c):
    return np.matmul(a, np.kron(b, c))


def fails_KeyError():
    raise KeyError()
