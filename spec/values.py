"""What expressions mean."""
import autograd.numpy as np
from autograd.scipy.special import erf


def binary(op, a, b):
    if op == 'PLUS':
        return a + b
    if op == 'MINUS':
        return a - b
    if op == 'MUL':
        return a * b
    if op == 'DIV':
        return a / b
    if op == 'POWER':
        return a ** b


def unary(op, a):
    return a if op == 'PLUS' else -a


def compare(op, a, b):
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    if op == '==':
        return a == b


def function(f, a):
    if f == 'exp':
        return np.exp(a)
    if f in ('log', 'ln'):
        return np.log(a)
    if f == 'log10':
        return np.log10(a)
    if f == 'sqrt':
        return np.sqrt(a)
    if f == 'abs':
        return np.abs(a)
    if f == 'sign':
        return np.sign(a)
    if f == 'sin':
        return np.sin(a)
    if f == 'cos':
        return np.cos(a)
    if f == 'tan':
        return np.tan(a)
    if f == 'asin':
        return np.arcsin(a)
    if f == 'acos':
        return np.arccos(a)
    if f == 'atan':
        return np.arctan(a)
    if f == 'erf':
        return erf(a)
    raise NotImplementedError(f)


def unassigned():
    raise SyntaxError('no value')


def lead(v):
    return v.lead


def lag(v):
    return v.lag


def square(a):
    return a ** 2
