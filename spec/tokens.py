"""Streams of tokens in place of text."""
import numpy as np

import pynare.parsing.base as base
import pynare.parsing.dynare as dyn
from pynare.parsing.base import Token, BaseEvaluator, reserved_funcs
from pynare.parsing.lexer import BaseLexer, DynareLexer
from pynare.parsing.api import read_model, evaluate
from pynare.parsing.parser import BaseParser
from pynare.core.expressions import DynamicFunc
from pynare.core.model import Model

SYMBOLS = {
    ',': base.COMMA, ';': base.SEMI, ':': base.COLON, '#': base.POUND, '(': base.LPARE, ')': base.RPARE, '[': base.LBRACKET,
    ']': base.RBRACKET, '+': base.PLUS, '-': base.MINUS, '*': base.MUL, '/': base.DIV, '^': base.POWER, '=': base.EQUALS,
    '<': base.LT, '<=': base.LTOE, '>': base.GT, '>=': base.GTOE, '==': base.EQUALITY, '{': base.LBRACE, '!': base.EXCLAMATION,
}


def symbol(s):
    return Token(SYMBOLS[s], '**' if s == '^' else s, 1, 1)


def keyword(s):
    return dyn.dynare_reserved_kw[s]


def function(s):
    return reserved_funcs[s]


def identifier(s):
    return Token(base.ID, s, 1, 1)


def number(v):
    return Token(base.NUMBER, v, 1, 1)


def string(s):
    return Token(base.STRING, s, 1, 1)


class Expression(BaseLexer):

    def __init__(self, items):
        self.text = ''
        self.exp = 'standard'
        self.line_pos = 0
        self.pos = 0
        self.current_line = 1
        self.left = items
        self.taken = 0
        self.current_char = ' ' if len(items) > 0 else None

    def next_token(self):
        if self.taken == len(self.left):
            self.current_char = None
            return Token(base.EOF, None, 1, 1)
        t = self.left[self.taken]
        self.taken = self.taken + 1
        if self.taken == len(self.left):
            self.current_char = None
        return t


class File(DynareLexer):

    def __init__(self, items):
        self.text = ''
        self.exp = 'standard'
        self.line_pos = 0
        self.pos = 0
        self.current_line = 1
        self.left = items
        self.taken = 0
        self.current_char = ' ' if len(items) > 0 else None

    def next_token(self):
        if self.taken == len(self.left):
            self.current_char = None
            return Token(base.EOF, None, 1, 1)
        t = self.left[self.taken]
        self.taken = self.taken + 1
        if self.taken == len(self.left):
            self.current_char = None
        return t


def value(text, scope):
    return evaluate(text, scope)


class Defined:
    """What the reader of a file hands to the model."""

    def __init__(self, endog, stoch, determ, params, shocks, exprs, local_params, initial, terminal, historical, language, name):
        self.endog = endog
        self.stoch = stoch
        self.determ = determ
        self.params = params
        self.shocks = shocks
        self.exprs = exprs
        self.local_params = local_params
        self.initial = initial
        self.terminal = terminal
        self.historical = historical
        self.language = language
        self.name = name


def model(text):
    return Model.from_outline(read_model(text, 'dynare'), 'dynare', 'm')


def equation_values(text, values):
    return [DynamicFunc(e)(values) for e in model(text).exprs]


def described(m, values):
    return [
        [n for n in m.endog], [n for n in m.stoch], [n for n in m.determ],
        [(k, None if m.params[k] is None else evaluate(m.params[k], values)) for k in sorted(m.params)],
        [(k, m.local_params[k]) for k in sorted(m.local_params)],
        [DynamicFunc(e)(values) for e in m.exprs],
        [(k, m.initial[k]) for k in sorted(m.initial)],
        [(k, m.terminal[k]) for k in sorted(m.terminal)],
        [(k, m.historical[k]) for k in sorted(m.historical)],
        [(k, [(j, m.shocks[k][j]) for j in sorted(m.shocks[k])]) for k in sorted(m.shocks)],
    ]


def description(text, values):
    return described(model(text), values)


def boundary_initial(m):
    return m.initial


def boundary_terminal(m):
    return m.terminal


def boundary_historical(m):
    return m.historical


def missing():
    return np.nan


def numbers(xs):
    return np.array(xs, dtype=float)
