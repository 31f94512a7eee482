"""What a text is split into."""
import pynare.parsing.base as base
import pynare.parsing.dynare as dyn
from pynare.parsing.base import BaseEvaluator, reserved_funcs
from pynare.parsing.lexer import BaseLexer, DynareLexer
from pynare.parsing.api import parse_string


def stream(lexer, n):
    lexer.tokenize()
    out = []
    t = lexer.get_next_token()
    for i in range(n):
        if t.type != base.EOF:
            out.append((t.type, t.value, t.line_number))
            t = lexer.get_next_token()
    return out, t.type == base.EOF


def dynare(text, n):
    return stream(DynareLexer(text), n)


def standard(text, n):
    return stream(BaseLexer(text), n)


def python(text, n):
    return stream(BaseLexer(text, exp='python'), n)


def ended(tokens):
    return tokens, True


def word(text, line):
    return base.ID, text, line


def keyword(text, line):
    t = dyn.dynare_reserved_kw[text]
    return t.type, t.value, line


def function(text, line):
    t = reserved_funcs[text]
    return t.type, t.value, line


def number(text, line):
    return base.NUMBER, float(text), line


def string(text, line):
    return base.STRING, text, line


SIGNS = {
    ',': base.COMMA, ';': base.SEMI, ':': base.COLON, '#': base.POUND, '(': base.LPARE, ')': base.RPARE, '[': base.LBRACKET,
    ']': base.RBRACKET, '{': base.LBRACE, '}': base.RBRACE, '&': base.AMPERSAND, '|': base.PIPE, '@': base.ATSIGN, '!': base.EXCLAMATION,
    '~': base.TILDE, '%': base.PERCENT, '\\': base.BACKSLASH,
    '+': base.PLUS, '-': base.MINUS, '*': base.MUL, '/': base.DIV, '**': base.POWER, '=': base.EQUALS,
    '<': base.LT, '<=': base.LTOE, '>': base.GT, '>=': base.GTOE, '==': base.EQUALITY,
}


def sign(text, line):
    return SIGNS[text], text, line


def expression(text, exp, scope):
    return BaseEvaluator(parse_string(text, exp), scope)


def default_expression(text, scope):
    return BaseEvaluator(parse_string(text), scope)
