"""Numerical value of the terms of OmTerm.tla.

This evaluator is the only part of the oracle that is not in the
specification: it maps the term constructors to float64 arithmetic.
"""
import math

_F = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
    'sec': lambda x: 1 / math.cos(x), 'cosec': lambda x: 1 / math.sin(x),
    'cotan': lambda x: math.cos(x) / math.sin(x),
    'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan,
    'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
    'sech': lambda x: 1 / math.cosh(x) if abs(x) < 700 else 0.,
    'cosech': lambda x: 1 / math.sinh(x) if abs(x) < 700 else 0.,
    'cotanh': lambda x: 1 / math.tanh(x),
    'exp': math.exp, 'log': math.log, 'log10': math.log10,
}


class Domain(Exception):
    """The point is outside the domain of the term."""


def power(b, n, d):
    if d == 1:
        if b == 0 and n < 0:
            raise Domain
        return float(b) ** n
    g = math.gcd(n, d)
    n, d = n // g, d // g
    if d == 1:
        return power(b, n, 1)
    if b < 0 or (b == 0 and n < 0):
        raise Domain
    return float(b) ** (n / d)


def ev(t, a):
    """Value of term t; a[k][j] is element j of operand k (from 0)."""
    k = t[0]
    if k == 'x':
        return a[t[1] - 1][t[2] - 1]
    if k == 'q':
        return t[1] / t[2]
    if k == '+':
        return math.fsum(ev(s, a) for s in t[1])
    if k == '*':
        return ev(t[1], a) * ev(t[2], a)
    if k == '/':
        b = ev(t[2], a)
        if b == 0:
            raise Domain
        return ev(t[1], a) / b
    if k == '^':
        return power(ev(t[1], a), t[2], t[3])
    if k == 'f':
        try:
            return _F[t[1]](ev(t[2], a))
        except (ValueError, ZeroDivisionError, OverflowError):
            raise Domain
    if k in ('lse', 'smx'):
        r = t[1]
        v = [r * ev(s, a) for s in t[2]]
        m = max(v)
        e = [math.exp(x - m) for x in v]
        s = math.fsum(e)
        return (m + math.log(s)) / r if k == 'lse' else e[t[3] - 1] / s
    if k == 'sel':
        return ev(t[2], a) if ev(t[1], a) >= 0 else ev(t[3], a)
    raise KeyError(k)
