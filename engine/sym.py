"""Algebraic normal form of numeric value-graph expressions (rational functions over the inputs)."""
import fractions
import sympy as sp
from vg import V, show


class NotNumeric(Exception):
    pass


def num(v):
    x = v.a[1]
    if isinstance(x, bool):
        raise NotNumeric(show(v))
    if isinstance(x, int):
        return sp.Integer(x)
    if isinstance(x, str):
        if x in ("inf", "NaN", "-inf"):
            raise NotNumeric(x)
        f = fractions.Fraction(x)
        return sp.Rational(f.numerator, f.denominator)
    raise NotNumeric(show(v))


FUN = {"f64::abs": sp.Abs, "f64::exp": sp.exp, "f64::sqrt": sp.sqrt, "f64::sin": sp.sin, "f64::cos": sp.cos,
       "f64::ln": sp.log, "f64::tanh": sp.tanh, "i64::abs": sp.Abs}


def to_sym(v, names, leafs=None):
    """names: function V -> sympy symbol or None for atoms"""
    s = names(v)
    if s is not None:
        return s
    if v.op == "const":
        return num(v)
    if v.op == "cast":
        return to_sym(v.a[1], names)
    if v.op == "bin":
        a, b = to_sym(v.a[1], names), to_sym(v.a[2], names)
        o = v.a[0].replace("WithOverflow", "").replace("Unchecked", "")
        if o == "Add":
            return a + b
        if o == "Sub":
            return a - b
        if o == "Mul":
            return a * b
        if o == "Div":
            return a / b
        raise NotNumeric(show(v))
    if v.op == "un" and v.a[0] == "Neg":
        return -to_sym(v.a[1], names)
    if v.op == "call":
        n = v.a[0]
        ks = [x for x in v.a[1:] if isinstance(x, V)]
        if n in FUN and len(ks) == 1:
            return FUN[n](to_sym(ks[0], names))
        if n in ("f64::max", "Ord::max", "f32::max") and len(ks) == 2:
            return sp.Max(to_sym(ks[0], names), to_sym(ks[1], names))
        if n in ("f64::min", "Ord::min", "f32::min") and len(ks) == 2:
            return sp.Min(to_sym(ks[0], names), to_sym(ks[1], names))
        if n in ("f64::powf", "f64::powi") and len(ks) == 2:
            return to_sym(ks[0], names) ** to_sym(ks[1], names)
        if n == "f64::mul_add" and len(ks) == 3:
            return to_sym(ks[0], names) * to_sym(ks[1], names) + to_sym(ks[2], names)
        if n == "f64::recip":
            return 1 / to_sym(ks[0], names)
    raise NotNumeric(show(v))


def equal(a, b):
    d = a - b
    if d == 0:
        return True
    try:
        if sp.cancel(sp.together(d)) == 0:
            return True
    except Exception:
        pass
    return sp.simplify(d) == 0
