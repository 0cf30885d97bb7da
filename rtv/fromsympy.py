"""translation of sympy expressions (outputs of the real code) to Sym"""
from fractions import Fraction

import sympy as sp

from .term import Unsupported, _call1, _pow, const, fn, tosym, var


def from_sympy(e, names=None):
    names = names or {}
    if not isinstance(e, sp.Basic):
        try:
            e = sp.sympify(e)
        except Exception:
            raise Unsupported(f"not a sympy expression: {type(e)}")
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = _go(x)
        memo[x] = r
        return r

    def _go(x):
        if hasattr(x.func, "rtv_sym"):
            return x.func.rtv_sym
        if x.is_Symbol:
            n = x.name
            return names.get(n, var(n))
        if x.is_Integer or x.is_Rational:
            return const(Fraction(int(x.p), int(x.q)))
        if x.is_Float:
            return tosym(float(x))
        if x is sp.pi:
            return var("pi")
        if x is sp.E:
            return fn("exp", const(1))
        if x.is_Add:
            r = go(x.args[0])
            for a in x.args[1:]:
                r = r + go(a)
            return r
        if x.is_Mul:
            num, den = [], []
            for a in x.args:
                if a.is_Pow and a.exp.is_number and a.exp.is_negative:
                    den.append(go(sp.Pow(a.base, -a.exp)))
                else:
                    num.append(go(a))
            r = const(1)
            for a in num:
                r = r * a
            if den:
                d = den[0]
                for a in den[1:]:
                    d = d * a
                r = r / d
            return r
        if x.is_Pow:
            if x.exp.is_number and not x.exp.has(sp.pi, sp.E):
                e = x.exp
                ex = Fraction(int(e.p), int(e.q)) if e.is_Rational else tosym(float(e)).args[0]
                b = go(x.base)
                if ex < 0:
                    return const(1) / _pow(b, -ex)
                return _pow(b, ex)
            return fn("powr", go(x.base), go(x.exp))
        if isinstance(x, sp.exp):
            return _call1("exp", go(x.args[0]))
        f = {sp.cos: "cos", sp.sin: "sin", sp.tan: "tan", sp.log: "log", sp.sign: "sign",
             sp.Abs: "abs", sp.acos: "arccos", sp.asin: "arcsin", sp.atan: "arctan"}.get(x.func)
        if f:
            return _call1(f, go(x.args[0]))
        if x.func is sp.gamma:
            return fn("gamma", go(x.args[0]))
        if x.func is sp.KroneckerDelta:
            a, b = x.args
            if a.is_Integer and b.is_Integer:
                return const(1 if a == b else 0)
            return fn("delta", *sorted((go(a), go(b)), key=repr))
        if isinstance(x, sp.core.function.AppliedUndef) or hasattr(x.func, "_imp_"):
            return fn(x.func.__name__, *[go(a) for a in x.args])
        raise Unsupported(f"sympy node {x.func}")

    return go(e)
