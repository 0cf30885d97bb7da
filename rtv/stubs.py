"""Arbitrary phase functions: real Volume / Surface objects whose ``_func`` is an
uninterpreted (twice differentiable) function, so that a result about them is a
result about every phase function."""
from itertools import product

import numpy as np
import sympy as sp

from . import loader  # noqa: F401
from .term import SymArray, Sym, SymFloat, _elementwise, fn, tosym, var

_classes = {}


def generic(name, nargs, order=()):
    """sympy function class ``name`` with its partial derivatives name_ij.."""
    key = (name, nargs, order)
    if key in _classes:
        return _classes[key]
    cname = name + ("_" + "".join(map(str, order)) if order else "")

    def imp(*a):
        r = _elementwise(lambda *x: fn(cname, *x), *[np.asarray(i) if isinstance(i, SymArray) else i for i in a])
        if isinstance(r, np.ndarray):
            return r.view(SymArray)
        return r

    def fdiff(self, argindex=1):
        return generic(name, nargs, tuple(sorted(order + (argindex,))))(*self.args)

    @classmethod
    def ev(cls, *args):
        return None

    C = type(cname, (sp.Function,), {
        "nargs": nargs, "fdiff": fdiff, "_imp_": staticmethod(imp), "eval": ev,
        "__module__": __name__,
    })
    _classes[key] = C
    return C


def funcs(kind, name, params=()):
    """a real Volume/Surface object whose _func is `name`(angles, *params)"""
    from rt1 import surface, volume

    syms = [sp.Symbol(s) for s in ("theta_0", "theta_ex", "phi_0", "phi_ex")]
    syms += [sp.Symbol(str(p)) for p in params]
    F = generic(name, len(syms))
    base = volume.Volume if kind == "V" else surface.Surface
    C = type("Generic" + kind, (base,), {"name": "Generic" + kind, "_func": F(*syms), "ncoefs": 1})
    return C


def dchain(name, args, idx):
    """total derivative along the arguments in idx (first, second order)"""
    first = None
    for i in idx:
        t = fn(f"{name}_{i}", *args)
        first = t if first is None else first + t
    second = None
    for i, j in product(idx, idx):
        a, b = sorted((i, j))
        t = fn(f"{name}_{a}{b}", *args)
        second = t if second is None else second + t
    return first, second
