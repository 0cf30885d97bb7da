"""shared pieces of the RT1 contracts: symbolic model objects, specification
functions (written from the publication / documentation, not from the code) and
concrete random models for the bounded stand-ins"""
import numpy as np
import sympy as sp

from .stubs import funcs
from .term import SymArray, Sym, _call1, _elementwise, const, fn, tosym, var

pi = var("pi")
EXP = lambda x: _call1("exp", tosym(x))
COS = lambda x: _call1("cos", tosym(x))
SIN = lambda x: _call1("sin", tosym(x))
LOG = lambda x: _call1("log", tosym(x))


def arr(*names):
    from .term import symarray
    return symarray(list(names))


def nonneg(*vs):
    return [("<=", const(0), v, True) for v in vs]


def pos(*vs):
    return [("<", const(0), v, True) for v in vs]


def deacos(x):
    """arccos(cos x) -> x  (zenith angles lie in [0, pi]: Real.arccos_cos)"""
    x = tosym(x)
    if x.op == "f" and x.args[0] == "arccos" and x.args[1].op == "f" and x.args[1].args[0] == "cos":
        return x.args[1].args[1]
    return x


def fnevals_stub(n, name="fn"):
    """contract of the coefficient functions: n arbitrary functions of the four
    angles and the parameters, callable in both calling conventions"""

    def call(*a):
        args = a[0] if len(a) == 1 else a
        args = [np.asarray(x) for x in args]
        return [np.asarray(_elementwise(lambda *x: fn(f"{name}{k}", *[deacos(i) for i in x]), *args)).view(SymArray) for k in range(n)]

    return call


# ------------------------------------------------------------------ specifications
def trans(tau, c0, cex):
    return EXP(-(tau / c0 + tau / cex))


def spec_surface(I0, c0, cex, tau, NB, bsf, B):
    return NB * I0 * c0 * B * (bsf + (1 - bsf) * trans(tau, c0, cex))


def spec_volume(I0, c0, cex, tau, om, bsf, P):
    return (1 - bsf) * I0 * om * (c0 / (c0 + cex)) * (1 - trans(tau, c0, cex)) * P


def spec_S2(n, mu, tau):
    s = EXP(-tau / mu) * LOG(mu / (1 - mu)) - fn("expi", -tau) + EXP(-tau / mu) * fn("expi", tau / mu - tau)
    for k in range(1, n + 2):
        s = s + (fn("expn", const(k + 1), tau) - EXP(-tau / mu) / k) / mu ** const(k)
    return s


def spec_interaction(I0, c0, cex, tau, om, NB, bsf, f12, f21):
    F1 = const(0)
    F2 = const(0)
    for n, (a, b) in enumerate(zip(f12, f21)):
        F1 = F1 + a * c0 ** const(n + 1) * spec_S2(n, c0, tau)
        F2 = F2 + b * cex ** const(n + 1) * spec_S2(n, cex, tau)
    return NB * (1 - bsf) * I0 * c0 * om * (EXP(-tau / cex) * F1 + EXP(-tau / c0) * F2)


# ------------------------------------------------------------- concrete random models
def rnd_sympy(rng, params, names=("theta_0", "theta_ex", "phi_0", "phi_ex")):
    """a random positive smooth phase function as sympy expression"""
    t0, te, p0, pe = sp.symbols(names)
    r = lambda: sp.Float(round(float(rng.uniform(0.1, 0.9)), 4))
    e = sp.Float(2) + r() * sp.cos(r() * t0 + r() * te + r() * p0 - r() * pe) + r() * sp.sin(t0 * te) * r() + r() * sp.cos(p0 - 2 * pe) * sp.sin(te) ** 2
    for p in params:
        e = e + sp.Symbol(p) * r() * sp.cos(r() * t0 - r() * te + r()) + r() * sp.Symbol(p) ** 2 * sp.sin(p0 + r())
    return e / 5


def concrete(kind, expr, ncoefs=1):
    from rt1 import surface, volume

    base = volume.Volume if kind == "V" else surface.Surface
    return type("Concrete" + kind, (base,), {"name": "Concrete" + kind, "_func": expr, "ncoefs": ncoefs})


def evalx(expr, t0, te, p0, pe, **par):
    """independent numerical evaluation of the concrete phase function (mpmath via sympy)"""
    t0, te, p0, pe = np.broadcast_arrays(t0, te, p0, pe)
    pars = {k: np.broadcast_to(v, t0.shape) for k, v in par.items()}
    out = np.empty(t0.shape)
    syms = sp.symbols("theta_0 theta_ex phi_0 phi_ex") + tuple(sp.Symbol(k) for k in par)
    f = sp.lambdify(syms, expr, modules="math")
    for i in np.ndindex(*t0.shape):
        out[i] = float(f(float(t0[i]), float(te[i]), float(p0[i]), float(pe[i]), *[float(v[i]) for v in pars.values()]))
    return out
