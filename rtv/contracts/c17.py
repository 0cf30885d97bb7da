"""C17  scattering objects can be re-created from their serialised definition

Numerical parameters are opaque floats (symbolic values that pass as float),
parameters given by names and relations are sympy symbols and expressions.  The
re-created object has the same class and the same (identical or provably equal)
parameters; its symbolic function, coefficients and expansion orders are compared
as well, so that it evaluates identically for all angles and parameter values."""
import itertools
from ast import literal_eval

import numpy as np
import sympy as sp

from .. import fitmodels as fm
from ..fromsympy import from_sympy
from ..model import *
from ..term import Sym, SymFloat, tosym, var

W = "Volume.init_dict, Surface.init_dict, Fits._init_V_SRF"
WS = "Fits._init_V_SRF"
x, y, z, v1, v2, v3 = sp.symbols("x y z v1 v2 v3")


def num(n):
    return SymFloat(var(n))


def params(o):
    """name -> value of the parameters that define the object, recursively"""
    d = {}
    for k in type(o)._param_names:
        v = getattr(o, k)
        if k in ("Vchoices", "SRFchoices"):
            d[k] = [(w, type(c).__name__, params(c)) for w, c in v]
        else:
            d[k] = v
    return d


def flat(d, pre=""):
    """(path, value) of a nested definition / parameter dict"""
    if isinstance(d, dict):
        for k, v in d.items():
            yield from flat(v, f"{pre}_{k}")
    elif isinstance(d, (list, tuple)):
        yield pre + "_len", len(d)
        for i, v in enumerate(d):
            yield from flat(v, f"{pre}_{i}")
    else:
        yield pre, d


NAMES = ("tau", "omega", "t", "i", "ncoefs", "NormBRDF", "a", "choices")


def strict(a, b):
    """identical values (no statement about expressions)"""
    if isinstance(a, SymFloat) or isinstance(b, SymFloat):
        return isinstance(a, SymFloat) and isinstance(b, SymFloat) and a.sym is b.sym
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def compare(ck, name, where, got, want, text=False):
    """an obligation for each entry"""
    g, w = list(flat(got)), list(flat(want))
    if [k for k, _ in g] != [k for k, _ in w]:
        return ck.fact(name, where, False, f"structure {[k for k, _ in g]} instead of {[k for k, _ in w]}")
    simple, bad = True, None
    for (k, a), (_, b) in zip(g, w):
        if text and isinstance(a, str) and isinstance(b, str) and a != b:
            a, b = (sp.sympify(s, {n: sp.Symbol(n) for n in ("x", "y", "z", "v1", "v2", "v3", "beta", "gamma", "zeta", "S", "N", "E", "Q", "I", "O", "re", "Si", "test")}) for s in (a, b))
        if isinstance(a, sp.Basic) and isinstance(b, sp.Basic) and a != b:
            ck.eq(f"{name}{k}", where, from_sympy(a), from_sympy(b))
            continue
        if not strict(a, b):
            simple, bad = False, (k, a, b)
    ck.fact(name, where, simple, f"{bad}")


def definitions(ck):
    """name -> (create, is volume)"""
    from rt1 import surface as S, volume as V
    a1, a2 = [-.5, .7, 1.], [1., .3, .6]
    T, O, N, t, w = num("tau"), num("omega"), num("NB"), num("t"), num("w")
    yield "V_Rayleigh_numbers", lambda: V.Rayleigh(tau=T, omega=O)
    yield "V_Rayleigh_default", lambda: V.Rayleigh()
    yield "V_Rayleigh_tau_only", lambda: V.Rayleigh(tau=T)
    yield "V_Rayleigh_names", lambda: V.Rayleigh(tau=x, omega=y)
    rel = [2 * x, x / 3, x * y, 1 - x, -x * y, x ** 2 + y, sp.exp(-x), sp.sqrt(x) * y, (x + y) / (z + 2), x ** y, sp.pi * x, x * sp.Rational(1, 7) - sp.cos(y), -2 * x * (y + 1) / (3 * z)]
    for k, e in enumerate(rel):
        yield f"V_Rayleigh_relation_{k}", lambda e=e: V.Rayleigh(tau=e, omega=O)
        yield f"V_Rayleigh_relation2_{k}", lambda e=e: V.Rayleigh(tau=T, omega=e)
        yield f"SRF_Isotropic_relation_{k}", lambda e=e: S.Isotropic(NormBRDF=e)
    for n in (1, 2, 5, 10):
        for cl, hg in (("HenyeyGreenstein", V.HenyeyGreenstein), ("HGRayleigh", V.HGRayleigh)):
            yield f"V_{cl}_{n}", lambda hg=hg, n=n: hg(t=t, ncoefs=n, tau=T, omega=O)
            yield f"V_{cl}_{n}_names", lambda hg=hg, n=n: hg(t=z, ncoefs=n, tau=x, omega=x * y)
            yield f"V_{cl}_{n}_a", lambda hg=hg, n=n: hg(t=z, ncoefs=n, a=list(a1), tau=T)
            yield f"V_{cl}_{n}_relation", lambda hg=hg, n=n: hg(t=z / 2 - y, ncoefs=n, a=list(a2))
        for cl, hg in (("HenyeyGreenstein", S.HenyeyGreenstein), ("HG_nadirnorm", S.HG_nadirnorm)):
            yield f"SRF_{cl}_{n}", lambda hg=hg, n=n: hg(t=t, ncoefs=n, NormBRDF=N)
            yield f"SRF_{cl}_{n}_names", lambda hg=hg, n=n: hg(t=z, ncoefs=n, NormBRDF=x)
            yield f"SRF_{cl}_{n}_a", lambda hg=hg, n=n: hg(t=z, ncoefs=n, a=list(a1))
            yield f"SRF_{cl}_{n}_relation", lambda hg=hg, n=n: hg(t=z * y, ncoefs=n, NormBRDF=x / y, a=list(a2))
        for i in (0, 1, 5):
            yield f"SRF_CosineLobe_{n}_{i}", lambda n=n, i=i: S.CosineLobe(ncoefs=n, i=i, NormBRDF=N)
            yield f"SRF_CosineLobe_{n}_{i}_a", lambda n=n, i=i: S.CosineLobe(ncoefs=n, i=i, NormBRDF=x * y, a=list(a2))
    yield "V_HG_symbolic_a", lambda: V.HenyeyGreenstein(t=t, ncoefs=3, a=[num("a1"), num("a2"), num("a3")])
    yield "SRF_HG_symbolic_a", lambda: S.HenyeyGreenstein(t=t, ncoefs=3, a=[num("a1"), num("a2"), num("a3")])
    yield "SRF_Isotropic", lambda: S.Isotropic()
    yield "SRF_Isotropic_number", lambda: S.Isotropic(NormBRDF=N)
    # linear combinations
    vs = [lambda: V.Rayleigh(), lambda: V.HenyeyGreenstein(t=z, ncoefs=4), lambda: V.HenyeyGreenstein(t=.3, ncoefs=3, a=list(a1)), lambda: V.HGRayleigh(t=y, ncoefs=2, tau=.1, omega=.2)]
    ss = [lambda: S.Isotropic(), lambda: S.HenyeyGreenstein(t=z, ncoefs=4), lambda: S.HG_nadirnorm(t=.3, ncoefs=3, a=list(a2)), lambda: S.CosineLobe(ncoefs=3, i=4, NormBRDF=.5)]
    ws = [.25, y, 1 - y, x * y / 2]
    for m in (1, 2, 3):
        for idx in itertools.product(range(4), repeat=m):
            if m == 3 and not ck.thorough() and len(set(idx)) < 2:
                continue
            nm = "_".join(map(str, idx))
            yield f"V_LinComb_{nm}", lambda idx=idx: V.LinCombV(tau=T, omega=y, Vchoices=[[ws[(k + j) % 4], vs[k]()] for j, k in enumerate(idx)])
            yield f"SRF_LinComb_{nm}", lambda idx=idx: S.LinCombSRF(NormBRDF=x, SRFchoices=[[ws[(k + j) % 4], ss[k]()] for j, k in enumerate(idx)])


def symbols_of(o):
    """the parameters of the scattering function itself (not of omega, tau, NormBRDF)"""
    s = set()
    for k in type(o)._param_names:
        v = getattr(o, k)
        if k in ("Vchoices", "SRFchoices"):
            for w, c in v:
                s |= getattr(w, "free_symbols", set()) | symbols_of(c)
        elif k not in ("tau", "omega", "NormBRDF"):
            s |= getattr(v, "free_symbols", set())
    return s


def functions(o):
    """what an evaluation uses; None where the parameters are opaque numbers"""
    if any(isinstance(v, SymFloat) and not k.endswith(("tau", "omega", "NormBRDF")) for k, v in flat(params(o))):
        return None
    d = dict(func=o._func, ncoefs=o.ncoefs)
    if not type(o).__name__.startswith("LinComb"):
        d["legcoefs"] = o.legcoefs
    return d


def sub(v, m):
    """parameters with the names replaced"""
    if isinstance(v, dict):
        return {k: sub(w, m) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(sub(w, m) for w in v)
    return v.xreplace(m) if isinstance(v, sp.Basic) else v


def roundtrip(ck):
    from rt1.rtfits import Fits
    f = Fits(verbose=0)
    for nm, make in definitions(ck):
        def go():
            o = make()
            p0 = params(o)
            d = o.init_dict
            n = f._init_V_SRF(d)
            return o, p0, d, n, n.init_dict, functions(o), functions(n)
        for _, (o, p0, d, n, d2, fo, fn_), _ in ck.run(nm, W, go) or []:
            ck.fact(nm + "_class", W, type(n) is type(o), f"a {type(n).__name__} has been created from a {type(o).__name__}")
            compare(ck, nm + "_parameters", W, params(n), p0)
            compare(ck, nm + "_unchanged", W, params(o), p0)
            compare(ck, nm + "_again", W, d2, d, text=True)
            ck.fact(nm + "_symbols", WS, set(map(str, n.free_symbols)) == set(map(str, symbols_of(o))), f"free symbols {n.free_symbols} instead of {symbols_of(o)}")
            if fo is not None and fn_ is not None:
                ck.fact(nm + "_orders", W, fo["ncoefs"] == fn_["ncoefs"], f"{fn_['ncoefs']} instead of {fo['ncoefs']}")
                for k in ("func", "legcoefs"):
                    if k in fo:
                        a, b = sp.sympify(fn_[k]), sp.sympify(fo[k])
                        if a == b or sp.expand(a - b) == 0:
                            ck.fact(f"{nm}_{k}", W, True)
                        elif k == "func":
                            ck.eq(f"{nm}_{k}", W, from_sympy(a), from_sympy(b))

        # parameter names: exactly the values given for them
        def go():
            o = make()
            names = sorted({str(s) for k, v in flat(params(o)) if isinstance(v, sp.Basic) for s in v.free_symbols})
            m = dict(zip(names, (v1, v2, v3)))
            n = f._init_V_SRF(o.init_dict, setdict=dict(m))
            part = f._init_V_SRF(o.init_dict, setdict=dict(list(m.items())[:1] + [("unused", 17.)]))
            return o, m, n, part
        for _, (o, m, n, part), _ in ck.run(nm + "_values", WS, go) or []:
            if not m:
                continue
            S = {sp.Symbol(k): v for k, v in m.items()}
            P = dict(list(S.items())[:1])
            compare(ck, nm + "_values", WS, params(n), sub(params(o), S))
            compare(ck, nm + "_values_part", WS, params(part), sub(params(o), P))
            ck.fact(nm + "_values_symbols", WS, n.free_symbols == {S[s] for s in symbols_of(o)} and part.free_symbols == {P.get(s, s) for s in symbols_of(o)}, f"free symbols {n.free_symbols}, {part.free_symbols}")

    # values are taken as they are where a parameter is just the name
    from rt1 import surface as S, volume as V
    val = {"a_t": num("T1"), "a_o": num("O1"), "t_v": num("t1"), "nb": num("N1"), "w": num("W1")}
    for nm, d, want in [
        ("V", dict(V_name="HenyeyGreenstein", tau="a_t", omega="a_o", t="t_v", ncoefs=3, a=[-1., 1., 1.]), dict(tau="a_t", omega="a_o", t="t_v")),
        ("V_swap", dict(V_name="HenyeyGreenstein", tau="a_o", omega="a_t", t="t_v", ncoefs=3), dict(tau="a_o", omega="a_t", t="t_v")),
        ("V_same", dict(V_name="HGRayleigh", tau="a_o", omega="a_o", t="a_o", ncoefs=3), dict(tau="a_o", omega="a_o", t="a_o")),
        ("SRF", dict(SRF_name="HG_nadirnorm", NormBRDF="nb", t="w", ncoefs=3), dict(NormBRDF="nb", t="w")),
    ]:
        for _, o, _ in ck.run("direct_" + nm, WS, lambda: f._init_V_SRF(d, setdict=dict(val))) or []:
            ck.fact("direct_" + nm, WS, all(strict(getattr(o, k), val[v]) for k, v in want.items()), f"{[(k, getattr(o, k)) for k in want]}")


def clashes(ck):
    """names of parameters that are also names of constants or functions"""
    from rt1.rtfits import Fits
    f = Fits(verbose=0)
    for n in ["beta", "gamma", "zeta", "pi", "S", "N", "E", "I", "Q", "O", "C", "re", "im", "Si", "Ci", "test", "x", "tau", "omega", "NormBRDF", "theta", "alpha", "li", "ff", "Eq", "a_1", "t_v", "N_0"]:
        nm = f"name_{n}"

        def go():
            s = sp.Symbol(n)
            o1 = f._init_V_SRF(dict(V_name="HenyeyGreenstein", t=n, ncoefs=2, tau=f"2*{n}", omega=f"{n}/(1 + {n})"), setdict={n: s})
            o2 = f._init_V_SRF(dict(V_name="HenyeyGreenstein", t=f"{n} - 0.5", ncoefs=2, tau=f"2*{n}", omega=.1), setdict={n: v1})
            o3 = f._init_V_SRF(dict(SRF_name="HenyeyGreenstein", t=f"{n} - 0.5", ncoefs=2, NormBRDF=f"2*{n}"), setdict={n: .25, "other": 3.})
            return s, o1, o2, o3
        for _, (s, o1, o2, o3), _ in ck.run(nm, WS, go) or []:
            ck.fact(nm + "_kept", WS, o1.t == s and o1.tau == 2 * s and sp.simplify(o1.omega - s / (1 + s)) == 0 and o1.free_symbols == {s}, f"{o1}, {o1.free_symbols}")
            ck.fact(nm + "_symbol", WS, sp.expand(o2.t - v1 + .5) == 0 and sp.expand(o2.tau - 2 * v1) == 0 and o2.free_symbols == {v1}, f"{o2}, {o2.free_symbols}")
            ck.fact(nm + "_number", WS, abs(float(o3.t) + .25) < 1e-15 and abs(float(o3.NormBRDF) - .5) < 1e-15 and not o3.free_symbols, f"{o3}")
    for _, o, _ in ck.run("pi", WS, lambda: f._init_V_SRF(dict(V_name="HenyeyGreenstein", t="x/pi", ncoefs=2, tau="2*pi*x", omega="pi/10"), setdict={"x": .5})) or []:
        ck.fact("pi", WS, not o.free_symbols and abs(float(o.t) - .5 / np.pi) < 1e-15 and abs(float(o.tau) - np.pi) < 1e-14 and abs(float(o.omega) - np.pi / 10) < 1e-15, f"{o}")
    ck.battery("rejected", WS, [(f"_init_V_SRF({d})", (lambda d=d: f._init_V_SRF(d)), e) for d, e in [
        ({}, AssertionError), (dict(V_name="Rayleigh", SRF_name="Isotropic"), AssertionError), (dict(V_name="HenyeyGreenstein", t=.3), AssertionError), (dict(V_name="nothing"), AttributeError), (dict(SRF_name="Rayleigh"), AttributeError)]])


def evaluate(o, geo, **par):
    t0, te, p0, pe = geo
    g = o.p if hasattr(o, "p") else o.brdf
    out = [g(t0, te, p0, pe, param_dict=par), [g(t, u, v, w, param_dict=par) for t, u, v, w in zip(t0, te, p0, pe)]]
    return np.array([np.broadcast_to(np.ravel(i), len(t0)) for i in out], float)


def concrete(ck):
    from rt1 import surface as S, volume as V
    from rt1.rtfits import Fits
    rng = ck.nprng
    f = Fits(verbose=0)

    def rv(depth=0):
        k = rng.integers(0, 4 if depth < 1 else 3)
        kw = dict(tau=float(rng.uniform(.1, 1)), omega=[float(rng.uniform(.1, .5)), np.float64(rng.uniform(.1, .5)), np.float32(.25), 0, None][rng.integers(0, 5)])
        a = [float(i) for i in rng.uniform(-1, 1, 3)]
        if k == 0:
            return V.Rayleigh(**kw)
        if k in (1, 2):
            return [V.HenyeyGreenstein, V.HGRayleigh][k - 1](t=[float(rng.uniform(-.7, .7)), np.float64(rng.uniform(-.7, .7))][rng.integers(0, 2)], ncoefs=[3, np.int64(4), 6][rng.integers(0, 3)], a=a, **kw)
        return V.LinCombV(Vchoices=[[[float(rng.uniform(0, 1)), np.float64(.3)][rng.integers(0, 2)], rv(depth + 1)] for _ in range(rng.integers(1, 4))], **kw)

    def rs(depth=0):
        k = rng.integers(0, 5 if depth < 1 else 4)
        kw = dict(NormBRDF=[float(rng.uniform(.1, 1)), np.float64(rng.uniform(.1, .5)), 1][rng.integers(0, 3)])
        a = [float(i) for i in rng.uniform(.2, 1, 3)]
        if k == 0:
            return S.Isotropic(**kw)
        if k == 1:
            return S.CosineLobe(ncoefs=5, i=int(rng.integers(0, 7)), a=a, **kw)
        if k in (2, 3):
            return [S.HenyeyGreenstein, S.HG_nadirnorm][k - 2](t=float(rng.uniform(-.6, .6)), ncoefs=4, a=a, **kw)
        return S.LinCombSRF(SRFchoices=[[float(rng.uniform(0, 1)), rs(depth + 1)] for _ in range(rng.integers(1, 4))], **kw)

    def cases():
        for k in range(300 if ck.thorough() else 60):
            o = rv() if k % 2 else rs()
            geo = rng.uniform(.1, 1.4, (4, 5))
            geo[2:] *= 4

            def go(lit, o=o, geo=geo):
                d = o.init_dict
                n = f._init_V_SRF(literal_eval(str(d)) if lit else d)
                sy = sp.symbols("theta_0 theta_ex phi_0 phi_ex")
                le = [sp.lambdify(sy + (sp.Symbol("theta_s"), sp.Symbol("phi_s")), q.legexpansion(*sy, "vvvv"))(*geo[:, 0], .3, 1.2) for q in (n, o)]
                assert np.allclose(evaluate(n, geo), evaluate(o, geo), rtol=1e-12), "values differ"
                assert np.allclose(*le, rtol=1e-11, atol=1e-13), f"expansions differ {le}"
                assert str(n.init_dict) == str(d), f"serialised as {n.init_dict}"
                return True
            yield f"{o.init_dict}", (lambda go=go: go(False)), True
            yield f"text of {o.init_dict}", (lambda go=go: go(True)), True
        # relations between parameters, with arbitrary numbers
        for k in range(200 if ck.thorough() else 40):
            c = [float(i) * 10. ** int(rng.integers(-3, 1)) for i in rng.uniform(.1, 1, 6)]
            ex = [c[0] * x + c[1] * y, c[0] * x ** 2 + c[1], sp.exp(-c[0] * x) * y, x / (c[0] + y), sp.sqrt(x) * c[2] + y * sp.Rational(1, 3)]
            e = [ex[i] for i in rng.permutation(5)]
            t = c[3] * (x - y) / 3
            o = [V.HenyeyGreenstein(tau=e[0], omega=e[1], t=t, ncoefs=3), V.Rayleigh(tau=e[0], omega=e[1]), S.HG_nadirnorm(NormBRDF=e[0], t=t, ncoefs=3), S.Isotropic(NormBRDF=e[0]),
                 V.LinCombV(tau=e[0], omega=e[1], Vchoices=[[c[4] * x, V.Rayleigh()], [1 - c[4] * x, V.HGRayleigh(t=t, ncoefs=2)]]),
                 S.LinCombSRF(NormBRDF=e[0], SRFchoices=[[c[4] * x, S.Isotropic()], [1 - c[4] * x, S.CosineLobe(i=3, ncoefs=4)]])][k % 6]
            geo = rng.uniform(.1, 1.4, (4, 5))
            val = {x: float(rng.uniform(.2, .9)), y: float(rng.uniform(.2, .9))}

            def go(o=o, geo=geo, val=val):
                d = o.init_dict
                for n, v in ((f._init_V_SRF(d), val), (f._init_V_SRF(literal_eval(str(d))), val), (f._init_V_SRF(d, setdict={str(k): v for k, v in val.items()}), {})):
                    for (p1, a), (p2, b) in zip(flat(params(n)), flat(params(o))):
                        if isinstance(b, sp.Basic):
                            a, b = float(sp.sympify(a).subs(v)), float(b.subs(val))
                            assert np.isclose(a, b, rtol=1e-13, atol=0), f"{p1}: {a} instead of {b}"
                    par, parn = {str(s): val[s] for s in map(sp.Symbol, map(str, symbols_of(o)))}, {} if not v else {str(s): val[s] for s in map(sp.Symbol, map(str, symbols_of(o)))}
                    assert np.allclose(evaluate(n, geo, **parn), evaluate(o, geo, **par), rtol=1e-12), "values differ"
                    if v:
                        assert str(n.init_dict) == str(d), f"serialised as {n.init_dict}"
                return True
            yield f"{o.init_dict} for {val}", go, True
        for arr in (np.array([.1, .2, .3]), np.array([[.1], [.4]]), [.1, .2]):
            def go(arr=arr):
                o = V.Rayleigh(tau=arr, omega=arr)
                n = f._init_V_SRF(o.init_dict, setdict={"x": .3})
                return np.array_equal(n.tau, arr) and np.array_equal(n.omega, arr) and np.array_equal(f._init_V_SRF(S.Isotropic(NormBRDF=arr).init_dict).NormBRDF, arr)
            yield f"array parameters {arr}", go, True
    ck.battery("objects", W, cases(), bound="generated objects")


def fits(ck):
    """whole fit objects from their serialised definition"""
    from rt1 import surface as S, volume as V
    from rt1.rtfits import Fits
    Wf = "Fits._get_init_dict, Fits._get_V_SRF_dict, Fits._init_V_SRF"

    def models():
        D = {"omega": [True, .3, "2D", ([.01], [.6])], "tau": [True, .4, None, ([.01], [1.])], "NormBRDF": [False, .3], "bsf": [False, .1], "t_v": [True, .2, None, ([.01], [.6])], "t_s": [False, .35], "w": [False, .25]}
        yield "plain", {k: D[k] for k in ("omega", "tau", "NormBRDF", "bsf")}, lambda omega, tau, NormBRDF, bsf: (V.HenyeyGreenstein(t=.3, ncoefs=3, omega=omega, tau=tau), S.HenyeyGreenstein(t=.25, ncoefs=3, NormBRDF=NormBRDF))
        yield "relations", {k: D[k] for k in ("omega", "tau", "NormBRDF", "t_s")}, lambda omega, tau, NormBRDF, t_s: (V.Rayleigh(omega=omega * 2, tau=tau / 2 + .1 * omega), S.HenyeyGreenstein(t=t_s / 2, ncoefs=3, NormBRDF=NormBRDF * 3 - .1))
        yield "parameters", {k: D[k] for k in ("omega", "tau", "NormBRDF", "t_v", "t_s")}, lambda omega, tau, NormBRDF, t_v, t_s: (V.HenyeyGreenstein(t=t_v, ncoefs=3, omega=omega, tau=tau), S.HenyeyGreenstein(t=t_s, ncoefs=3, NormBRDF=NormBRDF, a=[1., .5, .5]))
        yield "lincomb", {k: D[k] for k in ("omega", "tau", "NormBRDF", "t_v", "t_s", "w")}, lambda omega, tau, NormBRDF, t_v, t_s, w: (
            V.LinCombV(omega=omega, tau=tau, Vchoices=[[w, V.HenyeyGreenstein(t=t_v, ncoefs=3)], [1 - w, V.Rayleigh()]]), S.LinCombSRF(NormBRDF=NormBRDF, SRFchoices=[[w, S.Isotropic()], [1 - w, S.HG_nadirnorm(t=t_s, ncoefs=3)]]))
        yield "exotic", {k: D[k] for k in ("omega", "tau", "NormBRDF")}, lambda omega, tau, NormBRDF: (V.Rayleigh(omega=sp.pi / 10 * omega, tau=sp.exp(-tau) if not isinstance(tau, float) else np.exp(-tau)), S.CosineLobe(i=5, ncoefs=4, NormBRDF=NormBRDF ** 2))

    def cases():
        for nm, D, vs in models():
            for mode in itertools.product((False, True), repeat=2):
                for int_Q in (False, True):

                    def go(D=D, vs=vs, mode=mode, int_Q=int_Q, dictform=False, text=True):
                        ds = fm.dataset(np.random.default_rng(1), 6, dB=mode[1])
                        f = Fits(sig0=mode[0], dB=mode[1], dataset=ds, defdict=D, set_V_SRF=vs, int_Q=int_Q, lsq_kwargs=dict(ftol=1e-4, max_nfev=7), verbose=0)
                        d = f._get_init_dict()
                        keep = str(d)
                        g = Fits(dataset=ds, verbose=0, **(literal_eval(str(d)) if text else d))
                        par = {k: np.array([.21, .34]) for k, v in D.items() if v[0]}
                        inc = np.array([[.3, .5, .7], [.4, .6, .8]])
                        a, b = (np.array([np.broadcast_to(i, (2, 3)) for i in h.calc(par, inc)]) for h in (f, g))
                        assert np.allclose(a, b, rtol=1e-12), f"the models give {np.ravel(a)[:3]} and {np.ravel(b)[:3]}"
                        assert str(f._get_init_dict()) == keep, "the definition has changed"
                        d2 = g._get_init_dict()
                        assert str(d2) == keep, f"serialised again as {d2}"
                        assert (g.sig0, g.dB, g.int_Q, g.lsq_kwargs) == (f.sig0, f.dB, f.int_Q, f.lsq_kwargs)
                        assert str(g.reinit_object()._get_init_dict()) == keep
                        return True
                    yield f"{nm} sig0={mode[0]} dB={mode[1]} int_Q={int_Q}", go, True
                    yield f"{nm} sig0={mode[0]} dB={mode[1]} int_Q={int_Q} (dict)", (lambda go=go: go(text=False)), True
    ck.battery("fits", Wf, cases(), bound="five model definitions in the unit modes")

    # the relations of the callable and of the dict form agree for all values
    f = None
    for nm, D, vs in models():
        def go():
            f = Fits(defdict=D, set_V_SRF=vs, verbose=0)
            d = f._get_V_SRF_dict()
            names = {k: sp.Symbol(k) for k in D}
            V0, S0 = vs(**names)
            V1, S1 = f._init_V_SRF(d["V_props"], setdict=names), f._init_V_SRF(d["SRF_props"], setdict=names)
            V2, S2 = f._init_V_SRF(d["V_props"]), f._init_V_SRF(d["SRF_props"])
            return [(params(a), params(b), params(c)) for a, b, c in ((V0, V1, V2), (S0, S1, S2))]
        for _, r, _ in ck.run("relations_" + nm, Wf, go) or []:
            for side, (a, b, c) in zip("VS", r):
                compare(ck, f"relations_{nm}_{side}", Wf, b, a)
                compare(ck, f"relations_{nm}_{side}_plain", Wf, c, a)


def main(ck):
    ck.assume("sympy's printer and parser: str and sympify are inverse on the enumerated relations (each result is compared with the original)")
    ck.assume("real arithmetic: numbers inside relations are serialised with 15 digits")
    ck.assume("an object of a class with equal parameters evaluates equally (methods are deterministic functions of the parameters)")
    for part in (roundtrip, clashes, fits, concrete):
        ck.section(part, ck)
    return "proof"
