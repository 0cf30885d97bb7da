"""C05  phase functions: numerical value, symbolic form, Legendre expansion"""
import contextlib
import itertools

import numpy as np
import sympy as sp

from .. import lean
from ..fromsympy import from_sympy
from ..model import *
from ..norm import Norm
from ..stubs import funcs, generic
from ..term import Sym, SymArray, Unsupported, _call1, _pow, const, fn, subst, symarray, tosym, var
from fractions import Fraction

H = Fraction(1, 2)
sqrt = lambda x: _pow(tosym(x), H)


def ang(a, t1, t2, p1, p2):
    """generalised cosine of the scattering angle (documentation)"""
    return a[0] * COS(t1) * COS(t2) + a[1] * SIN(t1) * SIN(t2) * COS(p1) * COS(p2) + a[2] * SIN(t1) * SIN(t2) * SIN(p1) * SIN(p2)


# The scattering angle is a function under contract: its callers are executed
# with the contract X_a(t1, t2, p1, p2) in place of its body.  Where the result
# does not agree literally the definition of X_a is unfolded on both sides.
_ANG = {}


def angname(a):
    key = tuple(tosym(from_sympy(sp.sympify(x)) if not isinstance(x, (Sym, float, int, Fraction)) else x) for x in a)
    for k, (nm, v) in _ANG.items():
        if len(k) == len(key) and all(x is y for x, y in zip(k, key)):
            return nm
    nm = f"X{len(_ANG)}"
    _ANG[key] = (nm, key)
    return nm


def angX(a, *args):
    return fn(angname(a), *args)


def unfold(s):
    defs = {nm: a for nm, a in _ANG.values()}
    memo = {}

    def go(e):
        if not isinstance(e, Sym):
            return e
        r = memo.get(e)
        if r is None:
            args = tuple(go(x) for x in e.args)
            if e.op == "f" and e.args[0] in defs:
                r = ang(defs[e.args[0]], *args[1:])
            elif e.op in ("c", "v"):
                r = e
            elif e.op == "f":
                r = _call1(args[0], args[1]) if len(args) == 2 and args[0] in ("cos", "sin", "exp", "sqrt", "sign", "log") else fn(*args)
            elif e.op == "^":
                r = _pow(args[0], args[1])
            else:
                a, b = args
                r = a + b if e.op == "+" else a - b if e.op == "-" else a * b if e.op == "*" else a / b
            memo[e] = r
        return r
    return go(tosym(s))


@contextlib.contextmanager
def angles_by_contract():
    from rt1 import scatter
    S = scatter.Scatter
    keep = S.__dict__["scat_angle"], S.__dict__["_scat_angle_numeric"]

    def sym_angle(self, t_0, t_ex, p_0, p_ex, a):
        return generic(angname(a), 4)(t_0, t_ex, p_0, p_ex)

    def num_angle(self, t_0, t_ex, p_0, p_ex, a):
        return generic(angname(a), 4)._imp_(t_0, t_ex, p_0, p_ex)
    S.scat_angle, S._scat_angle_numeric = sym_angle, num_angle
    try:
        yield
    finally:
        S.scat_angle, S._scat_angle_numeric = keep


def eqx(ck, name, where, code, spec, hyps=(), **k):
    cs = code if isinstance(code, list) else [code]
    ss = spec if isinstance(spec, list) else [spec]
    try:
        N = Norm(True, logsplit=False)
        same = len(cs) == len(ss) and not any(N.rat(tosym(c) - s).n for c, s in zip(cs, ss))
    except Exception:
        same = False
    if same:
        return ck.eq(name, where, code, spec, hyps, **k)
    hyps = [(h[0],) + tuple(unfold(x) if isinstance(x, Sym) else x for x in h[1:]) for h in hyps]
    f = lambda v: [unfold(x) for x in v] if isinstance(v, list) else unfold(v)
    return ck.eq(name, where, f(code), f(spec), hyps, **k)


def hg(t, x):
    return (1 - t * t) / _pow(1 + t * t - 2 * t * x, Fraction(3, 2))


def nadir(t, a0):
    return 4 * ((1 - t * t) * (1 - t * (a0 - t) - sqrt((1 + t * t - 2 * a0 * t) * (1 + t * t))) / (2 * a0 * a0 * t * t * sqrt(1 + t * t - 2 * a0 * t)))


def lobe(x, i):
    return _pow(x * (1 + _call1("sign", x)) / 2, Fraction(i)) if i else const(1)


# documented formulas  f(x; t, a)
SPEC = {
    ("V", "Rayleigh"): lambda x, t, a, i: const(3) / (16 * pi) * (1 + x * x),
    ("V", "HenyeyGreenstein"): lambda x, t, a, i: hg(t, x) / (4 * pi),
    ("V", "HGRayleigh"): lambda x, t, a, i: const(3) / (8 * pi) / (2 + t * t) * (1 + x * x) * hg(t, x),
    ("S", "Isotropic"): lambda x, t, a, i: 1 / pi,
    ("S", "CosineLobe"): lambda x, t, a, i: lobe(x, i) / pi,
    ("S", "HenyeyGreenstein"): lambda x, t, a, i: hg(t, x) / pi,
    ("S", "HG_nadirnorm"): lambda x, t, a, i: hg(t, x) / pi / nadir(t, a[0]),
}


def legpoly(n, x):
    p, q = const(1), x
    if n == 0:
        return p
    for k in range(1, n):
        p, q = q, (const(2 * k + 1) * x * q - k * p) / (k + 1)
    return q


def make(kind, name, t, a, ncoefs=3, i=2):
    from rt1 import surface, volume
    C = getattr(volume if kind == "V" else surface, name)
    k = {"omega": .3, "tau": .2} if kind == "V" else {"NormBRDF": .4}
    if name in ("Rayleigh", "Isotropic"):
        o = C(**k)
        if a is not None and name == "Rayleigh":
            o.a = a
        return o
    if name == "CosineLobe":
        return C(i=i, ncoefs=ncoefs, a=a, **k)
    return C(t=t, ncoefs=ncoefs, a=a, **k)


def values(o):
    return o.p if hasattr(o, "p") else o.brdf


def main(ck):
    from rt1 import scatter, surface, volume

    where = lambda kind, name: f"{'volume' if kind == 'V' else 'surface'}.{name}"
    ck.section(definitions, ck, where, scatter, surface, volume)
    ck.section(legendre_coefs, ck, where)
    ck.section(expansions, ck, surface, volume)
    ck.section(lincomb, ck, surface, volume)
    ck.section(battery, ck, surface, volume)
    return "proof"


def definitions(ck, where, scatter, surface, volume):
    ck.assume("the Henyey-Greenstein and cosine-lobe Legendre coefficients are compared with their closed form in the obligations; that the closed form is the projection on the Legendre polynomials is checked by quadrature (bounded)")
    A = [var(f"a{k}") for k in range(3)]
    T1, T2, P1, P2 = [arr(f"{x}0", f"{x}1") for x in ("t", "te", "p", "pe")]
    pt = lambda k: [var(f"{x}{k}") for x in ("t", "te", "p", "pe")]
    g, h = var("g"), var("h")

    # --- scattering angle
    for nm in ("scat_angle", "_scat_angle_numeric"):
        def go():
            o = scatter.Scatter()
            if nm == "scat_angle":
                s = sp.symbols("t0 te0 p0 pe0")
                return [from_sympy(getattr(o, nm)(*s, A))]
            return getattr(o, nm)(T1, T2, P1, P2, A)
        for hyp, out, _ in ck.run(nm, f"scatter.Scatter.{nm}", go) or []:
            out = list(np.ravel(np.asarray(out, dtype=object)))
            ck.eq(nm, f"scatter.Scatter.{nm}", out, [ang(A, *pt(k)) for k in range(len(out))], hyp)

    # --- numerical evaluation of every provided function
    af = [-.75, .5, 1.25]
    ac = [const(Fraction(x)) for x in af]
    for (kind, name), spec in SPEC.items():
        w = where(kind, name)
        variants = []  # (tag, t, a, acode, param_dict, i)
        asym = name in ("HenyeyGreenstein", "HG_nadirnorm")
        acode, aspec = (list(A), A) if asym else (af, ac)
        if name in ("Isotropic", "Rayleigh"):
            variants = [("plain", None, (A if name == "Rayleigh" else None), list(A) if name == "Rayleigh" else None, {}, 0)]
        elif name == "CosineLobe":
            variants = [(f"i{i}", None, ac, af, {}, i) for i in (0, 1, 2, 5)]
        else:
            variants = [("value", g, aspec, acode, {}, 0), ("parameter", g, aspec, acode, {"gsym": g}, 0), ("relation", g * h + g / 3, aspec, acode, {"gsym": g, "hsym": h}, 0)]
        for tag, t, a, acd, pd, i in variants:
            def go():
                with angles_by_contract():
                    gs, hs = sp.symbols("gsym hsym")
                    o = make(kind, name, gs * hs + gs / 3 if "hsym" in pd else gs if pd else t, acd, 3, i)
                    return values(o)(T1, T2, P1, P2, param_dict=pd)
            for hyp, out, _ in ck.run(f"value_{kind}_{name}_{tag}", w, go) or []:
                out = np.ravel(np.asarray(out, dtype=object))
                want, hy = [], list(hyp)
                for k in range(2):
                    x = angX(a, *pt(k)) if a else const(0)
                    want.append(spec(x, t, a, i))
                    if t is not None:
                        hy += [("pos", 1 + t * t - 2 * t * x), ("pos", t), ("pos", 1 - t * t)]
                        if name == "HG_nadirnorm":
                            hy += [("pos", 1 + t * t - 2 * a[0] * t), ("nonneg", (1 + t * t - 2 * a[0] * t) * (1 + t * t)), ("pos", a[0])]
                if name == "Isotropic" and len(out) == 1:
                    want = want[:1]
                eqx(ck, f"value_{kind}_{name}_{tag}", w, list(out), want, hy, dom={"g": (.1, .4), "h": (.1, .9), "a0": (.2, .9), "a1": (.2, .9), "a2": (.2, .9)})
            # symbolic form
            try:
                with angles_by_contract():
                    o = make(kind, name, sp.Symbol("g") if t is not None else None, [sp.Symbol(f"a{k}") for k in range(3)] if (a is A) else acd, 3, i)
                    f = sp.sympify(o._func)
                f = from_sympy(f, {"theta_0": var("t0"), "theta_ex": var("te0"), "phi_0": var("p0"), "phi_ex": var("pe0")})
                x = angX(a, *pt(0)) if a else const(0)
                hy = [("pos", 1 + t * t - 2 * t * x), ("pos", t), ("pos", 1 - t * t)] if t is not None else []
                if name == "HG_nadirnorm":
                    hy += [("pos", 1 + t * t - 2 * a[0] * t), ("nonneg", (1 + t * t - 2 * a[0] * t) * (1 + t * t)), ("pos", a[0])]
                if not pd:
                    eqx(ck, f"symbolic_{kind}_{name}_{tag}", w + "._func", f, spec(x, t, a, i), hy, dom={"g": (.1, .4), "a0": (.2, .9), "a1": (.2, .9), "a2": (.2, .9)})
            except Exception as ex:
                ck.undecided(f"symbolic_{kind}_{name}_{tag}", w, f"{type(ex).__name__}: {ex}")
    ck.raw("lobe_is_positive_part", "contract",
           "theorem t_lobe (x : ℝ) : x * (1 + Real.sign x) / 2 = max x 0 := by\n"
           "  rcases lt_trichotomy x 0 with h | h | h\n"
           "  · rw [Real.sign_of_neg h, max_eq_right h.le]; ring\n  · subst h; simp\n  · rw [Real.sign_of_pos h, max_eq_left h.le]; ring\n", "t_lobe", "azimuth_none")
    ck.libs["azimuth_none"] = ""


# ------------------------------------------------------------------ coefficients
def coefterm(e, n, branch):
    """sympy expression in the symbol n -> Sym in var n, with t**(n+k) = T * t^k"""
    e = sp.sympify(e)

    def pw(b, x):
        k = sp.nsimplify(sp.expand(x - n))
        if not k.is_Integer:
            raise Unsupported(f"exponent {x}")
        return sp.Symbol("T") * b ** int(k)
    if branch is not None:
        e = e.replace(lambda x: isinstance(x, sp.Piecewise), lambda x: [v for v, c in x.args if c.subs(n, branch) == True or c == True][0])  # noqa: E712
    e = e.replace(lambda x: isinstance(x, sp.Pow) and x.exp.has(n), lambda x: pw(x.base, x.exp))
    return from_sympy(e)


def legendre_coefs(ck, where):
    n = sp.Symbol("n")
    nv, T, g = var("n"), var("T"), var("g")
    gs = sp.Symbol("g")
    cases = {("V", "HenyeyGreenstein"): (2 * nv + 1) * T / (4 * pi), ("S", "HenyeyGreenstein"): (2 * nv + 1) * T / pi}
    a0 = sp.Symbol("a0")
    cases["S", "HG_nadirnorm"] = (2 * nv + 1) * T / pi / nadir(g, var("a0"))
    for (kind, name), want in cases.items():
        w = where(kind, name) + ".legcoefs"
        try:
            o = make(kind, name, gs, [a0, sp.Symbol("a1"), sp.Symbol("a2")], 3)
            got = coefterm(o.legcoefs, n, None)
        except Exception as ex:
            ck.undecided(f"legcoefs_{kind}_{name}_any_order", w, f"{type(ex).__name__}: {ex}")
            continue
        hy = []
        if name == "HG_nadirnorm":
            hy = [("pos", g), ("pos", var("a0")), ("pos", 1 + g * g - 2 * var("a0") * g), ("nonneg", (1 + g * g - 2 * var("a0") * g) * (1 + g * g)), ("pos", 1 - g * g)]
        ck.eq(f"legcoefs_{kind}_{name}_any_order", w, got, want, hy, dom={"n": (0, 9), "g": (.1, .4), "a0": (.2, .9)})
    # Rayleigh-weighted: x^2 * (sum (2k+1) t^k P_k) by the three-term recurrence of P_k
    w = where("V", "HGRayleigh") + ".legcoefs"
    h = lambda k: (2 * (nv + k) + 1) * T * _pow(g, Fraction(k)) if k >= 0 else (2 * (nv + k) + 1) * T / _pow(g, Fraction(-k))
    up = lambda m: (m + 1) / (2 * m + 1)  # x P_m = up P_{m+1} + dn P_{m-1}
    dn = lambda m: m / (2 * m + 1)
    full = h(0) + up(nv - 2) * up(nv - 1) * h(-2) + (up(nv) * dn(nv + 1) + dn(nv) * up(nv - 1)) * h(0) + dn(nv + 2) * dn(nv + 1) * h(2)
    pre = const(3) / (8 * pi) / (2 + g * g)
    try:
        o = make("V", "HGRayleigh", gs, [-1., 1., 1.], 3)
        hi = coefterm(o.legcoefs, n, 7)
        hy = [("pos", g), ("ne", 2 * nv - 1), ("ne", 2 * nv + 1), ("ne", 2 * nv + 3), ("ne", 2 * nv - 3), ("ne", 2 * nv + 5)]
        ck.eq("legcoefs_V_HGRayleigh_any_order", w, hi, pre * full, hy, dom={"n": (2.1, 9), "g": (.1, .4)})
        for k in (0, 1):
            lo = subst(coefterm(o.legcoefs, n, k), {nv: const(k), T: _pow(g, Fraction(k)) if k else const(1)})
            hk = lambda m: const(2 * m + 1) * (_pow(g, Fraction(m)) if m else const(1))
            kk = const(k)
            want = hk(k) + (up(kk) * dn(kk + 1) + (dn(kk) * up(kk - 1) if k else const(0))) * hk(k) + dn(kk + 2) * dn(kk + 1) * hk(k + 2)
            ck.eq(f"legcoefs_V_HGRayleigh_order_{k}", w, lo, pre * want, [("pos", g)], dom={"g": (.1, .4)})
        # the branch boundary
        pw = [c for c in sp.sympify(o.legcoefs).atoms(sp.Piecewise)]
        for k in range(0, 6):
            try:
                val = subst(coefterm(o.legcoefs, n, k), {nv: const(k), T: _pow(g, Fraction(k)) if k else const(1)})
            except Exception:
                continue
            kk = const(k)
            hk = lambda m: const(2 * m + 1) * (_pow(g, Fraction(m)) if m else const(1))
            want = hk(k) + (up(kk) * dn(kk + 1) + (dn(kk) * up(kk - 1) if k else const(0))) * hk(k) + dn(kk + 2) * dn(kk + 1) * hk(k + 2)
            if k >= 2:
                want = want + up(kk - 2) * up(kk - 1) * hk(k - 2)
            ck.eq(f"legcoefs_V_HGRayleigh_at_{k}", w, val, pre * want, [("pos", g)], dom={"g": (.1, .4)})
    except Exception as ex:
        ck.undecided("legcoefs_V_HGRayleigh", w, f"{type(ex).__name__}: {ex}")
    # polynomial functions: the series is the function
    x = sp.Symbol("x")
    for kind, name in (("V", "Rayleigh"), ("S", "Isotropic")):
        w = where(kind, name) + ".legcoefs"
        try:
            o = make(kind, name, None, None)
            N = o.ncoefs
            ser = const(0)
            for k in range(6):
                c = from_sympy(o.legcoefs.subs(n, k).doit())
                if k >= N:
                    ck.eq(f"legcoefs_{kind}_{name}_vanish_{k}", w, c, const(0))
                ser = ser + c * legpoly(k, var("x"))
            ck.eq(f"series_{kind}_{name}_is_the_function", w, ser, SPEC[kind, name](var("x"), None, None, 0))
        except Exception as ex:
            ck.undecided(f"series_{kind}_{name}", w, f"{type(ex).__name__}: {ex}")
    # cosine lobe: documented closed form with the gamma function (any order n, each power i)
    for i in range(0, 7):
        w = where("S", "CosineLobe") + ".legcoefs"
        try:
            o = make("S", "CosineLobe", None, [1., 1., 1.], 3, i)
            got = from_sympy(o.legcoefs)
            half = const(Fraction(1, 2))
            want = 1 / pi * (2 * nv + 1) * sqrt(pi) * const(sp.factorial(i).p) / const(2 ** (i + 2)) / (fn("gamma", (2 - nv + i) * half) * fn("gamma", (3 + nv + i) * half))
            ck.eq(f"legcoefs_S_CosineLobe_{i}_any_order", w, got, want, [("ne", fn("gamma", (2 - nv + i) * half)), ("ne", fn("gamma", (3 + nv + i) * half))], dom={"n": (0, 3)})
        except Exception as ex:
            ck.undecided(f"legcoefs_S_CosineLobe_{i}", w, f"{type(ex).__name__}: {ex}")


# ------------------------------------------------------------------- expansions
SYMS = ("theta_0", "theta_ex", "phi_0", "phi_ex")


def geomangles(geom, T0, TE, P0, PE):
    """the angles in the expansion: symbols where variable, the value where fixed"""
    s = [var(x) for x in SYMS]
    if geom == "mono":
        return s[0], s[0], P0, P0 + pi
    return tuple(s[i] if geom[i] == "v" else v for i, v in enumerate((T0, TE, P0, PE)))


def series(kind, coef, N, a, geom, val):
    t0, te, p0, pe = geomangles(geom, *val)
    ts, ps = var("theta_s"), var("phi_s")
    x = angX(a, pi - t0, ts, p0, ps) if kind == "V" else angX(a, ts, te, ps, pe)
    return sum((coef(k) * legpoly(k, x) for k in range(N)), const(0))


def stub(kind, N, cname="L", a=None, fname=None):
    o = funcs(kind, fname or ("P" if kind == "V" else "B"))(**({"omega": .3, "tau": .2} if kind == "V" else {"NormBRDF": .3}))
    o.ncoefs = N
    o.legcoefs = generic(cname, 1)(sp.Symbol("n"))
    if a is not None:
        o.a = a
    return o


def expansions(ck, surface, volume):
    val = [var(f"v{x}") for x in ("t0", "te", "p0", "pe")]
    A = [var(f"a{k}") for k in range(3)]
    full = ["mono"] + ["".join(x) for x in itertools.product("vf", repeat=4)]
    for kind in "VS":
        w = ("volume.Volume" if kind == "V" else "surface.Surface") + ".legexpansion"
        for N in (1, 2, 3) if not ck.thorough() else (1, 2, 3, 4, 5):
            for geom in full if N == 2 else ("mono", "vvvv"):
                def go():
                    with angles_by_contract():
                        o = stub(kind, N, "L", list(A))
                        return o.legexpansion(*[arr2(v) for v in val], geom).doit()
                for hyp, out, _ in ck.run(f"legexpansion_{kind}_{N}_{geom}", w, go) or []:
                    try:
                        eqx(ck, f"legexpansion_{kind}_{N}_{geom}", w, from_sympy(out), series(kind, lambda k: fn("L", const(k)), N, A, geom, val), hyp)
                    except Exception as ex:
                        ck.undecided(f"legexpansion_{kind}_{N}_{geom}", w, f"{type(ex).__name__}: {ex}")


def arr2(v):
    o = np.empty(2, dtype=object)
    o[:] = [v, v]
    return o.view(SymArray)


def lincomb(ck, surface, volume):
    W = [var(f"w{k}") for k in range(3)]
    T1, T2, P1, P2 = [arr(f"{x}0", f"{x}1") for x in ("t", "te", "p", "pe")]
    pt = lambda k: [var(f"{x}{k}") for x in ("t", "te", "p", "pe")]
    val = [var(f"v{x}") for x in ("t0", "te", "p0", "pe")]
    a1, a2 = [-1., 1., 1.], [.5, .25, 2.]
    for kind in "VS":
        C = volume.LinCombV if kind == "V" else surface.LinCombSRF
        nm = "volume.LinCombV" if kind == "V" else "surface.LinCombSRF"
        opt = {"omega": .3, "tau": .2} if kind == "V" else {"NormBRDF": .3}
        for ci, (aa, NN) in enumerate((([a1, a1, a1], [2, 2, 2]), ([a1, a2, a1], [2, 2, 2]), ([a1, a2, a1], [1, 2, 3]), ([a1, a2], [3, 1]), ([a2], [2]), ([a1, [-.5, 1., 1.]], [2, 3]),
                                        ([a1, [-1., .5, 1.], [-1., 1., .25]], [3, 2, 1]), ([[-.5, 1., 1.], a1, [1., 1., -1.]], [1, 1, 2]))):
            m = len(aa)

            def mk(ww):
                return C([[ww[k], stub(kind, NN[k], f"L{k}", aa[k], f"Q{k}")] for k in range(m)], **opt)
            sw = [sp.Symbol(f"w{k}") for k in range(m)]
            for tag, ww, pd in (("weights", W, {}), ("parameters", sw, {f"w{k}": W[k] for k in range(m)})):
                for hyp, out, _ in ck.run(f"lincomb_{kind}_{ci}_{tag}", nm, lambda: values(mk(ww))(T1, T2, P1, P2, param_dict=pd)) or []:
                    ck.eq(f"lincomb_{kind}_{ci}_{tag}", nm + "._func", list(np.ravel(out)), [sum((W[k] * fn(f"Q{k}", *pt(j)) for k in range(m)), const(0)) for j in range(2)], hyp)
            # expansion: every component with the order of its group of equal scattering angles
            grp = [max(NN[j] for j in range(m) if aa[j] == aa[k]) for k in range(m)]
            for geom in ("mono", "vvvv", "fvvf") if ci < 3 else ("vvvv",):
                def go():
                    with angles_by_contract():
                        o = mk(sw)
                        return [o.legexpansion(*[arr2(v) for v in val], geom).doit(), o.ncoefs]
                for hyp, out, _ in ck.run(f"lincomb_expansion_{kind}_{ci}_{geom}", nm, go) or []:
                    try:
                        fr = [const(Fraction(x)) for k in range(m) for x in aa[k]]
                        want = sum((W[k] * series(kind, lambda q: fn(f"L{k}", const(q)), grp[k], fr[3 * k:3 * k + 3], geom, val) for k in range(m)), const(0))
                        eqx(ck, f"lincomb_expansion_{kind}_{ci}_{geom}", nm + ".legexpansion", from_sympy(out[0]), want, hyp)
                        ck.fact(f"lincomb_ncoefs_{kind}_{ci}_{geom}", nm, out[1] == max(NN), f"ncoefs {out[1]} for components with {NN}")
                    except Exception as ex:
                        ck.undecided(f"lincomb_expansion_{kind}_{ci}_{geom}", nm, f"{type(ex).__name__}: {ex}")


# -------------------------------------------------------------------- bounded part
def battery(ck, surface, volume):
    rng = ck.nprng
    leg = lambda n, x: np.polynomial.legendre.legval(x, [0] * n + [1])
    xq, wq = np.polynomial.legendre.leggauss(400)

    def numx(a, t1, t2, p1, p2):
        return a[0] * np.cos(t1) * np.cos(t2) + a[1] * np.sin(t1) * np.sin(t2) * np.cos(p1) * np.cos(p2) + a[2] * np.sin(t1) * np.sin(t2) * np.sin(p1) * np.sin(p2)

    nhg = lambda t, x: (1 - t * t) / (1 + t * t - 2 * t * x) ** 1.5

    def nnad(t, a0):
        # 4 * integral of the function over the half sphere seen from nadir / 4 (documented normalisation)
        return 4 * ((1 - t * t) * (1 - t * (a0 - t) - np.sqrt((1 + t * t - 2 * a0 * t) * (1 + t * t))) / (2 * a0 ** 2 * t * t * np.sqrt(1 + t * t - 2 * a0 * t)))

    NF = {("V", "Rayleigh"): lambda x, t, a, i: 3 / 16 / np.pi * (1 + x * x), ("V", "HenyeyGreenstein"): lambda x, t, a, i: nhg(t, x) / 4 / np.pi,
          ("V", "HGRayleigh"): lambda x, t, a, i: 3 / 8 / np.pi / (2 + t * t) * (1 + x * x) * nhg(t, x), ("S", "Isotropic"): lambda x, t, a, i: 1 / np.pi + 0 * x,
          ("S", "CosineLobe"): lambda x, t, a, i: np.where(x > 0, np.abs(x) ** i, 0. if i else (x == 0) * 1. * 0) / np.pi,
          ("S", "HenyeyGreenstein"): lambda x, t, a, i: nhg(t, x) / np.pi, ("S", "HG_nadirnorm"): lambda x, t, a, i: nhg(t, x) / np.pi / nnad(t, a[0])}

    def mkpar():
        t = float(rng.choice([-1, 1]) * rng.uniform(.08, .6))
        a = [float(rng.choice([-1, 1]) * rng.uniform(.3, 1.)), float(rng.uniform(.2, 1.)), float(rng.uniform(.2, 1.))]
        return t, a, int(rng.integers(1, 7))

    def evals():
        for rep in range(3 if not ck.thorough() else 30):
            for (kind, name), f in NF.items():
                t, a, i = mkpar()
                if name == "Rayleigh":
                    a = [-1., 1., 1.]
                for size in (None, 1, 4):
                    A4 = [rng.uniform(.05, 3.0, size or 1), rng.uniform(.05, 3.0, size or 1), rng.uniform(0, 6, size or 1), rng.uniform(0, 6, size or 1)]
                    if size is None:
                        A4 = [float(x[0]) for x in A4]
                    x = numx(a, *A4)
                    usesym = name in ("HenyeyGreenstein", "HGRayleigh", "HG_nadirnorm") and rng.random() < .5
                    o = make(kind, name, sp.Symbol("g") if usesym else t, a, 3, i)
                    want = f(x, t, a, i)

                    def ok(got, want=want, size=size):
                        g = np.asarray(got, dtype=float)
                        if size is not None and g.shape != np.shape(want):
                            return False
                        return bool(np.allclose(np.ravel(g), np.ravel(want), rtol=1e-9))
                    yield dict(kind=kind, name=name, t=t, a=a, i=i, angles=A4, symbol=usesym), (lambda o=o, A4=A4, usesym=usesym, t=t: values(o)(*A4, param_dict={"g": t} if usesym else {})), ok
                    if name in ("HenyeyGreenstein", "HGRayleigh", "HG_nadirnorm"):
                        u, v, q = sp.symbols("u v q")
                        c = float(rng.uniform(.2, 1))
                        o = make(kind, name, u * c + v ** 2, [q * c, a[1], a[2]] if name == "HenyeyGreenstein" and kind == "V" or name == "HG_nadirnorm" else a, 3, i)
                        par = dict(u=(t - .3 ** 2) / c, v=.3, q=a[0] / c)
                        yield dict(kind=kind, name=name, t=o.t, a=o.a, i=i, angles=A4, parameters=par), (lambda o=o, A4=A4, par=par: values(o)(*A4, param_dict=par)), ok
                        o = make(kind, name, t, a, 3, i)
                    yield dict(kind=kind, name=name, t=t, a=a, i=i, angles=A4, form="symbolic"), (lambda o=o, A4=A4, t=t, size=size: np.array([float(sp.N(sp.sympify(o._func).subs(dict(zip(sp.symbols("theta_0 theta_ex phi_0 phi_ex g"), [np.ravel(q)[k] for q in A4] + [t]))))) for k in range(size or 1)])), np.ravel(want)
    ck.battery("numerical values", "Volume.p, Surface.brdf, volume.*._func, surface.*._func", evals(), rtol=1e-8, bound="random angles and parameters")

    def coefs():
        n = sp.Symbol("n")
        for rep in range(2 if not ck.thorough() else 10):
            for (kind, name), f in NF.items():
                t, a, i = mkpar()
                if name == "Rayleigh":
                    a = [-1., 1., 1.]
                o = make(kind, name, t, a, 10, i)
                if name == "CosineLobe":
                    xx, ww = (xq + 1) / 2, wq / 2
                else:
                    xx, ww = xq, wq
                fx = f(xx, t, a, i)
                for k in range(0, 11):
                    want = (2 * k + 1) / 2 * float(np.sum(ww * fx * leg(k, xx)))
                    sc = float(np.max(np.abs(fx)))
                    yield dict(kind=kind, name=name, t=t, a=a, i=i, order=k), (lambda o=o, k=k: float(o._get_legcoef(k))), (lambda got, want=want, sc=sc: abs(got - want) < 1e-7 * (abs(want) + sc))
    ck.battery("Legendre coefficients by quadrature", "Scatter._get_legcoef, volume.*.legcoefs, surface.*.legcoefs", coefs(), bound="orders 0..10")

    def polys():
        for rep in range(3 if not ck.thorough() else 20):
            for (kind, name), f in NF.items():
                t, a, i = mkpar()
                if name == "Rayleigh":
                    a = [-1., 1., 1.]
                N = int(rng.integers(1, 7))
                o = make(kind, name, t, a, N, i)
                N = o.ncoefs
                xx, ww = ((xq + 1) / 2, wq / 2) if name == "CosineLobe" else (xq, wq)
                fx = f(xx, t, a, i)
                c = [(2 * k + 1) / 2 * float(np.sum(ww * fx * leg(k, xx))) for k in range(N)]
                A4 = [float(rng.uniform(.1, 1.4)), float(rng.uniform(.1, 1.4)), float(rng.uniform(0, 6)), float(rng.uniform(0, 6))]
                t0, ts, p0, ps = A4
                # _eval_legpoly: volume: incidence pi - t0 to ts; surface: ts is the incidence, exit is (t_s, p_s)
                if kind == "V":
                    x = numx(a, np.pi - t0, ts, p0, ps)
                    want = sum(q * leg(k, x) for k, q in enumerate(c))
                    yield dict(kind=kind, name=name, t=t, a=a, i=i, N=N, angles=A4), (lambda o=o, A4=A4: float(o._eval_legpoly(*A4, geometry="vvvv"))), (lambda got, want=want: abs(got - want) < 1e-6 * (abs(want) + 1))
    ck.battery("Legendre series", "Scatter._eval_legpoly, Volume.legexpansion", polys(), bound="orders <= 6")

    def combos():
        for rep in range(6 if not ck.thorough() else 40):
            for kind in "VS":
                comp = []
                names = [x for x in NF if x[0] == kind]
                for _ in range(int(rng.integers(1, 4))):
                    nm = names[int(rng.integers(0, len(names)))]
                    t, a, i = mkpar()
                    if rng.random() < .5:
                        a = [-1., 1., 1.] if kind == "V" else [1., 1., 1.]
                        if rng.random() < .5:  # agrees with the other components in two entries
                            a[int(rng.integers(0, 3))] = .5
                    if nm[1] == "Rayleigh":
                        a = [-1., 1., 1.]
                    if nm[1] == "Isotropic":
                        a = [1., 1., 1.]
                    comp.append((float(rng.uniform(.1, 1)), nm, t, a, i))
                A4 = [rng.uniform(.1, 1.4, 3), rng.uniform(.1, 1.4, 3), rng.uniform(0, 6, 3), rng.uniform(0, 6, 3)]
                want = sum(w * NF[nm](numx(a, *A4), t, a, i) for w, nm, t, a, i in comp)
                C = volume.LinCombV if kind == "V" else surface.LinCombSRF

                def go(comp=comp, C=C, A4=A4, kind=kind):
                    ob = [[w, make(kind, nm[1], t, a, 4, i)] for w, nm, t, a, i in comp]
                    L = C(ob, **({"omega": .3, "tau": .2} if kind == "V" else {"NormBRDF": .4}))
                    return values(L)(*A4)

                yield dict(kind=kind, components=str(comp), angles=A4), go, (lambda got, want=want: np.allclose(np.asarray(got, dtype=float), want, rtol=1e-8))

                def go2(comp=comp, C=C, kind=kind):
                    ob = [[w, make(kind, nm[1], t, a, 4, i)] for w, nm, t, a, i in comp]
                    L = C(ob, **({"omega": .3, "tau": .2} if kind == "V" else {"NormBRDF": .4}))
                    an = [np.array([.4]), np.array([.7]), np.array([.2]), np.array([1.1])]
                    v = dict(zip(sp.symbols("theta_0 theta_ex phi_0 phi_ex theta_s phi_s"), [.4, .7, .2, 1.1, .9, 2.2]))
                    e = lambda o: float(sp.N(o.legexpansion(*an, "vvvv").doit().subs(v)))
                    grp = [max(o2.ncoefs for w2, o2 in ob if list(o2.a) == list(o.a)) for w, o in ob]
                    tot = 0
                    for (w, o), N in zip(ob, grp):
                        # the component's own series with the order of its group
                        c = make_like(o, N)
                        tot += w * e(c)
                    return e(L), tot
                yield dict(kind=kind, components=str(comp), what="expansion"), go2, (lambda got: abs(got[0] - got[1]) < 1e-8 * (1 + abs(got[1])))
    ck.battery("linear combinations", "LinCombV, LinCombSRF", combos(), bound="1..3 components")


def make_like(o, N):
    """the same object with another expansion order (Rayleigh/Isotropic have a fixed one)"""
    cls = type(o)
    D = type("Like", (cls,), {"ncoefs": N})
    c = object.__new__(D)
    c.__dict__.update({k: v for k, v in o.__dict__.items() if k != "ncoefs"})
    return c
