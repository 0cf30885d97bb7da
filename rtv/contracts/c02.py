"""C02  fn-coefficients reproduce the azimuthal interaction integral"""
from fractions import Fraction
from math import factorial

import numpy as np
import sympy as sp

from .. import lean
from ..fromsympy import from_sympy
from ..model import *
from ..stubs import funcs, generic
from ..term import Unsupported, const, fn, tosym, var

X, Y, Z = sp.symbols("rtv_x rtv_y rtv_z")


def avg(a, b):
    """1/(2 pi) * integral of sin^a cos^b over the circle (closed form)"""
    if a % 2 or b % 2:
        return Fraction(0)
    m, n = a // 2, b // 2
    return Fraction(factorial(2 * m) * factorial(2 * n), 4 ** (m + n) * factorial(m) * factorial(n) * factorial(m + n))


def monos(deg):
    return [(a, b, c) for d in range(deg + 1) for a in range(d + 1) for b in range(d + 1 - a) for c in [d - a - b]]


def nat_print(e, m):
    """sympy expression in the integer symbol m -> Lean real expression"""
    if e == m:
        return "(m:ℝ)"
    if e.is_Integer:
        return f"({int(e)}:ℝ)" if e >= 0 else f"(-{-int(e)}:ℝ)"
    if e.is_Float:
        return nat_print(sp.nsimplify(e), m)
    if e.is_Rational:
        return f"(({int(e.p)}:ℝ)/{int(e.q)})"
    if e.is_Add or e.is_Mul:
        op = " + " if e.is_Add else " * "
        return "(" + op.join(nat_print(a, m) for a in e.args) + ")"
    if e.is_Pow:
        q = sp.Poly(e.exp, m)
        if q.degree() <= 1 and all(c.is_Integer for c in q.all_coeffs()):
            k, c = (q.all_coeffs() + [0])[:2] if q.degree() == 1 else (0, q.all_coeffs()[0])
            b = nat_print(e.base, m)
            return f"({b} ^ (({int(k)}:ℤ) * (m:ℤ) + ({int(c)}:ℤ)))"
    if isinstance(e, sp.binomial):
        a, b = [sp.nsimplify(x) for x in e.args]
        if a == 2 * m and b == m:
            return "(Nat.choose (2*m) m : ℝ)"
    raise Unsupported(f"natural number expression {e}")


def main(ck):
    from rt1.rt1 import RT1

    ck.section(proofs, ck, RT1)
    ck.section(battery, ck, RT1)
    return "proof"


def proofs(ck, RT1):
    ck.lemmas("azimuth")
    ck.assume("the Legendre expansions are polynomials in the components (sin cos, sin sin, cos) of the intermediate direction with arbitrary coefficients "
              "(functions of the geometry); their own contract is C05",
              "the number of expansion coefficients is bounded in the obligations about whole coefficient lists (arbitrary coefficients, all angles)")

    def mkV(kind, deg, expr):
        o = funcs(kind, "P" if kind == "V" else "B")(**({"omega": 0.3, "tau": 0.2} if kind == "V" else {"NormBRDF": 0.3}))
        o.ncoefs = deg + 1
        o.legexpansion = lambda t_0, t_ex, p_0, p_ex, geometry: expr
        return o

    def rt(dV, dS, ev=sp.Integer(1), es=sp.Integer(1), **k):
        return RT1(1., .4, .5, .1, .2, V=mkV("V", dV, ev), SRF=mkV("S", dS, es), geometry="vvvv", int_Q=True, verbosity=0, **k)

    # --- average of every cosine power, any order (symbolic order)
    m = sp.Symbol("m", integer=True, nonnegative=True)
    for par, e in (("even", 2 * m), ("odd", 2 * m + 1)):
        name = f"cosintegral_{par}_any_order"
        try:
            r = sp.sympify(rt(1, 1)._cosintegral(e))
            txt = nat_print(r, m)
            exp, lem = ("2*m", "rtv_cos_even") if par == "even" else ("2*m+1", "rtv_cos_odd")
            tail = ("rw [rtv_cos_even, rtvQ_central]; congr 1; simp [zpow_add₀, zpow_neg, zpow_mul, mul_comm, pow_mul, pow_succ] <;> first | done | (field_simp; done) | (left; norm_cast)"
                    if par == "even" else "rw [rtv_cos_odd]; simp")
            ck.raw(name, "RT1._cosintegral",
                   f"open Real intervalIntegral in\ntheorem {lean.lean_id(name)} (m : ℕ) : ∫ x in (0:ℝ)..(2*π), cos x ^ ({exp}) = 2*π * {txt} := by\n  {tail}\n", lean.lean_id(name), "azimuth")
        except Exception as ex:
            ck.undecided(name, "RT1._cosintegral", f"{type(ex).__name__}: {ex}")
    ck.battery("average of cosine powers", "RT1._cosintegral",
               ((dict(i=i), lambda i=i: float(rt(1, 1)._cosintegral(i)), float(avg(0, i))) for i in range(0, 61)), bound="orders 0..60", rtol=1e-12)

    # --- every monomial within the order of the expansion
    phi, th = sp.Symbol("phi_s"), sp.Symbol("theta_s")
    c = sp.Symbol("c")
    top = 8 if ck.thorough() else 5
    for deg in (top,):
        R = rt(deg - deg // 2, deg // 2)
        for a in range(deg + 1):
            for b in range(deg + 1 - a):
                name = f"azimuth_average_sin{a}_cos{b}"
                try:
                    out = from_sympy(R._integrate_0_2pi_phis(c * sp.sin(phi) ** a * sp.cos(phi) ** b))
                    q = avg(a, b)
                    ck.eq(name, "RT1._integrate_0_2pi_phis", out, var("c") * const(q))
                    thm = lean.lean_id("spec_" + name)
                    lem = f"rtv_even {a//2} {b//2}" if a % 2 == 0 and b % 2 == 0 else (f"rtv_sinodd {a//2} {b}" if a % 2 else f"rtv_cosodd {a} {b//2}")
                    even = a % 2 == 0 and b % 2 == 0
                    J = f"2*π * rtvQ {a//2} {b//2}" if even else "0"
                    fin = f"have hq : rtvQ {a//2} {b//2} = {lean.num(q)} := by norm_num [rtvQ, Nat.factorial]\n  rw [integral_const_mul, h, hq]; ring" if even else "rw [integral_const_mul, h]; ring"
                    ck.raw("spec_" + name, "contract",
                           f"open Real intervalIntegral in\ntheorem {thm} (c : ℝ) : ∫ x in (0:ℝ)..(2*π), c * (sin x ^ {a} * cos x ^ {b}) = 2*π * (c * {lean.num(q)}) := by\n"
                           f"  have h : ∫ x in (0:ℝ)..(2*π), sin x ^ {a} * cos x ^ {b} = {J} := {lem}\n  {fin}\n", thm, "azimuth")
                except Exception as ex:
                    ck.undecided(name, "RT1._integrate_0_2pi_phis", f"{type(ex).__name__}: {ex}")

    # --- coefficient lists for arbitrary polynomial expansions
    pairs = [(a, b) for a in range(0, 4) for b in range(0, 4) if 0 < a + b <= 4] if not ck.thorough() else [(a, b) for a in range(0, 5) for b in range(0, 5) if 0 < a + b <= 6]
    pairs = [(0, 0)] + pairs
    dirn = (sp.sin(th) * sp.cos(phi), sp.sin(th) * sp.sin(phi), sp.cos(th))
    for dV, dS in pairs:
        mv, ms = monos(dV), monos(dS)
        cv = [sp.Symbol(f"v{i}") for i in range(len(mv))]
        cs = [sp.Symbol(f"s{i}") for i in range(len(ms))]
        ev = sum(k * dirn[0] ** a * dirn[1] ** b * dirn[2] ** d for k, (a, b, d) in zip(cv, mv))
        es = sum(k * dirn[0] ** a * dirn[1] ** b * dirn[2] ** d for k, (a, b, d) in zip(cs, ms))
        name, where = f"coefficients_{dV}_{dS}", "RT1._get_fn, RT1._calc_interaction_expansion, RT1._integrate_0_2pi_phis, RT1._extract_coefficients"
        try:
            R = rt(dV, dS, sp.sympify(ev), sp.sympify(es))
            fns = [from_sympy(x) for x in R.fn]
        except Exception as ex:
            ck.undecided(name, where, f"{type(ex).__name__}: {ex}")
            continue
        n = dV + dS + 1
        spec = [const(0)] * max(n, len(fns))
        for i, (a, b, d) in enumerate(mv):
            for j, (a2, b2, d2) in enumerate(ms):
                A, B, D = b + b2, a + a2, d + d2  # sin phi, cos phi, cos theta powers
                q = avg(A, B)
                if not q:
                    continue
                k = (A + B) // 2
                for l in range(k + 1):  # (1 - z^2)^k
                    co = q * 2 * (-1) ** l * Fraction(factorial(k), factorial(l) * factorial(k - l))
                    spec[D + 2 * l] = spec[D + 2 * l] + const(co) * pi * var(f"v{i}") * var(f"s{j}")
        while len(fns) < len(spec):
            fns.append(const(0))
        ck.eq(name, where, fns, spec)

    # --- argument order and parameters of the numerical coefficient functions
    import rt1.rt1 as mod

    def lambdify_contract(args, exprs, **k):
        # contract of symengine.Lambdify: one sequence of values, in the order of args
        f = sp.lambdify([sp.Symbol(str(a)) for a in args], [sp.sympify(e) for e in exprs], modules=["numpy"])
        return lambda vals: f(*vals)

    for backend in ("sympy", "symengine"):
        for params in ((), ("a", "b"), ("b", "a"), ("tv", "ts", "c"), ("z",)):
            sy = [sp.Symbol(x) for x in ("theta_0", "phi_0", "theta_ex", "phi_ex") + params]
            names = ("t", "p", "te", "pe") + tuple("A" + q for q in params)
            for nmax in (1, 3):
                fexpr = [generic(f"C{k}_{len(sy)}", len(sy))(*sy) for k in range(nmax)]
                nm = f"fnevals_{backend}_{'_'.join(params)}_{nmax}"

                def go():
                    keep = getattr(mod, "Lambdify", None)
                    mod.Lambdify = lambdify_contract
                    try:
                        R = RT1(1., .4, .5, .1, .2, V=mkV("V", nmax - 1, 1), SRF=mkV("S", 0, 1), geometry="vvvv", int_Q=True, verbosity=0,
                                fn_input=fexpr, param_dict={p: var(p) for p in params}, lambda_backend=backend)
                        args = [arr(f"{x}0", f"{x}1") for x in names]
                        return R._fnevals(args) if backend == "symengine" else R._fnevals(*args)
                    finally:
                        mod.Lambdify = keep

                r = ck.run(nm, "RT1._get_fnevals, RT1._set_fnevals", go)
                for hyp, out, _ in r or []:
                    ck.eq(nm, "RT1._get_fnevals, RT1._set_fnevals", out,
                          [[fn(f"C{k}_{len(sy)}", *[var(f"{x}{i}") for x in names]) for i in range(2)] for k in range(nmax)], hyp)

    # --- the expansions are requested for the geometry of the model
    for geom in ("mono", "vvvv", "fvfv", "ffff"):
        seen = {}

        def rec(kind):
            o = mkV(kind, 1, sp.Integer(1))

            def leg(*a, **k):
                import inspect
                b = inspect.signature(lambda t_0, t_ex, p_0, p_ex, geometry: 0).bind(*a, **k)
                seen[kind] = b.arguments
                return sp.Integer(1)
            o.legexpansion = leg
            return o
        try:
            A4 = [np.array([x]) for x in (.4, .5, .1, .2)]
            R = RT1(1., *A4, V=rec("V"), SRF=rec("S"), geometry=geom, int_Q=True, verbosity=0)
            R.fn
            want = [.4, .4, .1, .1 + np.pi] if geom == "mono" else [.4, .5, .1, .2]
            for kind in "VS":
                g = seen.get(kind)
                ok = g is not None and g["geometry"] == geom and all(np.allclose(g[k], w) for k, w in zip(("t_0", "t_ex", "p_0", "p_ex"), want))
                ck.fact(f"expansion_request_{kind}_{geom}", "RT1._calc_interaction_expansion", ok, f"requested with {g}")
        except Exception as ex:
            ck.undecided(f"expansion_request_{geom}", "RT1._calc_interaction_expansion", f"{type(ex).__name__}: {ex}")


def battery(ck, RT1):
    from rt1 import surface as S, volume as V
    rng = ck.nprng

    def leg(n, x):
        return np.polynomial.legendre.legval(x, [0] * n + [1])

    def dirang(a, t1, t2, p1, p2):
        return a[0] * np.cos(t1) * np.cos(t2) + a[1] * np.sin(t1) * np.sin(t2) * np.cos(p1) * np.cos(p2) + a[2] * np.sin(t1) * np.sin(t2) * np.sin(p1) * np.sin(p2)

    # independent coefficient formulas
    hgc = lambda t: (lambda n: (2 * n + 1) * t ** n / (4 * np.pi))
    ray = lambda n: {0: 1 / (4 * np.pi), 2: 1 / (8 * np.pi)}.get(n, 0.)

    def cosl(i):
        w, x = None, None
        x, w = np.polynomial.legendre.leggauss(200)
        x = (x + 1) / 2
        w = w / 2
        return lambda n: (2 * n + 1) / 2 * float(np.sum(w * x ** i * leg(n, x))) / np.pi

    def case(geom, backend, nV, nS, size, sym):
        vt, st, ic = float(rng.uniform(-.6, .6)), float(rng.uniform(-.6, .6)), int(rng.integers(1, 5))
        va = [-1., float(rng.uniform(.5, 1)), float(rng.uniform(.5, 1))]
        sa = [1., float(rng.uniform(.5, 1)), float(rng.uniform(.5, 1))]
        pv = sp.Symbol("tv") if sym else vt
        kind = rng.integers(0, 3)
        ps = sp.Symbol("ts") if sym else st
        pd = {"tv": vt, "ts": st} if sym else {}
        if kind == 0 or sym:
            vo, vc = V.HenyeyGreenstein(t=pv, ncoefs=nV, a=va, omega=.3, tau=.4), hgc(vt)
        elif kind == 1:
            vo, vc, va, nV = V.Rayleigh(omega=.3, tau=.4), ray, [-1., 1., 1.], 3
        else:
            vo, vc = V.HenyeyGreenstein(t=pv, ncoefs=nV, a=va, omega=.3, tau=.4), hgc(vt)
        if sym or rng.integers(0, 2):
            so, sc = S.HenyeyGreenstein(t=ps, ncoefs=nS, a=sa, NormBRDF=.4), (lambda n: hgc(st)(n) * 4.0)
        else:
            so, sc = S.CosineLobe(ncoefs=nS, i=ic, a=sa, NormBRDF=.4), cosl(ic)
        t0, te = rng.uniform(.1, 1.3, size), rng.uniform(.1, 1.3, size)
        p0, pe = rng.uniform(0, 6, size), rng.uniform(0, 6, size)
        if geom == "mono":
            p0 = np.full(size, p0[0])
            te, pe = t0, p0 + np.pi
        else:
            for i, x in enumerate((t0, te, p0, pe)):
                if geom[i] == "f":
                    x[:] = x[0]
        ths = rng.uniform(0.05, 3.0, 4)
        want = np.zeros((size, len(ths)))
        ph = np.arange(64) * 2 * np.pi / 64
        for i in range(size):
            for j, ts in enumerate(ths):
                xv = dirang(va, np.pi - t0[i], ts, p0[i], ph)
                xs = dirang(sa, ts, te[i], ph, pe[i])
                ve = sum(vc(n) * leg(n, xv) for n in range(nV))
                se = sum(sc(n) * leg(n, xs) for n in range(nS))
                want[i, j] = 2 * np.pi * np.mean(ve * se)

        def go():
            R = RT1(1., t0, te, p0, pe, V=vo, SRF=so, geometry=geom, int_Q=True, lambda_backend=backend, param_dict=pd, verbosity=0)
            args = np.broadcast_arrays(R.t_0, R.p_0, R.t_ex, R.p_ex, *pd.values())
            f = R._fnevals(args) if backend == "symengine" else R._fnevals(*args)
            f = np.array(np.broadcast_arrays(*f, np.zeros(size))[:len(f)], dtype=float)
            return np.array([[sum(f[n, i] * np.cos(ts) ** n for n in range(len(f))) for ts in ths] for i in range(size)])
        return dict(geom=geom, backend=backend, nV=nV, nS=nS, V=vo.name, SRF=so.name, t_0=t0, t_ex=te, p_0=p0, p_ex=pe, params=pd), go, want

    def cases():
        n = 2 if not ck.thorough() else 12
        for _ in range(n):
            for geom in ("mono", "vvvv", "vfff", "fvfv", "ffff"):
                for backend in ("symengine", "sympy"):
                    for sym in (False, True):
                        yield case(geom, backend, int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 4)), sym)
    ck.battery("coefficients against azimuth quadrature", "RT1._fnevals, RT1._calc_interaction_expansion, Volume.legexpansion, Surface.legexpansion", cases(), rtol=1e-7,
               bound="orders <= 4 + 4, 5 geometries, both backends")
