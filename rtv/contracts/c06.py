"""C06  geometry settings: which angles vary, never the result"""
import itertools

import numpy as np
import sympy as sp

from ..fromsympy import from_sympy
from ..model import *
from ..stubs import funcs, generic
from ..term import SymArray, const, fn, tosym, var

ALL = ["".join(x) for x in itertools.product("vf", repeat=4)]
NAMES = ("t0", "tex", "p0", "pex")


def main(ck):
    from rt1.rt1 import RT1

    ck.section(proofs, ck, RT1)
    ck.section(battery, ck, RT1)
    return "proof"


def proofs(ck, RT1):
    om, tau, NB, bsf, I0 = [var(n) for n in ("omega", "tau", "NB", "bsf", "I0")]
    base = nonneg(om, tau, NB)
    ck.assume("phase functions, Legendre coefficients and angles are arbitrary (uninterpreted)",
              "zenith angles lie in [0, pi], where arccos(cos t) = t",
              "two different symbolic angles are different values (np.unique)")

    def V_(n=1, a=None, params=()):
        o = funcs("V", "P", params)(omega=om, tau=tau)
        o.ncoefs = n
        o.legcoefs = generic("L", 1)(sp.Symbol("n"))
        if a is not None:
            o.a = a
        return o

    def S_(n=1, params=()):
        o = funcs("S", "B", params)(NormBRDF=NB)
        o.ncoefs = n
        o.legcoefs = generic("K", 1)(sp.Symbol("n"))
        return o

    def rt(geom, ang, nV=1, nS=1, **k):
        kw = dict(V=V_(nV), SRF=S_(nS), geometry=geom, bsf=bsf, int_Q=False, verbosity=0, lambda_backend="sympy")
        kw.update(k)
        return RT1(I0, *ang, **kw)

    # ---- monostatic angles, on construction and after changes
    sc = {"array": lambda x: arr(f"{x}_0", f"{x}_1"), "scalar": var, "one": lambda x: arr(f"{x}_0")}
    for kind, mkv in sc.items():
        for when in ("new", "changed", "exit angles set"):
            def go():
                R = rt("mono", [mkv("t"), mkv("u"), mkv("p"), mkv("q")])
                if when != "new":
                    R.t_ex, R.p_ex
                if when == "changed":
                    R.t_0, R.p_0 = mkv("tn"), mkv("pn")
                if when == "exit angles set":
                    R.t_ex, R.p_ex = mkv("x"), mkv("y")
                return [R.t_0, R.p_0, R.t_ex, R.p_ex, R._mu_0, R._mu_ex]
            nm = f"mono_{kind}_{when.replace(' ', '_')}"
            t, p = ("tn", "pn") if when == "changed" else ("t", "p")
            tt = np.ravel(np.asarray(mkv(t), dtype=object))
            pp = np.ravel(np.asarray(mkv(p), dtype=object))
            for hyp, out, _ in ck.run(nm, "RT1._get_t_ex, RT1._set_t_ex, RT1._get_p_ex, RT1._set_p_ex, RT1._get_t_0, RT1._get_p_0", go, base) or []:
                got = [np.ravel(np.asarray(x, dtype=object)) for x in out]
                want = [tt, pp, tt, [tosym(x) + pi for x in pp], [COS(x) for x in tt], [COS(x) for x in tt]]
                if any(len(a) != len(b) for a, b in zip(got, want)):
                    ck.fact(nm, "RT1._get_t_ex, RT1._get_p_ex", False, f"number of angles {[len(g) for g in got]}")
                    continue
                ck.eq(nm, "RT1._get_t_ex, RT1._set_t_ex, RT1._get_p_ex, RT1._set_p_ex, RT1._get_t_0, RT1._get_p_0", [list(x) for x in got], [list(x) for x in want], hyp)

    # ---- bistatic: the angles are the ones that were set
    for geom in ALL:
        def go():
            R = rt(geom, [arr(f"{x}_0", f"{x}_1") for x in "tupq"])
            a = [R.t_0, R.t_ex, R.p_0, R.p_ex]
            R.t_0, R.t_ex, R.p_0, R.p_ex = [arr(f"{x}_2") for x in "tupq"]
            return a + [R.t_0, R.t_ex, R.p_0, R.p_ex]
        for hyp, out, _ in ck.run(f"angles_{geom}", "RT1._set_t_0, RT1._set_t_ex, RT1._set_p_0, RT1._set_p_ex", go, base) or []:
            ck.eq(f"angles_{geom}", "RT1._set_t_0, RT1._set_t_ex, RT1._set_p_0, RT1._set_p_ex", [list(x) for x in out],
                  [[var(f"{x}_{i}") for i in (0, 1)] for x in "tupq"] + [[var(f"{x}_2")] for x in "tupq"], hyp)

    # ---- surface and volume: the same value in all combinations (and as bistatic view for mono)
    def ang(geom, k):
        """k evaluation points; fixed angles carry one value"""
        return [arr(*[f"{nm}_{0 if geom != 'mono' and geom[j] == 'f' else i}" for i in range(k)]) for j, nm in enumerate(NAMES)]

    for geom in ["mono"] + ALL:
        A = ang(geom, 2)
        B = A if geom != "mono" else [A[0], A[0], A[2], [tosym(x) + pi for x in A[2]]]
        pts = [[tosym(x[i]) for x in B] for i in range(2)]
        surf = [spec_surface(I0, COS(t), COS(u), tau, NB, bsf, fn("B", t, u, p, q)) for t, u, p, q in pts]
        vol = [spec_volume(I0, COS(t), COS(u), tau, om, bsf, fn("P", t, u, p, q)) for t, u, p, q in pts]
        hy = [("pos", COS(x)) for pt in pts for x in pt[:2]] + [("pos", COS(pt[0]) + COS(pt[1])) for pt in pts]
        for hyp, out, _ in ck.run(f"direct_{geom}", "RT1.surface, RT1.volume", lambda: (lambda R: [R.surface(), R.volume()])(rt(geom, A)), base) or []:
            ck.eq(f"direct_{geom}", "RT1.surface, RT1.volume", [list(x) for x in out], [surf, vol], hyp + hy)

    # ---- coefficients and both interaction paths: fixed value = variable angle with that value
    orders = [(2, 2)] if not ck.thorough() else [(2, 2), (3, 2), (2, 3)]
    where = "RT1._get_fnevals, RT1._fnevals_exchanged, Volume.legexpansion, Surface.legexpansion, RT1._calc_Fint_1, RT1._calc_Fint_2"
    for nV, nS in orders:
        # variable geometry: coefficients at symbolic angles (contract C02 / C05 give their meaning)
        def coefs(geom, A, exchanged=False):
            R = rt(geom, A, nV, nS, int_Q=True)
            f = R._fnevals_exchanged if exchanged else R._fnevals
            args = [R.t_ex, R.p_ex, R.t_0, R.p_0] if exchanged else [R.t_0, R.p_0, R.t_ex, R.p_ex]
            return [np.broadcast_to(np.asarray(x, dtype=object), (len(A[0]),)) for x in f(*args)]

        def at(A, exchanged=False):
            return coefs("vvvv", A, exchanged)
        for geom in ["mono"] + ALL:
            A = ang(geom, 1)
            ref = A if geom != "mono" else [A[0], A[0], A[2], _plus_pi(A[2])]
            for exch in (False, True):
                nm = f"coefficients_{geom}_{nV}{nS}{'_exchanged' if exch else ''}"
                want = None
                for hyp, out, _ in ck.run(nm + "_ref", where, lambda: at(ref, exch), base) or []:
                    want = out
                if want is None:
                    continue
                for hyp, out, _ in ck.run(nm, where, lambda: coefs(geom, A, exch), base) or []:
                    ck.eq(nm, where, [tosym(x[0]) for x in out], [tosym(x[0]) for x in want], hyp)
        # the second interaction path evaluates the exchanged functions at the exchanged angles
        n = nV + nS - 1
        for geom in ("vvvv", "fvfv", "vfff", "ffff", "mono"):
            A = ang(geom, 1)

            def go():
                R = rt(geom, A, nV, nS, int_Q=True, _fnevals_input=None)
                R._fnevals = fnevals_stub(n, "f")
                R._RT1__fnevals_exchanged = fnevals_stub(n, "g")
                return [R._calc_Fint_1(), R._calc_Fint_2()]
            T = [tosym(x[0]) for x in (A if geom != "mono" else [A[0], A[0], A[2], _plus_pi(A[2])])]
            fx = "g" if geom != "mono" and "f" in geom else "f"
            F1, F2 = const(0), const(0)
            for k in range(n):
                F1 = F1 + fn(f"f{k}", T[0], T[2], T[1], T[3]) * COS(T[0]) ** const(k + 1) * spec_S2(k, COS(T[0]), tau)
                F2 = F2 + fn(f"{fx}{k}", T[1], T[3], T[0], T[2]) * COS(T[1]) ** const(k + 1) * spec_S2(k, COS(T[1]), tau)
            hy = [("pos", COS(T[0])), ("pos", COS(T[1])), ("ne", 1 - COS(T[0])), ("ne", 1 - COS(T[1]))]
            nm = f"paths_{geom}_{nV}{nS}"
            for hyp, out, _ in ck.run(nm, "RT1._calc_Fint_1, RT1._calc_Fint_2, RT1._fnevals_exchanged", go, base) or []:
                ck.eq(nm, "RT1._calc_Fint_1, RT1._calc_Fint_2", [np.ravel(out[0])[0], np.ravel(out[1])[0]], [F1, F2], hyp + hy)

    # ---- fixed angles must be unique, unknown letters are rejected
    for kind, mk in (("V", V_), ("S", S_)):
        w = ("Volume" if kind == "V" else "Surface") + ".legexpansion"
        for geom in ALL + ["mono"]:
            for j, nm in enumerate(NAMES):
                A = [arr(f"{x}_0", f"{x}_0" if i != j else f"{x}_1") for i, x in enumerate(NAMES)]
                must = (geom == "mono" and j == 2) or (geom != "mono" and geom[j] == "f")
                r = ck.run(f"unique_{kind}_{geom}_{nm}", w, lambda: mk(2).legexpansion(*A, geom), expect_exc=True)
                for hyp, out, ex in r or []:
                    ok = isinstance(ex, AssertionError) if must else ex is None
                    ck.fact(f"unique_{kind}_{geom}_{nm}", w, ok, f"two different values of {nm} in geometry {geom}: {type(ex).__name__ if ex else 'accepted'}")
    bad = [g for g in ("vvvx", "xvvv", "vxvv", "vvxv", "VVVV", "none", "biss", "fffx", "1234", "monO")]
    for g in bad:
        for kind, mk in (("V", V_), ("S", S_)):
            w = ("Volume" if kind == "V" else "Surface") + ".legexpansion"
            for hyp, out, ex in ck.run(f"unknown_{kind}_{g}", w, lambda: mk(2).legexpansion(*[arr(x) for x in NAMES], g), expect_exc=True) or []:
                ck.fact(f"unknown_{kind}_{g}", w, isinstance(ex, AssertionError), f"geometry {g!r}: {type(ex).__name__ if ex else 'accepted'}")
    for g in ("vvv", "vvvvv", "", "monostatic", None, 4, ["v"] * 4, ("v",) * 4):
        for hyp, out, ex in ck.run(f"malformed_{g!r}", "RT1.__init__", lambda: rt(g, [arr(x) for x in NAMES]), base, expect_exc=True) or []:
            ck.fact(f"malformed_{g!r}", "RT1.__init__", isinstance(ex, AssertionError), f"geometry {g!r}: {type(ex).__name__ if ex else 'accepted'}")


def _plus_pi(a):
    o = np.empty(len(a), dtype=object)
    o[:] = [tosym(x) + pi for x in a]
    return o.view(SymArray)


def battery(ck, RT1):
    from rt1 import surface as S, volume as V
    rng = ck.nprng

    def pair():
        v = [lambda: V.Rayleigh(omega=.3, tau=.6), lambda: V.HenyeyGreenstein(t=.3, ncoefs=3, omega=.4, tau=.3), lambda: V.HGRayleigh(t=-.4, ncoefs=3, omega=.2, tau=.8),
             lambda: V.LinCombV([[.3, V.Rayleigh()], [.7, V.HenyeyGreenstein(t=.2, ncoefs=3)]], omega=.3, tau=.4)]
        s = [lambda: S.CosineLobe(ncoefs=3, i=3, NormBRDF=.5), lambda: S.HenyeyGreenstein(t=.35, ncoefs=3, NormBRDF=.8, a=[.7, 1., .9]), lambda: S.Isotropic(NormBRDF=.4),
             lambda: S.LinCombSRF([[.4, S.Isotropic()], [.6, S.CosineLobe(ncoefs=3, i=2)]], NormBRDF=.4)]
        return v[int(rng.integers(0, len(v)))](), s[int(rng.integers(0, len(s)))]()

    def cases():
        geoms = ALL * (1 if not ck.thorough() else 6)
        for geom in geoms:
            v, s = pair()
            n = int(rng.integers(2, 4))
            A = [rng.uniform(.1, 1.3, n), rng.uniform(.1, 1.3, n), rng.uniform(0, 6, n), rng.uniform(0, 6, n)]
            for j in range(4):
                if geom[j] == "f":
                    A[j] = np.full(n, A[j][0])
            be = "symengine" if rng.random() < .6 else "sympy"
            mk = lambda g, A=A, v=v, s=s, be=be: RT1(1.3, *A, V=v, SRF=s, geometry=g, bsf=.2, int_Q=True, verbosity=0, lambda_backend=be).calc()
            yield dict(geom=geom, V=v.name, SRF=s.name, angles=A, backend=be), (lambda mk=mk, geom=geom: [np.array(x) for x in mk(geom)]), (lambda got, mk=mk: all(np.allclose(a, b, rtol=1e-7) for a, b in zip(got, mk("vvvv"))))
        for rep in range(4):
            v, s = pair()
            t, p = rng.uniform(.1, 1.3, 3), np.full(3, float(rng.uniform(0, 6)))
            k = dict(V=v, SRF=s, bsf=.1, int_Q=True, verbosity=0)
            yield (dict(geom="mono", V=v.name, SRF=s.name, t_0=t, p_0=p), lambda t=t, p=p, k=k: [np.array(x) for x in RT1(1., t, t * 0, p, p * 0, geometry="mono", **k).calc()],
                   lambda got, t=t, p=p, k=k: all(np.allclose(a, b, rtol=1e-7) for a, b in zip(got, RT1(1., t, t, p, p + np.pi, geometry="vvvv", **k).calc())))

            # also after the incidence angle has been changed
            def chg(t=t, p=p, k=k):
                R = RT1(1., t[::-1] * .9, t, p, p, geometry="mono", **k)
                R.calc()
                R.t_0 = t
                return [np.array(x) for x in R.calc()] + [np.array(R.t_ex), np.array(R.p_ex)]
            yield (dict(geom="mono, changed", V=v.name, SRF=s.name, t_0=t, p_0=p), chg,
                   lambda got, t=t, p=p, k=k: all(np.allclose(a, b, rtol=1e-7) for a, b in zip(got, list(RT1(1., t, t, p, p + np.pi, geometry="vvvv", **k).calc()) + [t, p + np.pi])))
    ck.battery("fixed against variable angles", "RT1.calc, RT1._fnevals_exchanged, Volume.legexpansion, Surface.legexpansion, LinCombV.legexpansion, LinCombSRF.legexpansion", cases(), bound="16 geometries, random models, orders <= 3")

    def rejects():
        for geom in [g for g in ALL if "f" in g]:
            j = [i for i in range(4) if geom[i] == "f"]
            j = j[int(rng.integers(0, len(j)))]
            v, s = pair()
            A = [np.array([.3, .3]), np.array([.5, .5]), np.array([.1, .1]), np.array([2., 2.])]
            A[j] = np.array([.2, .4])
            yield dict(geom=geom, angles=A, V=v.name, SRF=s.name), (lambda geom=geom, A=A, v=v, s=s: RT1(1., *A, V=v, SRF=s, geometry=geom, int_Q=True, verbosity=0).calc()), AssertionError
        for g in ("vvvx", "abcd", "fvvF"):
            v, s = pair()
            yield dict(geom=g), (lambda g=g, v=v, s=s: RT1(1., .3, .4, .1, .2, V=v, SRF=s, geometry=g, int_Q=True, verbosity=0).calc()), AssertionError
    ck.battery("inconsistent geometries", "Volume.legexpansion, Surface.legexpansion", rejects(), bound="one inconsistent angle per geometry")
