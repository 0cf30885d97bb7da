"""C01  closed form of the first-order radiative-transfer solution"""
import numpy as np
import sympy as sp

from ..model import *
from ..oblig import holds
from ..term import SymFloat, const, fn, free_vars, subst, tosym, var
from ..stubs import funcs

N = 2


def main(ck):
    from rt1.rt1 import RT1

    ck.section(proofs, ck, RT1)
    ck.section(battery, ck, RT1)
    return "proof"


def proofs(ck, RT1):
    om, tau, NB, bsf, I0 = [var(n) for n in ("omega", "tau", "NB", "bsf", "I0")]
    base = nonneg(om, tau, NB)

    def angles(geom):
        i = range(N)
        if geom == "mono":
            t0 = arr(*[f"t0_{k}" for k in i])
            return t0, t0, arr(*[f"p0_{k}" for k in i]), None
        return (arr(*[f"t0_{k}" for k in i]), arr(*[f"tex_{k}" for k in i]), arr(*[f"p0_{k}" for k in i]), arr(*[f"pex_{k}" for k in i]))

    def eff(geom):
        t0, te, p0, pe = angles(geom)
        if pe is None:
            te, pe = t0, p0 + pi
        return [[tosym(x) for x in np.asarray(v)] for v in (t0, te, p0, pe)]

    def mk(geom, nV=1, nS=1, params=(), tauv=tau, omv=om, NBv=NB, **k):
        V = funcs("V", "P", params)(omega=omv, tau=tauv)
        S = funcs("S", "B", params)(NormBRDF=NBv)
        V.ncoefs, S.ncoefs = nV, nS
        t0, te, p0, pe = angles(geom)
        pd = {p: var(p) for p in params}
        kw = dict(V=V, SRF=S, geometry=geom, bsf=bsf, param_dict=pd, int_Q=False, verbosity=0)
        kw.update(k)
        return RT1(I0, t0, te, p0, pe, **kw)

    ck.assume("phase functions are arbitrary real functions of the four angles and the parameters (uninterpreted in the obligations)",
              "fn-coefficients are arbitrary functions (their own contract is C02)",
              "zenith angles lie in [0, pi], where arccos(cos t) = t",
              "nadir (cos t = 1), where the closed form is the limit of the published expression, is covered by the bounded battery; the symbolic obligations assume cos t < 1 (and 1 - cos t above the 1e-100 guard of the code)")

    for geom in ("mono", "vvvv"):
        T0, TE, P0, PE = eff(geom)
        for params in ((), ("a", "b")):
            pv = [var(p) for p in params]
            tag = f"{geom}{len(params)}"
            Bk = [fn("B", t, te, p, pe, *pv) for t, te, p, pe in zip(T0, TE, P0, PE)]
            Pk = [fn("P", t, te, p, pe, *pv) for t, te, p, pe in zip(T0, TE, P0, PE)]
            cs = [(COS(t), COS(te)) for t, te in zip(T0, TE)]
            hy = [("pos", c) for pr in cs for c in pr]
            surf = [spec_surface(I0, c0, ce, tau, NB, bsf, B) for (c0, ce), B in zip(cs, Bk)]
            vol = [spec_volume(I0, c0, ce, tau, om, bsf, P) for (c0, ce), P in zip(cs, Pk)]
            hv = hy + [("pos", c0 + ce) for c0, ce in cs]
            for what, where, spec, h in (("surface", "RT1.surface", surf, hy), ("volume", "RT1.volume", vol, hv)):
                r = ck.run(f"{what}_{tag}", where, lambda: getattr(mk(geom, params=params), what)(), base)
                for hyp, out, _ in r or []:
                    ck.eq(f"{what}_{tag}", where, out, spec, hyp + h)
            # total without interaction
            r = ck.run(f"calc_{tag}", "RT1.calc", lambda: mk(geom, params=params).calc(), base)
            for j, (hyp, out, _) in enumerate(r or []):
                ck.eq(f"calc_noint_{tag}_{j}", "RT1.calc", list(out), [[s + v for s, v in zip(surf, vol)], surf, vol], hyp + hv)
    # interaction and total with interaction, orders 1..nmax (bounded in the order)
    top = 12 if ck.thorough() else 5
    for geom, orders in (("vvvv", range(1, top + 1)), ("mono", (3,))):
        T0, TE, P0, PE = eff(geom)
        cs = [(COS(t), COS(te)) for t, te in zip(T0, TE)]
        for nmax in orders:
            nV = max(1, nmax // 2)
            nS = nmax + 1 - nV
            for backend in (("symengine", "sympy") if nmax == 3 else ("symengine",)):
                params = ("a",) if nmax == 3 else ()
                pv = [var(p) for p in params]
                f12 = [[fn(f"fn{k}", t, p, te, pe, *pv) for k in range(nmax)] for t, te, p, pe in zip(T0, TE, P0, PE)]
                f21 = [[fn(f"fn{k}", te, pe, t, p, *pv) for k in range(nmax)] for t, te, p, pe in zip(T0, TE, P0, PE)]
                spec = [spec_interaction(I0, c0, ce, tau, om, NB, bsf, a, b) for (c0, ce), a, b in zip(cs, f12, f21)]
                hy = [("pos", c) for pr in cs for c in pr]
                hy += [h for c0, ce in cs for h in (("ne", 1 - c0), ("ne", 1 - ce))]
                mkr = lambda: mk(geom, nV, nS, params, _fnevals_input=fnevals_stub(nmax), int_Q=True, lambda_backend=backend)
                tag = f"{geom}_{nmax}_{backend}"
                r = ck.run(f"interaction_{tag}", "RT1.interaction, RT1._calc_Fint_1, RT1._calc_Fint_2, RT1._S2_mu", lambda: mkr().interaction(), base)
                for hyp, out, _ in r or []:
                    ck.eq(f"interaction_{tag}", "RT1.interaction, RT1._calc_Fint_1, RT1._calc_Fint_2, RT1._S2_mu", out, spec, hyp + hy)
                if nmax == 3:
                    Bk = [fn("B", t, te, p, pe, *pv) for t, te, p, pe in zip(T0, TE, P0, PE)]
                    Pk = [fn("P", t, te, p, pe, *pv) for t, te, p, pe in zip(T0, TE, P0, PE)]
                    surf = [spec_surface(I0, c0, ce, tau, NB, bsf, B) for (c0, ce), B in zip(cs, Bk)]
                    vol = [spec_volume(I0, c0, ce, tau, om, bsf, P) for (c0, ce), P in zip(cs, Pk)]
                    hv = hy + [("pos", c0 + ce) for c0, ce in cs]
                    r = ck.run(f"calc_{tag}", "RT1.calc", lambda: mkr().calc(), base)
                    for j, (hyp, out, _) in enumerate(r or []):
                        ck.eq(f"calc_{tag}_{j}", "RT1.calc", list(out), [[s + v + i for s, v, i in zip(surf, vol, spec)], surf, vol, spec], hyp + hv)
    # the optical depth is a python number: positive and vanishing canopies
    for geom in ("mono", "vvvv"):
        T0, TE, P0, PE = eff(geom)
        cs = [(COS(t), COS(te)) for t, te in zip(T0, TE)]
        hy = [("pos", c) for pr in cs for c in pr] + [("pos", c0 + ce) for c0, ce in cs] + [h for c0, ce in cs for h in (("ne", 1 - c0), ("ne", 1 - ce))]
        Bk = [fn("B", *a) for a in zip(T0, TE, P0, PE)]
        Pk = [fn("P", *a) for a in zip(T0, TE, P0, PE)]
        f12 = [[fn(f"fn{k}", t, p, te, pe) for k in range(2)] for t, te, p, pe in zip(T0, TE, P0, PE)]
        f21 = [[fn(f"fn{k}", te, pe, t, p) for k in range(2)] for t, te, p, pe in zip(T0, TE, P0, PE)]
        surf = [spec_surface(I0, c0, ce, tau, NB, bsf, B) for (c0, ce), B in zip(cs, Bk)]
        vol = [spec_volume(I0, c0, ce, tau, om, bsf, P) for (c0, ce), P in zip(cs, Pk)]
        inter = [spec_interaction(I0, c0, ce, tau, om, NB, bsf, a, b) for (c0, ce), a, b in zip(cs, f12, f21)]
        none = {tau: const(0)}
        for int_Q in (False, True):
            parts = [surf, vol] + [inter] * int_Q
            tag = f"calc_number_{geom}{'_interaction' * int_Q}"
            r = ck.run(tag, "RT1.calc", lambda: mk(geom, 1, 2, tauv=SymFloat(tau), int_Q=int_Q, _fnevals_input=fnevals_stub(2)).calc(), base)
            full = lambda v: [tosym(x) for x in np.broadcast_to(np.asarray(v, dtype=object), (N,))]
            for j, (hyp, out, _) in enumerate(r or []):
                out = [full(v) for v in out]
                flat = [x for v in out for x in v]
                for dom in ((0., .02), (.1, 1.3)):
                    h = hyp + hy + [("pos", tau)]
                    if ck.envs(flat + [tau], h, dict(tau=dom)):
                        ck.eq(f"{tag}_{j}", "RT1.calc", out, [[sum(x[1:], x[0]) for x in zip(*parts)], *parts], h, dict(tau=dom))
                        break
                h = [(q[0], *[subst(x, none) for x in q[1:]]) for q in hyp + hy]
                if all(holds(q, {}) for q in h if not any(free_vars(x) for x in q[1:])):
                    h = [q for q in h if any(free_vars(x) for x in q[1:])]
                else:
                    continue
                if ck.envs([subst(x, none) for x in flat], h):
                    bare = [subst(x, none) for x in surf]
                    zero = [const(0)] * N
                    ck.eq(f"{tag}_{j}_bare", "RT1.calc", [[subst(x, none) for x in v] for v in out], [bare, bare, zero] + [zero] * int_Q, h)


def battery(ck, RT1):
    import mpmath as mp
    from rt1 import surface as S, volume as V
    rng = ck.nprng

    def case(geom, shape, nmax, kind, taukind, intQ, backend, near=None):
        ve, se = rnd_sympy(rng, ()), rnd_sympy(rng, ())
        nV = max(1, nmax // 2)
        nS = nmax + 1 - nV
        t0, te = rng.uniform(.1, 1.3, shape), rng.uniform(.1, 1.3, shape)
        p0, pe = rng.uniform(0, 6, shape), rng.uniform(0, 6, shape)
        if near is not None:             # (at and near nadir the closed form is a limit)
            t0[0], te[-1] = near
        if geom == "mono":
            te, pe = t0, p0 + np.pi
        pick = (lambda a, b: float(rng.uniform(a, b))) if kind == "scalar" else (lambda a, b: rng.uniform(a, b, shape))
        om, NB, I0, bsf = pick(.05, .9), pick(.1, 2), float(rng.uniform(.3, 3)), pick(.05, .8)
        tau = {"pos": lambda: pick(.05, 2), "float": lambda: float(rng.uniform(.05, 2)), "zero": lambda: 0.0, "int": lambda: 1, "tiny": lambda: float(10 ** -rng.uniform(3, 8)), "wide": lambda: float(10 ** rng.uniform(-3, 1))}[taukind]()
        cf = rng.uniform(.2, 1, (nmax, 5))
        fev = lambda a, b, c, d: [cf[k, 0] * np.cos(cf[k, 1] * a + cf[k, 2] * b) + cf[k, 3] * np.sin(c) * np.cos(cf[k, 4] * d) for k in range(nmax)]
        fe = (lambda a: fev(*a)) if backend == "symengine" else fev

        def go():
            return RT1(I0, t0, te, p0, pe, V=concrete("V", ve, nV)(omega=om, tau=tau), SRF=concrete("S", se, nS)(NormBRDF=NB),
                       geometry=geom, bsf=bsf, int_Q=intQ, _fnevals_input=fe, lambda_backend=backend, verbosity=0).calc()

        # independent oracle (30 digits)
        res = np.zeros((4, shape))
        b = lambda x, i: mp.mpf(float(np.broadcast_to(x, (shape,))[i]))
        B, P = evalx(se, t0, te, p0, pe), evalx(ve, t0, te, p0, pe)
        with mp.workdps(60):
            for i in range(shape):
                c0, ce = mp.cos(b(t0, i)), mp.cos(b(te, i))
                ta, o, nb, f = b(tau, i), b(om, i), b(NB, i), b(bsf, i)
                tr = mp.exp(-ta / c0 - ta / ce)
                res[1, i] = nb * I0 * c0 * float(B[i]) * (f + (1 - f) * tr)
                res[2, i] = (1 - f) * I0 * o * c0 / (c0 + ce) * (1 - tr) * float(P[i])
                if ta > 0:
                    def F(mu, fnv):
                        tot = mp.mpf(0)
                        if mu == 1:
                            h = mp.exp(-ta) * (mp.euler + mp.log(ta))
                        else:
                            h = mp.exp(-ta / mu) * (mp.log(mu / (1 - mu)) + mp.ei(ta / mu - ta))
                        for n in range(nmax):
                            s2 = h - mp.ei(-ta)
                            for k in range(1, n + 2):
                                s2 += (mp.expint(k + 1, ta) - mp.exp(-ta / mu) / k) / mu ** k
                            tot += fnv[n] * mu ** (n + 1) * s2
                        return tot
                    v1 = [float(x) for x in fev(t0[i], p0[i], te[i], pe[i])]
                    v2 = [float(x) for x in fev(te[i], pe[i], t0[i], p0[i])]
                    res[3, i] = nb * (1 - f) * I0 * c0 * o * (mp.exp(-ta / ce) * F(c0, v1) + mp.exp(-ta / c0) * F(ce, v2))
        res[0] = res[1] + res[2] + (res[3] if intQ else 0)
        want = res if intQ else res[:3]

        def ok(got):
            return len(got) == len(want) and all(np.allclose(np.broadcast_to(g, (shape,)), w, rtol=1e-6, atol=1e-9 * (min(tau, 1.) if taukind == "tiny" and k != 3 else 1.)) for k, (g, w) in enumerate(zip(got, want)))
        return (dict(geom=geom, nmax=nmax, kind=kind, tau=taukind, int_Q=intQ, backend=backend, t_0=t0, t_ex=te, want=want), go, ok)

    def cases():
        n = 4 if not ck.thorough() else 40
        for _ in range(n):
            for geom in ("mono", "vvvv"):
                for kind, tk in (("scalar", "float"), ("array", "pos"), ("scalar", "zero"), ("scalar", "int"), ("scalar", "tiny"), ("scalar", "wide")):
                    for intQ in (True, False):
                        yield case(geom, int(rng.integers(1, 5)), int(rng.integers(1, 6)), kind, tk, intQ, "symengine" if rng.random() < .5 else "sympy")

        for near in ((0., 0.), (0., 1e-9), (1e-8, 1e-7), (1e-6, 0.), (1e-5, 1e-4), (1e-3, 1e-2)):
            for geom in ("mono", "vvvv"):
                for kind, tk in (("scalar", "float"), ("array", "pos")):
                    yield case(geom, int(rng.integers(2, 5)), int(rng.integers(1, 6)), kind, tk, True, "symengine" if rng.random() < .5 else "sympy", near)

    ck.battery("closed form on random models", "RT1.calc, RT1.surface, RT1.volume, RT1.interaction", cases(), bound="random models, orders <= 5, arrays of <= 4 angles")

    def overflow():
        t = np.array([np.deg2rad(89.)])
        z = np.zeros(1)
        with np.errstate(all="ignore"):
            i = RT1(1., t, t, z, z, V=V.Rayleigh(omega=.3, tau=20.), SRF=S.Isotropic(NormBRDF=.5), geometry="mono", int_Q=True, verbosity=0).interaction()
        return not np.isfinite(i[0])
    ck.known_finding("interaction-overflow", overflow(), "the interaction contribution is nan for tau / cos(t) - tau > 700 (t = 89 deg, tau = 20)")

    # the real scattering functions, incl. tau arrays containing 0 (interaction NaN -> 0)
    def real():
        for V1, S1 in ((V.Rayleigh, lambda **k: S.CosineLobe(ncoefs=4, i=3, **k)), (lambda **k: V.HenyeyGreenstein(t=.3, ncoefs=4, **k), lambda **k: S.HenyeyGreenstein(t=-.4, ncoefs=3, **k))):
            t = rng.uniform(.2, 1.2, 3)
            tau = np.array([0.0, float(rng.uniform(.2, 1)), 0.0])
            mkr = lambda ta, tt: RT1(1., tt, tt, np.zeros_like(tt), np.zeros_like(tt), V=V1(omega=.3, tau=ta), SRF=S1(NormBRDF=.7), geometry="mono", bsf=.1, int_Q=True, verbosity=0)
            one = mkr(np.array([tau[1]]), t[1:2]).calc()

            def ok(got, one=one):
                tot, s, v, i = got
                return bool(np.allclose(v[[0, 2]], 0) and np.allclose(i[[0, 2]], 0) and np.allclose(tot, s + v + i) and
                            all(np.allclose(np.ravel(a)[1], np.ravel(b)[0]) for a, b in zip(got, one)))
            yield (dict(tau=tau, t_0=t), lambda: mkr(tau, t).calc(), ok)
    ck.battery("array of optical depths with zeros", "RT1.calc", real(), bound="2 model pairs")

    # angles given as numbers are arrays of length 1, whatever type of number they are
    def numbers():
        for geom in ("mono", "vvvv", "fvfv", "ffff"):
            for kind in (float, np.float64, int):
                a = [kind(1) if kind is int else kind(rng.uniform(.1, 1.3)) for _ in range(2)]
                p = [kind(rng.integers(0, 5)) if kind is int else kind(rng.uniform(0, 6)) for _ in range(2)]
                ta = kind(1) if kind is int else kind(rng.uniform(.1, 1.))
                om, nb, bsf = rng.uniform(.1, .9, 3)
                if geom == "mono":
                    a[1], p[1] = a[0], p[0] + np.pi
                I0 = float(rng.uniform(.5, 2))
                # (the fixed angles must be numbers, as they are inserted into the expressions)
                wrap = lambda v, c: float(v) if c == "f" else np.array([float(v)])
                g = "vvvv" if geom == "mono" else geom

                def mk(*ang, om=om, nb=nb, bsf=bsf, ta=ta, geom=geom, I0=I0):
                    r = RT1(I0, *ang, V=V.HenyeyGreenstein(t=.3, ncoefs=3, omega=float(om), tau=ta), SRF=S.CosineLobe(ncoefs=3, i=2, NormBRDF=float(nb)), geometry=geom, bsf=float(bsf), int_Q=True, verbosity=0)
                    return r.calc()

                def ok(got, mk=mk, a=a, p=p, g=g, wrap=wrap):
                    want = mk(wrap(a[0], g[0]), wrap(a[1], g[1]), wrap(p[0], g[2]), wrap(p[1], g[3]))
                    return len(got) == 4 and all(np.allclose(np.ravel(x), np.ravel(y), rtol=1e-10, atol=1e-12) for x, y in zip(got, want))
                yield (dict(geom=geom, type=kind.__name__, angles=a + p, tau=ta), lambda mk=mk, a=a, p=p: mk(*a, *p), ok)
    ck.battery("angles given as numbers", "RT1.calc, RT1._set_t_0 and the other setters of the angles", numbers(), bound="4 geometries, 3 types of numbers")
