"""C04  model jacobian entries are the parameter derivatives"""
import numpy as np
import sympy as sp

from ..model import *
from ..term import const, fn, subterms, tosym, var

KEY = "volume-dtau-muex"
TEXT = ("the optical-depth entry of the model jacobian uses cos(t_ex) instead of 1/cos(t_ex) in the derivative of the volume contribution "
        "(RT1._dvolume_dtau: 1.0 / self._mu_ex ** (-1))")


def main(ck):
    from rt1.rt1 import RT1

    ck.tau_known = False
    ck.section(proofs, ck, RT1)
    ck.section(battery, ck, RT1)
    ck.known_finding(KEY, ck.tau_known, TEXT)
    return "proof"


def proofs(ck, RT1):
    om, tau, NB, bsf, I0 = [var(n) for n in ("omega", "tau", "NB", "bsf", "I0")]
    base = nonneg(om, tau, NB)
    ck.assume("phase functions are arbitrary functions, differentiable in their parameters", "the backscatter is positive where its logarithm is taken")
    params = ("a", "b")
    keyvar = {"omega": om, "tau": tau, "NormBRDF": NB, "bsf": bsf, "a": var("a"), "b": var("b")}
    orders = [["omega", "tau", "NormBRDF", "bsf", "a", "b"], ["b", "bsf", "tau", "a", "NormBRDF", "omega"]]

    def mk(geom):
        V = funcs("V", "P", params)(omega=om, tau=tau)
        S = funcs("S", "B", params)(NormBRDF=NB)
        t0, te, p0, pe = [arr(f"{x}0", f"{x}1") for x in ("t", "te", "p", "pe")]
        if geom == "mono":
            te, pe = t0, p0
        return RT1(I0, t0, te, p0, pe, V=V, SRF=S, geometry=geom, bsf=bsf, param_dict={p: var(p) for p in params}, int_Q=False, verbosity=0)

    for geom in ("mono", "vvvv"):
        ang = lambda k: [var(f"t{k}"), var(f"t{k}" if geom == "mono" else f"te{k}"), var(f"p{k}"), var(f"p{k}") + pi if geom == "mono" else var(f"pe{k}")]
        val = ck.run(f"value_{geom}", "RT1.calc", lambda: mk(geom).calc()[0], base)
        for sig0, dB in ((False, False), (True, False), (False, True), (True, True)):
            mode = ("sig0" if sig0 else "int") + ("_dB" if dB else "")
            for io, order in enumerate(orders):
                if io and (sig0 or dB) and not ck.thorough():
                    continue
                r = ck.run(f"jac_{geom}_{mode}_{io}", "RT1.jacobian", lambda: mk(geom).jacobian(sig0=sig0, dB=dB, param_list=list(order)), base)
                for (hv, v, _), (hj, jac, _) in zip(val or [], r or []):
                    v = [tosym(x) for x in np.ravel(v)]
                    if len(jac) != len(order):
                        ck.fact(f"number_{geom}_{mode}_{io}", "RT1.jacobian", False, f"{len(jac)} entries for {len(order)} parameters")
                        continue
                    for key, e in zip(order, jac):
                        e = np.ravel(np.asarray(e, dtype=object))
                        where = "RT1.jacobian, " + ", ".join(f"RT1._d{w}_d{ {'NormBRDF': 'R'}.get(key, key) }" if key not in params else f"RT1._d_{w}_ddummy" for w in ("surface", "volume"))
                        if len(e) != 2:
                            ck.fact(f"shape_{key}_{geom}_{mode}_{io}", where, False, f"{len(e)} values for 2 angles")
                            continue
                        for k in range(2 if not (sig0 or dB or io) else 1):
                            c0, ce = [COS(x) for x in ang(k)[:2]]
                            a = ang(k) + [var(p) for p in params]
                            P = fn("P", *a)
                            f0 = v[k]
                            if sig0:
                                f0 = const(4) * pi * c0 * f0
                            if dB:
                                f0 = const(10) * LOG(f0) / LOG(const(10))
                            hy = list(hj) + [("pos", c0)] + ([("pos", ce)] if ce is not c0 else []) + [("pos", c0 + ce), ("pos", v[k])]
                            if sig0 and dB:
                                hy += [("pos", const(4) * pi * c0 * v[k])]
                            opaque = {}
                            if key in params:
                                i = 5 + params.index(key)
                                opaque = {fn(F, *a): fn(f"{F}_{i}", *a) for F in ("P", "B")}
                            name = f"d{key}_{geom}_{mode}_{io}_{k}"
                            if key == "tau":
                                true = formal(f0, tau)
                                dev = (1 - bsf) * I0 * om * (c0 / (c0 + ce)) * (ce - 1 / ce) * trans(tau, c0, ce) * P
                                if sig0 and not dB:
                                    dev = const(4) * pi * c0 * dev
                                if dB:
                                    dev = const(10) / (LOG(const(10)) * v[k]) * dev
                                got = tosym(e[k])
                                envs = ck.envs([got, true], hy)
                                if ck._num_differs(got, true, envs) and not ck._num_differs(got, true + dev, envs):
                                    ck.tau_known = True
                                    ck.eq("known_deviation_" + name, where, got, true_tau(v[k], I0, c0, ce, tau, om, NB, bsf, P, fn("B", *a), sig0, dB) + dev, hy)
                                    continue
                            ck.deriv(name, where, keyvar[key], f0, e[k], hy, opaque)


def formal(f, x):
    from ..oblig import formal_diff
    return formal_diff(tosym(f), x, {})


def true_tau(v, I0, c0, ce, tau, om, NB, bsf, P, B, sig0, dB):
    """closed form of the optical-depth derivative"""
    r = 1 / c0 + 1 / ce
    d = (1 - bsf) * trans(tau, c0, ce) * r * (I0 * om * c0 / (c0 + ce) * P - NB * I0 * c0 * B)
    if dB:
        return const(10) / (LOG(const(10)) * v) * d
    return const(4) * pi * c0 * d if sig0 else d


def battery(ck, RT1):
    from rt1 import surface as S, volume as V
    rng = ck.nprng
    h = 1e-4

    def model(kind):
        if kind == 0:
            pars = ("a", "b")
            return pars, concrete("V", rnd_sympy(rng, pars), 2), concrete("S", rnd_sympy(rng, pars), 2)
        a, b = sp.symbols("a b")
        if kind == 1:
            return ("a", "b"), (lambda **k: V.HenyeyGreenstein(t=a, ncoefs=3, **k)), (lambda **k: S.HenyeyGreenstein(t=b, ncoefs=3, **k))
        if kind == 2:
            return ("a",), (lambda **k: V.Rayleigh(**k)), (lambda **k: S.HG_nadirnorm(t=a, ncoefs=3, **k))
        return ("b", "a"), (lambda **k: V.LinCombV([[a, V.Rayleigh()], [1 - a, V.HGRayleigh(t=b, ncoefs=3)]], **k)), (lambda **k: S.LinCombSRF([[b, S.Isotropic()], [1 - b, S.HenyeyGreenstein(t=.3, ncoefs=3)]], **k))

    def cases():
        for rep in range(2 if not ck.thorough() else 10):
            for kind in range(4):
                for geom in ("mono", "vvvv"):
                    for arrq in (False, True):
                        pars, Vc, Sc = model(kind)
                        n = 3
                        pick = lambda lo, hi: rng.uniform(lo, hi, n) if arrq else float(rng.uniform(lo, hi))
                        x = {"omega": pick(.1, .8), "tau": pick(.1, 1.5), "NormBRDF": pick(.2, 1.5), "bsf": pick(.1, .7)}
                        x.update({p: float(rng.uniform(.1, .5)) for p in pars})
                        t0, te, p0, pe = rng.uniform(.2, 1.2, n), rng.uniform(.2, 1.2, n), rng.uniform(0, 3, n), rng.uniform(0, 3, n)
                        if geom == "mono":
                            te, pe = t0, p0 + np.pi

                        def R(y, geom=geom, t0=t0, te=te, p0=p0, pe=pe, Vc=Vc, Sc=Sc, pars=pars):
                            return RT1(1.2, t0, te, p0, pe, V=Vc(omega=y["omega"], tau=y["tau"]), SRF=Sc(NormBRDF=y["NormBRDF"]), bsf=y["bsf"],
                                       geometry=geom, param_dict={p: y[p] for p in pars}, int_Q=False, verbosity=0)

                        keys = ["omega", "tau", "NormBRDF", "bsf", *pars]
                        rng.shuffle(keys)
                        for sig0 in (False, True):
                            for dB in (False, True):
                                def unit(v):
                                    v = v * (4 * np.pi * np.cos(t0) if sig0 else 1)
                                    return 10 * np.log10(v) if dB else v
                                want = []
                                for k in keys:
                                    d = [unit(R({**x, k: x[k] + s * h}).calc()[0]) for s in (-2, -1, 1, 2)]
                                    want.append((d[0] - 8 * d[1] + 8 * d[2] - d[3]) / (12 * h))
                                r0 = R(x)
                                c0, ce = np.cos(t0), np.cos(te)
                                dev = (1 - x["bsf"]) * 1.2 * x["omega"] * c0 / (c0 + ce) * (ce - 1 / ce) * np.exp(-x["tau"] / c0 - x["tau"] / ce) * r0.V.p(t0, te, p0, pe, r0.param_dict)
                                dev = dev * (10 / np.log(10) / r0.calc()[0] if dB else (4 * np.pi * c0 if sig0 else 1))

                                def ok(got, want=want, keys=list(keys), dev=dev):
                                    if len(got) != len(want):
                                        return False
                                    for k, g, w in zip(keys, got, want):
                                        g = np.broadcast_to(g, w.shape)
                                        cl = lambda w: np.allclose(g, w, rtol=1e-6, atol=1e-7 * (1 + np.max(np.abs(w))))
                                        if cl(w):
                                            continue
                                        if k == "tau" and cl(w + dev):
                                            ck.tau_known = True
                                            continue
                                        return False
                                    return True
                                yield dict(params=keys, sig0=sig0, dB=dB, geometry=geom, values=x, t_0=t0, t_ex=te, p_0=p0, p_ex=pe, model=kind), (lambda sig0=sig0, dB=dB, R=R, x=x, keys=list(keys): R(x).jacobian(sig0=sig0, dB=dB, param_list=keys)), ok

    ck.battery("finite differences of the backscatter", "RT1.jacobian", cases(), bound="4 model families, 3 angles, random order of the parameters")

    def reject():
        for geom in ("mono", "vvvv"):
            for key in ("sm", "VOD", "", "Omega", "c", None):
                for before in (["omega"], ["tau", "a"], []):
                    Vc, Sc = concrete("V", rnd_sympy(rng, ("a",)), 1), concrete("S", rnd_sympy(rng, ("a",)), 1)
                    R = RT1(1., np.array([.3, .5]), np.array([.4, .6]), np.zeros(2), np.zeros(2), V=Vc(omega=.3, tau=.3), SRF=Sc(NormBRDF=.3), geometry=geom, param_dict={"a": .3}, int_Q=False, verbosity=0)
                    yield dict(param_list=before + [key]), (lambda R=R, key=key, before=before: R.jacobian(param_list=before + [key])), AnyError
    ck.battery("unknown parameters are rejected", "RT1.jacobian", reject(), bound="36 requests")

    def default():
        for geom in ("mono", "vvvv"):
            Vc, Sc = concrete("V", rnd_sympy(rng, ()), 1), concrete("S", rnd_sympy(rng, ()), 1)
            R = RT1(1., np.array([.3, .5]), np.array([.4, .6]), np.zeros(2), np.zeros(2), V=Vc(omega=.3, tau=.3), SRF=Sc(NormBRDF=.3), geometry=geom, int_Q=False, verbosity=0)
            yield dict(geometry=geom), (lambda R=R: R.jacobian()), R.jacobian(dB=False, sig0=False, param_list=["omega", "tau", "NormBRDF"])
    ck.battery("default request", "RT1.jacobian", default(), bound="2 geometries")


AnyError = Exception
