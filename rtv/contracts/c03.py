"""C03  slopes and curvatures are the angular derivatives of the backscatter"""
import numpy as np
import sympy as sp

from ..model import *
from ..stubs import dchain
from ..term import const, fn, subst, tosym, var

MODES = [(s, d) for s in (False, True) for d in (False, True)]


def main(ck):
    from rt1.rt1 import RT1

    ck.section(proofs, ck, RT1)
    ck.section(battery, ck, RT1)
    ck.section(phase, ck)
    return "proof"


def proofs(ck, RT1):
    om, tau, NB, bsf, I0 = [var(n) for n in ("omega", "tau", "NB", "bsf", "I0")]
    base = nonneg(om, tau, NB)
    ck.assume("phase functions are arbitrary twice differentiable functions (their derivatives satisfy the chain rule; mixed second derivatives are symmetric)",
              "the backscatter is positive where its logarithm is taken", "monostatic geometry: cos of the incidence angle is not zero")

    def mk(params):
        V = funcs("V", "P", params)(omega=om, tau=tau)
        S = funcs("S", "B", params)(NormBRDF=NB)
        return RT1(I0, arr("t0", "t1"), arr("t0", "t1"), arr("p", "p"), arr("p", "p"), V=V, SRF=S, geometry="mono", bsf=bsf,
                   param_dict={p: var(p) for p in params}, int_Q=False, verbosity=0)

    def unit(val, t, sig0, dB):
        if sig0:
            val = const(4) * pi * COS(t) * val
        if dB:
            val = const(10) * LOG(val) / LOG(const(10))
        return val

    for params in ((), ("a",)):
        parts = {}  # intensity-mode terms of the two contributions: the contracts of the callees
        for w in ("surface", "volume"):
            for kind in ("", "_slope", "_curv"):
                r = ck.run(f"part_{w}{kind}{len(params)}", f"RT1.{w}{kind}", lambda: getattr(mk(params), w + kind)(), base)
                if r and len(r) == 1:
                    parts[w, kind] = [tosym(x) for x in np.ravel(r[0][1])]
        for what in ("surface", "volume", "tot"):
            vfun = "RT1.calc" if what == "tot" else f"RT1.{what}"
            tag = f"{what}{len(params)}"
            val = ck.run(f"value_{tag}", vfun, lambda: (lambda R: R.calc()[0] if what == "tot" else getattr(R, what)())(mk(params)), base)
            if not val:
                continue
            for sig0, dB in MODES:
                sl_name, cu_name = f"RT1.{what}_slope", f"RT1.{what}_curv"
                mode = ("sig0" if sig0 else "int") + ("_dB" if dB else "")
                sl = ck.run(f"slope_{tag}_{mode}", sl_name, lambda: getattr(mk(params), f"{what}_slope")(sig0=sig0, dB=dB), base)
                cu = ck.run(f"curv_{tag}_{mode}", cu_name, lambda: getattr(mk(params), f"{what}_curv")(sig0=sig0, dB=dB), base)
                for (hv, v, _), (hs, s, _), (hc, c, _) in zip(val, sl or [], cu or []):
                    v, s, c = [[tosym(x) for x in np.ravel(y)] for y in (v, s, c)]
                    for y, w in ((v, vfun), (s, sl_name), (c, cu_name)):
                        if len(y) != 2:
                            ck.fact(f"shape_{tag}_{mode}", w, False, f"{len(y)} values for 2 angles")
                    if min(map(len, (v, s, c))) < 2:
                        continue
                    same_shape = all(subst(y[0], {var("t0"): var("t1")}) is y[1] for y in (v, s, c))
                    for k in range(1 if same_shape else 2):
                        t = var(f"t{k}")
                        a = [t, t, var("p"), var("p") + pi] + [var(p) for p in params]
                        op1, op2 = {}, {}
                        for F in ("P", "B"):
                            d1, d2 = dchain(F, a, (1, 2))
                            f11, f12, f22 = [fn(f"{F}_{i}", *a) for i in ("11", "12", "22")]
                            op1[fn(F, *a)] = d1
                            op2[fn(F, *a)] = d1
                            op2[fn(f"{F}_1", *a)] = f11 + f12
                            op2[fn(f"{F}_2", *a)] = f12 + f22
                        hy = list(hs) + [("ne", COS(t)), ("pos", v[k])]
                        if sig0 and dB:
                            hy += [("pos", const(4) * pi * COS(t) * v[k])]
                        dom = {f"t{k}": (0.1, 1.3), "bsf": (.05, .9)}
                        use = lambda op, f: {q: d for q, d in op.items() if q in __import__("rtv.term", fromlist=["subterms"]).subterms(f)}
                        f0 = unit(v[k], t, sig0, dB)
                        sub, op3 = {}, {}
                        if sig0 or dB or what == "tot":
                            for (w, kind), y in parts.items():
                                if k < len(y):
                                    sub[y[k]] = fn(f"{w}{kind}", t)
                            for w in ("surface", "volume"):
                                op3[fn(w, t)] = fn(w + "_slope", t)
                                op3[fn(w + "_slope", t)] = fn(w + "_curv", t)
                        ab = (sub, op3) if sub else None
                        ck.deriv(f"slope_{tag}_{mode}_{k}", sl_name, t, f0, s[k], hy, use(op1, f0), dom, abstract=ab)
                        ck.deriv(f"curv_{tag}_{mode}_{k}", f"{cu_name}, {sl_name}", t, s[k], c[k], hy, use(op2, s[k]), dom, abstract=ab)


def battery(ck, RT1):
    from rt1 import surface as S, volume as V
    rng = ck.nprng
    h = 1e-3
    st = np.array([-2, -1, 1, 2]) * h
    w1 = np.array([1, -8, 8, -1]) / (12 * h)

    def model(kind, pars):
        if kind == 0:
            ve, se = rnd_sympy(rng, pars), rnd_sympy(rng, pars)
            return concrete("V", ve, 2), concrete("S", se, 2)
        tv, ts = float(rng.uniform(.1, .6)), float(rng.uniform(-.5, -.1))
        T = sp.Symbol("a") if pars else tv
        va = [-1., 1., 1.]
        if kind == 1:
            return (lambda **k: V.HenyeyGreenstein(t=T, ncoefs=3, a=va, **k)), (lambda **k: S.HenyeyGreenstein(t=ts, ncoefs=3, a=[1., 1., 1.], **k))
        if kind == 2:
            return V.Rayleigh, (lambda **k: S.HG_nadirnorm(t=T if pars else ts, ncoefs=3, a=[1., 1., 1.], **k))
        if kind == 3:
            return (lambda **k: V.LinCombV([[.4, V.Rayleigh()], [.6, V.HGRayleigh(t=T, ncoefs=3)]], **k)), (lambda **k: S.LinCombSRF([[.3, S.Isotropic()], [.7, S.CosineLobe(ncoefs=3, i=4)]], **k))
        return (lambda **k: V.HGRayleigh(t=T, ncoefs=3, **k)), (lambda **k: S.CosineLobe(ncoefs=3, i=4, **k))

    def case(kind, pars, kd):
        n = 3
        t = np.sort(rng.uniform(.2, .7 if kind > 2 else 1.15, n))
        p0 = float(rng.uniform(0, 3))
        arrq = kd == "array"
        pick = lambda a, b: rng.uniform(a, b, n) if arrq else float(rng.uniform(a, b))
        om, tau, NB, bsf = pick(.05, .9), pick(.05, 2), pick(.1, 2), pick(.05, .8)
        pd = {p: float(rng.uniform(.15, .55)) for p in pars}
        Vc, Sc = model(kind, pars)

        def R(tt):
            return RT1(1.3, tt, tt, np.full(n, p0), np.full(n, p0), V=Vc(omega=om, tau=tau), SRF=Sc(NormBRDF=NB), geometry="mono", bsf=bsf, param_dict=pd, int_Q=False, verbosity=0)

        def unit(v, tt, sig0, dB):
            v = v * (4 * np.pi * np.cos(tt) if sig0 else 1)
            return 10 * np.log10(v) if dB else v

        for what in ("surface", "volume", "tot"):
            for sig0, dB in MODES:
                def val(tt, what=what, sig0=sig0, dB=dB):
                    r = R(tt)
                    return unit(r.calc()[0] if what == "tot" else getattr(r, what)(), tt, sig0, dB)

                for order in (1, 2):
                    name = f"{what}_{'slope' if order == 1 else 'curv'}"
                    desc = dict(quantity=name, sig0=sig0, dB=dB, t_0=t, p_0=p0, model=kind, params=pd, omega=om, tau=tau, NormBRDF=NB, bsf=bsf)
                    slope = lambda tt, what=what, sig0=sig0, dB=dB: getattr(R(tt), f"{what}_slope")(sig0=sig0, dB=dB)

                    def ok(got, order=order, val=val):
                        v = np.array([val(t + s) for s in st])
                        if order == 1:
                            want = np.tensordot(w1, v, 1)
                        else:
                            want = (-v[0] + 16 * v[1] - 30 * val(t) + 16 * v[2] - v[3]) / (12 * h * h)
                        got = np.broadcast_to(np.asarray(got, dtype=float), want.shape)
                        return bool(np.allclose(got, want, rtol=2e-5, atol=2e-5 * (1 + np.max(np.abs(v)))))
                    yield desc, (lambda name=name, sig0=sig0, dB=dB: getattr(R(t), name)(sig0=sig0, dB=dB)), ok

    def cases():
        for kind in range(5):
            for pars in ((), ("a",)):
                if kind == 2 and not pars:
                    pars = ()
                for kd in ("scalar", "array") if ck.thorough() or kind < 2 else ("array",):
                    yield from case(kind, pars, kd)
    ck.battery("finite differences of the reported backscatter", "RT1.surface_slope, RT1.surface_curv, RT1.volume_slope, RT1.volume_curv, RT1.tot_slope, RT1.tot_curv, Volume.p_theta_diff, Surface.brdf_theta_diff",
               cases(), bound="5 model families, 3 angles each")


def phase(ck):
    """derivatives of the phase functions with respect to the exit angle"""
    from rt1 import surface as S, volume as V
    rng = ck.nprng
    T = sp.Symbol("a")
    mk = {
        "V rayleigh": ("V", lambda: V.Rayleigh(omega=.3, tau=.4), {}),
        "V henyey": ("V", lambda: V.HenyeyGreenstein(t=T, ncoefs=3, omega=.3, tau=.4, a=[-1., 1., .8]), dict(a=.35)),
        "V mixed": ("V", lambda: V.LinCombV([[.4, V.Rayleigh()], [.6, V.HGRayleigh(t=T, ncoefs=3)]], omega=.3, tau=.4), dict(a=.35)),
        "S henyey": ("S", lambda: S.HenyeyGreenstein(t=T, ncoefs=3, a=[.7, 1., .9], NormBRDF=.3), dict(a=.35)),
        "S lobe": ("S", lambda: S.CosineLobe(i=4, ncoefs=3, a=[.9, 1., 1.], NormBRDF=.3), {}),
        "S isotropic": ("S", lambda: S.Isotropic(NormBRDF=.3), {}),
        "S mixed": ("S", lambda: S.LinCombSRF([[.3, S.Isotropic()], [.7, S.HG_nadirnorm(t=T, ncoefs=3)]]), dict(a=.35)),
    }
    st = np.array([-2, -1, 1, 2]) * 1e-3
    W = "Volume.p_theta_diff, Surface.brdf_theta_diff"

    def cases():
        for name, (kind, new, pd) in mk.items():
            for geom in ("mono", "vvvv", "fvvv", "vvfv", "fvff", "vfvv", "ffff"):
                for order in (1, 2):
                    n = 3
                    a = dict(t_0=rng.uniform(.2, .5, n), t_ex=rng.uniform(.2, .5, n), p_0=rng.uniform(0, .5, n), p_ex=rng.uniform(0, .5, n))
                    if kind == "S" and "lobe" in name:
                        a["p_ex"] = a["p_0"] + .1
                    g = "vvff" if geom == "mono" else geom
                    for (k, v), c in zip(list(a.items()), g):
                        if c == "f":
                            a[k] = np.full(n, v[0])
                    if geom == "mono":
                        a["t_ex"], a["p_ex"] = a["t_0"], a["p_0"] + np.pi

                    def thunk(new=new, kind=kind, geom=geom, order=order, a=a, pd=pd):
                        o = new()
                        return getattr(o, "p_theta_diff" if kind == "V" else "brdf_theta_diff")(**a, geometry=geom, param_dict=dict(pd), n=order)

                    def want(got, new=new, kind=kind, geom=geom, order=order, a=a, pd=pd, g=g):
                        o = new()
                        if g[1] == "f":
                            return bool(np.allclose(np.broadcast_to(np.asarray(got, float), 3), 0.))
                        def val(s):
                            b = dict(a, t_ex=a["t_ex"] + s)
                            if geom == "mono":
                                b["t_0"] = a["t_0"] + s
                            return np.broadcast_to(np.asarray((o.p if kind == "V" else o.brdf)(b["t_0"], b["t_ex"], b["p_0"], b["p_ex"], param_dict=dict(pd)), float), 3)
                        v = np.array([val(s) for s in st])
                        w = np.tensordot(np.array([1, -8, 8, -1]) / .012, v, 1) if order == 1 else (-v[0] + 16 * v[1] - 30 * val(0.) + 16 * v[2] - v[3]) / 12e-6
                        got = np.asarray(got, float)
                        return got.shape == (3,) and bool(np.allclose(got, w, rtol=2e-5, atol=2e-6))
                    yield dict(function=name, geometry=geom, order=order, **a), thunk, want
    ck.battery("derivatives of the phase functions", W, cases(), bound="seven functions, seven geometries, orders 1 and 2")

    def rejects():
        for name in ("V henyey", "S henyey"):
            kind, new, pd = mk[name]
            for i, k in enumerate(("t_0", "t_ex", "p_0", "p_ex")):
                a = dict(t_0=np.full(2, .3), t_ex=np.full(2, .4), p_0=np.full(2, .1), p_ex=np.full(2, .2))
                a[k] = a[k] + np.array([0., .1])
                for geom in (["v" if i != j else "f" for j in range(4)], ["f"] * 4, ["v" if i != j else "x" for j in range(4)]):
                    geom = "".join(geom)
                    yield dict(function=name, geometry=geom, **a), (lambda new=new, kind=kind, a=a, geom=geom, pd=pd: getattr(new(), "p_theta_diff" if kind == "V" else "brdf_theta_diff")(**a, geometry=geom, param_dict=dict(pd))), AssertionError
    ck.battery("geometries which do not fit the angles", W, rejects(), bound="one angle per geometry")
