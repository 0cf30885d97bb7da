"""C07  conversions between dB/linear and intensity/sigma-0"""
import itertools

import numpy as np

from .. import fitmodels as fm
from ..model import *
from ..term import const, tosym, var

BOOLS = (False, True)


def lin(v, dB):
    return EXP(tosym(v) / 10 * LOG(const(10))) if dB else tosym(v)


def unit(v, dB):
    return const(10) * LOG(v) / LOG(const(10)) if dB else v


def spec(v, inc, dB, sig0, fdB, fsig):
    """contract of the conversion; `conv` of rtv/lemmas/c07.lean"""
    if dB == fdB and sig0 == fsig:
        return tosym(v)  # c07_identity
    v = lin(v, fdB)
    n = const(4) * pi * COS(inc)
    if fsig and not sig0:
        v = v / n
    if sig0 and not fsig:
        v = n * v
    return unit(v, dB)


class RStub:
    """contract of RT1: arbitrary positive backscatter, recorded jacobian/slope requests"""

    def __init__(self, n, t_0):
        self.t_0, self.n, self.calls, self.param_dict = t_0, n, [], {}
        self.V = type("V_", (), dict(omega=1, tau=1))()
        self.SRF = type("S_", (), dict(NormBRDF=1))()
        self.bsf = 0

    def calc(self):
        return tuple(arr(f"I{k}_0", f"I{k}_1") for k in range(self.n))


def main(ck):
    for part in (proofs, units_passed, battery):
        ck.section(part, ck)
    return "proof"


def proofs(ck):
    from rt1.general_functions import dBsig0convert
    from rt1.rtfits import Fits

    ck.lemmas("c07", "dBsig0convert")
    ck.assume("values are positive where their logarithm is taken; the incidence angle lies in [0, pi/2)")
    w = "dBsig0convert"
    for kind in ("scalar", "array"):
        for dB, sig0, fdB, fsig in itertools.product(*[BOOLS] * 4):
            nm = f"{kind}_{''.join('FT'[int(b)] for b in (dB, sig0, fdB, fsig))}"
            if kind == "scalar":
                V, I = [var("v0")], [var("t0")]
                th = lambda: dBsig0convert(var("v0"), var("t0"), dB, sig0, fdB, fsig)
            else:
                V, I = [var("v0"), var("v1")], [var("t0"), var("t1")]
                th = lambda: dBsig0convert(arr("v0", "v1"), arr("t0", "t1"), dB, sig0, fdB, fsig)
            for hyp, out, _ in ck.run(nm, w, th) or []:
                hy = hyp + [("pos", COS(t)) for t in I] + [("pos", v) for v in V]
                sp_ = [spec(v, t, dB, sig0, fdB, fsig) for v, t in zip(V, I)]
                hy += [("pos", COS(t) * lin(v, fdB)) for v, t in zip(V, I)]
                ck.eq(nm, w, list(np.ravel(out)), sp_, hy, replay=lambda env, a=(dB, sig0, fdB, fsig), n=len(V): (
                    dBsig0convert(np.array([env[f"v{k}"] for k in range(n)]), np.array([env[f"t{k}"] for k in range(n)]), *a),
                    [num_spec(env[f"v{k}"], env[f"t{k}"], *a) for k in range(n)]))

    # ---- the conversion of the model results and the unit arguments of its derivatives
    def fit(sig0, dB):
        F = type("F", (Fits,), dict(set_model=lambda self: None, _set_calc_values=lambda self, R=None, **k: R, ID="RT1_fit"))
        f = F.__new__(F)
        f.__dict__.update(sig0=sig0, dB=dB)
        return f

    for sig0, dB in itertools.product(BOOLS, BOOLS):
        for comp, n in ((False, 3), (True, 3), (True, 4)):
            nm = f"model_{'sig0' if sig0 else 'int'}{'_dB' if dB else ''}{'_components' if comp else ''}{n}"
            r = ck.run(nm, "Fits._calc_model", lambda: fit(sig0, dB)._calc_model(R=RStub(n, arr("t0", "t1")), res_dict={}, fixed_dict={}, interp_vals=[], return_components=comp))
            for hyp, out, _ in r or []:
                want = [unit(const(4) * pi * COS(var(f"t{j}")) * var(f"I{k}_{j}") if sig0 else var(f"I{k}_{j}"), dB) for k in range(n if comp else 1) for j in range(2)]
                hy = hyp + [("pos", COS(var(f"t{j}"))) for j in range(2)] + [("pos", var(f"I{k}_{j}")) for k in range(n) for j in range(2)]
                ck.eq(nm, "Fits._calc_model", list(np.ravel(out)), want, hy)


def num_spec(v, inc, dB, sig0, fdB, fsig):
    v = 10 ** (v / 10) if fdB else v
    v = v / (4 * np.pi * np.cos(inc)) if fsig else v
    v = v * (4 * np.pi * np.cos(inc)) if sig0 else v
    return 10 * np.log10(v) if dB else v


def units_passed(ck):
    """the derivatives are requested from the model in the unit mode of the fit"""
    from rt1.rt1 import RT1

    for sig0, dB in itertools.product(BOOLS, BOOLS):
        f = fm.simple(ck.nprng, sig0, dB)
        calls = []

        class Rec(RT1):
            pass

        for nm in ("jacobian", "tot_slope", "surface_slope", "volume_slope", "tot_curv", "surface_curv", "volume_curv"):
            def mk(nm=nm):
                real = getattr(RT1, nm)

                def g(self, dB=False, sig0=False, param_list=["omega", "tau", "NormBRDF"]):
                    calls.append((nm, dB, sig0))
                    k = dict(param_list=param_list) if nm == "jacobian" else {}
                    return real(self, dB=dB, sig0=sig0, **k)
                if nm.startswith("tot"):
                    return lambda self, sig0=False, dB=False: g(self, dB, sig0)
                return g
            setattr(Rec, nm, mk())
        for what in ("_calc_jac", "_calc_slope_curv"):
            try:
                f.set_model()
                R = f.R
                R.__class__ = Rec
                del calls[:]
                kw = dict(return_components=True) if what == "_calc_slope_curv" else {}
                getattr(f, what)(R=R, res_dict={k: np.array(v) for k, v in f._startvaldict.items()}, fixed_dict=f.fixed_dict, **kw)
                outer = [c for c in calls if not (c[0] != "jacobian" and c[1:] == (False, False))] if dB or sig0 else calls
                names = {c[0] for c in outer}
                need = {"jacobian"} if what == "_calc_jac" else {"tot_slope", "surface_slope", "volume_slope", "tot_curv", "surface_curv", "volume_curv"}
                ck.fact(f"units_{what}_{sig0}_{dB}", f"Fits.{what}", need <= names and all(c[1:] == (dB, sig0) for c in outer),
                        f"sig0={sig0} dB={dB}: requested {sorted(set(calls))}")
            except Exception as e:
                ck.undecided(f"units_{what}_{sig0}_{dB}", f"Fits.{what}", f"{type(e).__name__}: {e}")


def battery(ck):
    import pandas as pd
    from rt1.general_functions import dBsig0convert
    from rt1.rt1 import RT1
    from rt1.rtprocess import RTprocess

    rng = ck.nprng

    def convs():
        for a in itertools.product(*[BOOLS] * 4):
            for rep in range(3 if not ck.thorough() else 30):
                n = (None, 1, 5)[rep % 3]
                v, t = rng.uniform(.01, 3, n), rng.uniform(0, 1.5, n)
                if a[2]:
                    v = v * 20 - 40
                d = dict(val=v, inc=t, dB=a[0], sig0=a[1], fitdB=a[2], fitsig0=a[3])
                v0 = np.array(v)
                yield d, (lambda a=a, v=v, t=t: dBsig0convert(v, t, *a)), num_spec(v, t, *a)
                yield {**d, "there and back": True}, (lambda a=a, v=v, t=t: dBsig0convert(dBsig0convert(v, t, *a), t, a[2], a[3], a[0], a[1])), v
                yield {**d, "input unchanged": True}, (lambda v=v: v), v0
    ck.battery("conversions", "dBsig0convert", convs(), rtol=1e-10, bound="random positive values, scalars and arrays, all 16 combinations")

    def fits():
        for sig0, dB in itertools.product(BOOLS, BOOLS):
            for rep in range(2 if not ck.thorough() else 10):
                dd = {k: v for k, v in fm.DEFS.items() if k != "bsf"}
                f = fm.simple(rng, sig0, dB, int_Q=bool(rep % 2), defdict=dd)
                f2 = fm.simple(rng, sig0, dB)
                par = dict(omega=rng.uniform(.1, .5, 4), tau=rng.uniform(.1, .8, 4), NormBRDF=rng.uniform(.1, .5, 4))
                inc = rng.uniform(.2, 1.2, (1, 3)).repeat(4, 0)

                def want(got, par=par, inc=inc, f=f, sig0=sig0, dB=dB):
                    V, S = f.set_V_SRF(**{k: np.array(v)[:, None] for k, v in par.items()})
                    R = RT1(1., inc, inc, np.zeros_like(inc), np.zeros_like(inc), V=V, SRF=S, geometry="mono", int_Q=f.int_Q, verbosity=0)
                    with np.errstate(all="ignore"):
                        w = [num_spec(np.broadcast_to(x, inc.shape), inc, dB, sig0, False, False) for x in R.calc()]
                        return len(got) == len(w) and all(np.allclose(a, b, rtol=1e-8, equal_nan=True) for a, b in zip(got, w))
                yield dict(sig0=sig0, dB=dB, int_Q=f.int_Q, param=par, inc=inc), (lambda f=f, par=par, inc=inc: [np.array(x) for x in f.calc(par, inc)]), want

                # data, model and derivatives of one fit agree in the unit
                def derivs(f=f2, sig0=sig0, dB=dB):
                    f.set_model()
                    R, t = f.R, f.R.t_0
                    rd = lambda: {k: np.array(v) for k, v in f._startvaldict.items()}
                    h = 1e-5
                    vals = []
                    for s in (-1, 1, 0):
                        R.t_0 = t + s * h
                        vals.append(np.array(f._calc_model(R=R, res_dict=rd(), fixed_dict=f.fixed_dict, return_components=True))[:3])
                    sc = f._calc_slope_curv(R=R, res_dict=rd(), fixed_dict=f.fixed_dict, return_components=True)
                    sl = (vals[1] - vals[0]) / 2 / h
                    return np.allclose(np.array(sc["slope"]), sl, rtol=1e-5, atol=1e-7)
                if not f.int_Q:
                    yield dict(sig0=sig0, dB=dB, what="slope against difference quotient of the model of the fit"), derivs, lambda ok: ok
    ck.battery("model of a fit in its unit mode", "Fits.calc, Fits._calc_model, Fits._calc_slope_curv", fits(), bound="random parameters, four unit modes")

    def export():
        for sig0, dB, todB, deg in itertools.product(BOOLS, BOOLS, BOOLS, BOOLS):
            f = fm.simple(rng, sig0, dB)
            for c in ("tot", "surf", "vol", "inter"):
                f.dataset[c] = rng.uniform(.01, .4, len(f.dataset))
            keys = ["sig", "inc", "tot", "surf", "vol", "inter"]
            before = f.dataset.copy()
            f.reader_arg = {}

            def want(got, f=f, dB=dB, todB=todB, deg=deg, keys=keys, before=before):
                df = got["dynamic"]
                for k in keys:
                    w = before[k].values
                    if k == "inc":
                        w = np.rad2deg(w) if deg else w
                    elif todB and not dB:
                        w = 10 * np.log10(w)
                    if not np.allclose(np.asarray(df[k]).ravel(), w, rtol=1e-10):
                        return False
                return before.equals(f.dataset)
            yield (dict(sig0=sig0, dB=dB, sig_to_dB=todB, inc_to_degree=deg), lambda f=f, todB=todB, deg=deg, keys=keys: RTprocess._postprocess_getparams(
                f, saveparams=keys, sig_to_dB=todB, inc_to_degree=deg), want)
    ck.battery("exported results", "RTprocess._postprocess_getparams", export(), bound="all switches, one dataset each")
