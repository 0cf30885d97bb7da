"""C10  the fit minimises weighted residuals with their true jacobian

``Fits.performfit`` is executed symbolically against three contracts:
``least_squares`` (receives functions, calls them in any order and any number of
times), ``RT1.calc``/``RT1.jacobian`` (arbitrary functions of incidence angle,
albedo, optical depth, surface scale, bare-soil fraction and parameters) and the
scipy.sparse containers (a matrix with given entries)."""
import contextlib
import copy
import io
import itertools
import re

import numpy as np
import pandas as pd
import sympy as sp

from .. import fitmodels as fm, npproxy
from ..fitspec import fit_groups
from ..model import *
from ..term import Sym, SymArray, Unsupported, const, free_vars, subst, tosym, var

ANG = {"theta_0", "theta_ex", "phi_0", "phi_ex"}
W = "Fits.performfit, Fits._calc_model, Fits._set_calc_values, Fits._assignvals, Fits._get_data, rectangularize, split_into"
WJ = "Fits.performfit, Fits._calc_jac, Fits._jac_assign_rule, Fits._set_calc_values, Fits._assignvals, Fits._get_V_SRF_diff_funcs"


# ------------------------------------------------------------------- contracts
class Rec:
    """everything the model was asked for"""

    def __init__(self):
        self.point, self.ids, self.itp, self.models = {}, {}, {}, set()

    def key(self, args):
        k = tuple(id(a) for a in args.values()), tuple(args)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
            self.point[self.ids[k]] = args
        return self.ids[k]


def rt1_contract(rec, params):
    from rt1.rt1 import RT1

    class Model(RT1):
        def _points(self):
            rec.models.add((type(self.V).__name__, str(self.V._func), str(getattr(self.V, "ncoefs", None)), type(self.SRF).__name__, str(self.SRF._func),
                            str(getattr(self.SRF, "ncoefs", None)), self.geometry, bool(self.int_Q)))
            d = dict(I0=self.I0, inc=self.t_0, omega=self.V.omega, tau=self.V.tau, NormBRDF=self.SRF.NormBRDF, bsf=self.bsf)
            for p in params:
                d["p_" + p] = self.param_dict[p]
            a = dict(zip(d, np.broadcast_arrays(*[np.asarray(v, dtype=object) for v in d.values()])))
            sh = a["inc"].shape
            return sh, {ij: rec.key({k: tosym(v[ij]) for k, v in a.items()}) for ij in np.ndindex(*sh)}

        def _fill(self, name):
            sh, pt = self._points()
            o = np.empty(sh, dtype=object)
            for ij, k in pt.items():
                o[ij] = var(f"{name}_at{k}")
            return o.view(SymArray)

        def calc(self):
            return tuple(self._fill(n) for n in (["TOT", "SURF", "VOL"] + (["INT"] if self.int_Q else [])))

        def jacobian(self, dB=False, sig0=False, param_list=["omega", "tau", "NormBRDF"]):
            for n in param_list:
                if n not in ("omega", "tau", "NormBRDF", "bsf") and n not in self.param_dict:
                    raise AssertionError(n)
            return [self._fill(f"D{n}_{'s' if sig0 is True else 'i'}{'d' if dB is True else 'l'}") for n in param_list]

        _fnevals = property(lambda self: "coefficient functions")

    return Model


class Mat:
    """contract of the scipy.sparse containers: a matrix with the given entries
    (entries at the same position are summed)"""

    def __init__(self, arg, shape=None, dtype=None):
        if isinstance(arg, Mat):
            self.a = arg.a
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (r, c) = arg
            sh = shape or (max(r) + 1, max(c) + 1)
            self.a = np.empty(sh, dtype=object)
            self.a[...] = const(0)
            for d, i, j in zip(data, r, c):
                self.a[int(i), int(j)] = self.a[int(i), int(j)] + d
        else:
            self.a = np.asarray(arg, dtype=object)
        self.shape = self.a.shape

    def _m(self, a):
        return Mat(np.asarray(a))

    tocsc = tocsr = tocoo = copy = lambda self, *a, **k: self

    def __getitem__(self, i):
        return self._m(self.a[i])

    def transpose(self, *a, **k):
        return self._m(self.a.T)

    T = property(transpose)

    def toarray(self, *a, **k):
        return self.a.view(SymArray)

    todense = toarray

    def multiply(self, x):
        return self._m(self.a * np.asarray(x.a if isinstance(x, Mat) else x, dtype=object))


def issparse(x):
    return isinstance(x, Mat)


def stack(f):
    return lambda blocks, *a, **k: Mat(f([np.atleast_2d(np.asarray(b.a if issparse(b) else b, dtype=object)) for b in blocks]))


SPARSE = dict(csr_matrix=Mat, csc_matrix=Mat, coo_matrix=Mat, csr_array=Mat, csc_array=Mat, isspmatrix=issparse, issparse=issparse,
              vstack=stack(np.vstack), hstack=stack(np.hstack))


def interp_contract(rec):
    """contract of scipy.interpolate.interp1d: arbitrary values, determined by the
    supporting points and the requested position"""

    class Interp:
        def __init__(self, x, y, kind="linear", **k):
            x, y = np.array(x, dtype=float), [tosym(v) for v in np.asarray(y, dtype=object)]
            same = [i for i, d in rec.itp.items() if d["kind"] == kind and np.array_equal(d["x"], x) and list(map(id, d["y"])) == list(map(id, y))]
            self.n = same[0] if same else len(rec.itp)
            rec.itp.setdefault(self.n, dict(x=x, y=y, kind=kind, q={}))

        def __call__(self, q):
            d = rec.itp[self.n]["q"]
            o = np.empty(len(q), dtype=object)
            for i, t in enumerate(np.asarray(q)):
                t = float(np.asarray(t).astype("datetime64[ns]").astype(np.int64)) if not isinstance(t, float) else t
                j = next((j for j, u in d.items() if u == t), len(d))
                d[j] = t
                o[i] = var(f"itp{self.n}_{j}")
            return o.view(SymArray)

    return Interp


class Result:
    message, success, status, cost, optimality, nfev = "contract of least_squares", True, 1, 0., 0., 1

    def __init__(self, x):
        self.x = x


@contextlib.contextmanager
def patched(**names):
    import rt1.rtfits as rf

    old = {k: getattr(rf, k) for k in names if hasattr(rf, k)}
    for k in old:
        setattr(rf, k, names[k])
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(rf, k, v)


# ------------------------------------------------------------------ structures
def idx(*per_day, start="2020-01-01", freq="D"):
    d = pd.date_range(start, periods=len(per_day), freq=freq)
    return pd.DatetimeIndex(np.repeat(d, per_day))


def vs0(omega, tau, NormBRDF, **k):
    from rt1 import surface as S, volume as V
    return V.HenyeyGreenstein(t=.3, ncoefs=3, omega=omega, tau=tau), S.HenyeyGreenstein(t=.25, ncoefs=2, NormBRDF=NormBRDF)


def vs_par(omega, tau, NormBRDF, tv, ts, **k):
    from rt1 import surface as S, volume as V
    return V.HenyeyGreenstein(t=tv, ncoefs=3, omega=omega, tau=tau), S.HenyeyGreenstein(t=ts, ncoefs=2, NormBRDF=NormBRDF)


def vs_lin(x, NormBRDF, **k):
    from rt1 import surface as S, volume as V
    return V.Rayleigh(omega=x / 2, tau=2 * x), S.HenyeyGreenstein(t=.3, ncoefs=3, NormBRDF=NormBRDF)


def vs_two(x, y, NormBRDF, **k):
    from rt1 import surface as S, volume as V
    return V.HenyeyGreenstein(t=.2, ncoefs=3, omega=.3, tau=2 * x + y * x), S.Isotropic(NormBRDF=NormBRDF * y)


def vs_also(x, NormBRDF, **k):
    from rt1 import surface as S, volume as V
    return V.HenyeyGreenstein(t=x, ncoefs=3, omega=.3, tau=2 * x), S.HenyeyGreenstein(t=.3, ncoefs=3, NormBRDF=NormBRDF)


def vs_own(omega, tau, NormBRDF, **k):
    from rt1 import surface as S, volume as V
    return V.Rayleigh(omega=omega, tau=tau ** 2), S.Isotropic(NormBRDF=NormBRDF)


VS_DICT = dict(V_props=dict(V_name="HenyeyGreenstein", t="tv", ncoefs=4, omega="omega", tau="veg * 2"),
               SRF_props=dict(SRF_name="HenyeyGreenstein", t=.4, ncoefs=3, NormBRDF="NormBRDF"))


def vs_spec_dict(omega, veg, NormBRDF, tv, **k):
    from rt1 import surface as S, volume as V
    return V.HenyeyGreenstein(t=tv, ncoefs=4, omega=omega, tau=2 * veg), S.HenyeyGreenstein(t=.4, ncoefs=3, NormBRDF=NormBRDF)


def b(lo=.01, hi=.9):
    return ([lo], [hi])


I6 = lambda: idx(2, 3, 1)
IRR = lambda: pd.DatetimeIndex(["2020-01-01 06:00", "2020-01-01 18:00", "2020-01-03 06:00", "2020-01-03 06:00", "2020-01-04 07:00", "2020-01-08 01:00"])

# name, index, defdict, model, options
CASES = [
    ("constant", I6, {"omega": [True, .3, None, b()], "tau": [False, .4], "NormBRDF": [False, .3]}, vs0, {}),
    ("calendar", I6, {"omega": [True, .3, "D", b()], "tau": [True, .4, None, b()], "NormBRDF": [False, .3], "bsf": [False, .1]}, vs0, {}),
    ("index", I6, {"tau": [True, .4, "index", b()], "omega": [False, .2], "NormBRDF": [True, .3, "2D", b()]}, vs0, {}),
    ("number", I6, {"omega": [True, .3, 2, b()], "tau": [True, .4, 1, b()], "NormBRDF": [True, .2, None, b()]}, vs0, {}),
    ("manual", I6, {"omega": [True, .3, "manual", b()], "tau": [True, .4, "D", b()], "NormBRDF": [False, .3]}, vs0, dict(dyn=dict(omega=[0, 1, 0, 2, 1, 0]))),
    ("manual combined", IRR, {"omega": [True, .3, "2D + manual", b()], "tau": [True, .4, "manual", b()], "NormBRDF": [False, .3]}, vs0,
     dict(dyn=dict(omega=[0, 1, 0, 0, 1, 0], tau=[12, 3, 12, 3, 3, 12]))),
    ("soil fraction", I6, {"omega": [False, .3], "tau": [False, .4], "NormBRDF": [False, .3], "bsf": [True, .2, "D", b()]}, vs0, {}),
    ("phase parameters", I6, {"ts": [True, .2, "D", b()], "omega": [False, .3], "tv": [True, .35, None, b()], "tau": [True, .4, "D", b()], "NormBRDF": [False, .3]}, vs_par, {}),
    ("auxiliary", I6, {"omega": [True, .3, "D", b()], "tau": [False, "auxiliary"], "NormBRDF": [False, "auxiliary"], "tv": [False, "auxiliary"], "ts": [True, .2, None, b()]},
     vs_par, dict(aux=("tau", "NormBRDF", "tv"))),
    ("auxiliary soil", IRR, {"omega": [True, .3, "D", b()], "tau": [True, .25, None, b()], "NormBRDF": [False, .3], "bsf": [False, "auxiliary"]}, vs0, dict(aux=("bsf",))),
    ("relation", I6, {"x": [True, .3, "D", b()], "NormBRDF": [False, .3]}, vs_lin, dict(rel=dict(omega=lambda p: p["x"] / 2, tau=lambda p: 2 * p["x"]),
                                                                                      drel=dict(omega=lambda p: dict(x=const(1) / 2), tau=lambda p: dict(x=const(2))))),
    ("two relations", I6, {"x": [True, .3, "D", b()], "y": [True, .25, None, b()], "NormBRDF": [True, .35, None, b()]}, vs_two,
     dict(rel=dict(omega=lambda p: const(3) / 10, tau=lambda p: 2 * p["x"] + p["y"] * p["x"], NormBRDF=lambda p: p["NormBRDF"] * p["y"]),
          drel=dict(tau=lambda p: dict(x=2 + p["y"], y=p["x"]), NormBRDF=lambda p: dict(NormBRDF=p["y"], y=p["NormBRDF"])))),
    ("relation and phase parameter", I6, {"x": [True, .3, "D", b()], "NormBRDF": [False, .3]}, vs_also,
     dict(rel=dict(omega=lambda p: const(3) / 10, tau=lambda p: 2 * p["x"]), drel=dict(tau=lambda p: dict(x=const(2))))),
    ("relation with auxiliary", I6, {"x": [True, .3, "2D", b()], "y": [False, "auxiliary"], "NormBRDF": [False, .35]}, vs_two,
     dict(aux=("y",), rel=dict(omega=lambda p: const(3) / 10, tau=lambda p: 2 * p["x"] + p["y"] * p["x"], NormBRDF=lambda p: const(35) / 100 * p["y"]),
          drel=dict(tau=lambda p: dict(x=2 + p["y"])))),
    ("own relation", I6, {"omega": [True, .3, "D", b()], "tau": [True, .4, "index", b()], "NormBRDF": [False, .3]}, vs_own,
     dict(rel=dict(tau=lambda p: p["tau"] ** const(2)), drel=dict(tau=lambda p: dict(tau=2 * p["tau"])))),
    ("dictionary", I6, {"omega": [True, .3, "D", b()], "veg": [True, .4, 2, b()], "NormBRDF": [False, .3], "tv": [True, .1, None, b()]}, VS_DICT,
     dict(specvs=vs_spec_dict, rel=dict(tau=lambda p: 2 * p["veg"]), drel=dict(tau=lambda p: dict(veg=const(2))))),
    ("interpolated", lambda: idx(2, 1, 2, 1), {"omega": [True, .3, "2D", b(), True], "tau": [True, .4, "D", b(), True], "NormBRDF": [True, .35, None, b(), True]}, vs0, {}),
    ("interpolated repeated", lambda: idx(2, 1, 2, 1), {"omega": [True, .3, "manual", b(), True], "tau": [True, .4, "2D", b(), True], "NormBRDF": [False, .3]}, vs0,
     dict(dyn=dict(omega=[0, 0, 1, 1, 0, 2]))),
    ("lists", I6, {"omega": [True, [.31, .32, .33], "D", b(.02, .8)], "tau": [True, .4, None, b()], "NormBRDF": [False, .3]}, vs0, {}),
]


def dataset(ix, weights, opts):
    n = len(ix)
    col = lambda p: np.array([var(f"{p}{k}") for k in range(n)], dtype=object)
    d = dict(sig=col("sig"), inc=col("inc"))
    if weights:
        d["data_weights"] = col("w")
    for a in opts.get("aux", ()):
        d[a] = col(f"aux_{a}_")
    for k, v in opts.get("dyn", {}).items():
        d[f"{k}_dyn"] = v
    return pd.DataFrame(d, index=ix)


def main(ck):
    npproxy.OBJFLOAT = True
    try:
        k = 0
        for case in CASES:
            units = [(k >> 1 & 1 == 1, k & 1 == 1)] if not ck.thorough() else list(itertools.product((False, True), repeat=2))
            if case[0] in ("calendar", "two relations") and not ck.thorough():
                units = list(itertools.product((False, True), repeat=2))
            for j, (sig0, dB) in enumerate(units):
                ck.section(structure, ck, case, sig0, dB, weights=(k + j) % 3 != 0, int_Q=(k + j) % 2 == 1)
            k += 1
    finally:
        npproxy.OBJFLOAT = False
    ck.assume("RT1.calc and RT1.jacobian are arbitrary functions of their documented inputs (their own contracts: C01, C02, C04)",
              "least_squares calls the two functions it receives with parameter vectors of the length of the start vector (contract of scipy.optimize)",
              "scipy.sparse containers hold the given entries, stacking and slicing as in numpy (contract of scipy.sparse)",
              "the interpolation between the dates of the values is scipy.interpolate.interp1d (contract: determined by the supporting points); its jacobian assigns each value to its own group",
              "the structure (dates, groups, relations) is enumerated; the incidence angles, observations, weights, auxiliary data and parameter values are arbitrary")
    ck.section(battery, ck)
    ck.section(evaluations, ck)
    return "proof"


def structure(ck, case, sig0, dB, weights, int_Q):
    from rt1.rtfits import Fits

    name, ix, dd, vs, opts = case
    nm = f"{name.replace(' ', '_')}_{'sig0' if sig0 else 'int'}{'_dB' if dB else ''}"
    ds = dataset(ix(), weights, opts)
    n = len(ds)
    grp = fit_groups(dd, ds)
    fitted = list(grp)
    start = {p: (dd[p][1] if isinstance(dd[p][1], list) else [dd[p][1]] * len(grp[p])) for p in fitted}
    lo = {p: (dd[p][3][0] if len(dd[p][3][0]) > 1 else dd[p][3][0] * len(grp[p])) for p in fitted}
    hi = {p: (dd[p][3][1] if len(dd[p][3][1]) > 1 else dd[p][3][1] * len(grp[p])) for p in fitted}
    specvs = opts.get("specvs", vs)
    V, S = specvs(**{k: sp.Symbol(k) if d[0] is True or d[1] == "auxiliary" else d[1] for k, d in dd.items()})
    params = sorted((set(map(str, V._func.free_symbols)) | set(map(str, S._func.free_symbols))) - ANG)
    model = (type(V).__name__, str(V._func), str(getattr(V, "ncoefs", None)), type(S).__name__, str(S._func), str(getattr(S, "ncoefs", None)), "mono", int_Q)

    def go():
        rec = Rec()
        log = dict(rec=rec)

        def lsq(fun, x0, jac="2-point", bounds=(-np.inf, np.inf), **kw):
            x0 = list(x0)
            m = len(x0)
            log.update(x0=x0, bounds=[list(b_) for b_ in bounds], kw=kw)
            X = [np.array([var(f"x{c}_{i}") for i in range(m)], dtype=object).view(SymArray) for c in "abr"]
            dense = lambda J: np.asarray(J.toarray() if issparse(J) else J)
            log["calls"] = [("fun", "a", fun(X[0])), ("jac", "a", dense(jac(X[0]))), ("jac", "b", dense(jac(X[1]))), ("fun", "b", fun(X[1])),
                            ("fun", "a", fun(X[0]))]
            log["unchanged"] = all(X[c][i] is var(f"x{'abr'[c]}_{i}") for c in range(3) for i in range(m))
            return Result(X[2])

        with patched(RT1=rt1_contract(rec, params), least_squares=lsq, interp1d=interp_contract(rec), **SPARSE):
            f = Fits(sig0=sig0, dB=dB, dataset=ds.copy(), defdict=copy.deepcopy(dd), set_V_SRF=vs, int_Q=int_Q, lsq_kwargs=dict(ftol=1e-5, max_nfev=7), verbose=0)
            f.performfit()
            log["res"] = {k: list(v) for k, v in f.res_dict.items()}
            log["model"] = np.asarray(f._calc_model(res_dict={k: np.array(v, dtype=object) for k, v in log["res"].items()}))[~f.mask]
            log["data"] = np.asarray(f.data)[~f.mask]
        return log

    # albedo, optical depth and scale are not negative within the bounds
    base = nonneg(*[var(f"x{c}_{i}") for c in "abr" for i in range(sum(map(len, grp.values())))], *[var(f"aux_{a}_{k}") for a in opts.get("aux", ()) for k in range(n)])
    if any(len(d) > 4 and d[4] for d in dd.values()):
        base += nonneg(*[var(f"itp{a}_{k}") for a in range(30) for k in range(n)])
    res = ck.run(nm, W, go, base)
    for hyp, log, _ in res or []:
        rec, x0 = log["rec"], log["x0"]
        # -------- one and the same order of start values, bounds and results
        order, pos, i = [], {}, 0
        while i < len(x0):
            p = next((p for p in fitted if p not in pos and start[p] == x0[i:i + len(start[p])]), None)
            if p is None:
                break
            pos[p] = list(range(i, i + len(start[p])))
            order.append(p)
            i += len(start[p])
        okx = sorted(order) == sorted(fitted) and i == len(x0)
        ck.fact(f"{nm}_start_values", "Fits.performfit, Fits._startvaldict, Fits._order", okx, f"start vector {x0} for {start}")
        if not okx:
            continue
        wb = [sum((lo[p] for p in order), []), sum((hi[p] for p in order), [])]
        ck.fact(f"{nm}_bounds", "Fits.performfit, Fits._boundsvaldict", log["bounds"] == wb, f"bounds {log['bounds']} for {order}: {wb}")
        ck.fact(f"{nm}_results", "Fits.performfit, split_into", {k: [str(x) for x in v] for k, v in log["res"].items()} == {p: [f"xr_{i}" for i in pos[p]] for p in fitted},
                f"res_dict {log['res']} for the vector order {pos}")
        ck.fact(f"{nm}_settings", "Fits.performfit", log["kw"] == dict(ftol=1e-5, max_nfev=7) and log["unchanged"], f"settings {log['kw']}, parameter vector unchanged: {log['unchanged']}")
        ck.fact(f"{nm}_model", "Fits.R, Fits.V, Fits.SRF", rec.models == {model}, f"evaluated {rec.models} instead of {model}")

        interp = {q for q in fitted if len(dd[q]) > 4 and dd[q][4] is True}
        group = {q: [next(g for g, o in enumerate(grp[q]) if k in o) for k in range(n)] for q in fitted}
        ns = ds.index.values.astype("datetime64[ns]").astype(np.int64).astype(float)

        def support(q, c):
            """supporting points of the interpolation: the mean date of each period
            with one value, continued with the first and last value to the ends"""
            runs = [list(r) for _, r in itertools.groupby(range(n), key=lambda k: group[q][k])]
            v = [f"x{c}_{pos[q][group[q][r[0]]]}" for r in runs]
            return [ns[0]] + [ns[r].mean() for r in runs] + [ns[-1]], [v[0]] + v + [v[-1]]

        def interpolated(t, c, used):
            m = {}
            for v in free_vars(t):
                w = re.fullmatch(r"itp(\d+)_(\d+)", v)
                if w:
                    d = rec.itp[int(w[1])]
                    y = [str(a) for a in d["y"]]
                    for q in interp:
                        X, Y = support(q, c)
                        if Y == y and len(X) == len(d["x"]) and np.abs(np.array(X) - d["x"]).max() < 1e7 and d["kind"] == "quadratic":
                            k = [k for k in range(n) if abs(ns[k] - d["q"][int(w[2])]) < 1]
                            if k:
                                m[var(v)] = var(f"ITP{q}{c}_{k[0]}")
            return subst(t, m)

        def par(c, k):
            """values of all parameters at observation k for the parameter vector c"""
            p = {q: var(f"x{c}_{pos[q][group[q][k]]}") if q not in interp or len(grp[q]) < 2 else
                 var(f"ITP{q}{c}_{next(i for i in range(n) if ns[i] == ns[k])}") for q in fitted}
            for q, d in dd.items():
                if d[0] is not True:
                    p[q] = var(f"aux_{q}_{k}") if d[1] == "auxiliary" else tosym(d[1])
            return p

        def point(c, k):
            p = par(c, k)
            d = dict(I0=const(1), inc=var(f"inc{k}"), bsf=p.get("bsf", const(0)))
            for q in ("omega", "tau", "NormBRDF"):
                d[q] = tosym(opts["rel"][q](p)) if q in opts.get("rel", {}) else p[q]
            for q in params:
                d["p_" + q] = p[q]
            return d

        def unit(t, inc):
            t = const(4) * pi * COS(inc) * t if sig0 else t
            return const(10) * LOG(t) / LOG(const(10)) if dB else t

        def mine(terms, prefix):
            """the model values used in terms: {variable: point}"""
            return {v: rec.point[int(v.rsplit("_at", 1)[1])] for t in terms for v in free_vars(t) if re.match(prefix, v) and "_at" in v}

        def canon(t, prefix, c, k, what):
            """replace the model values by the ones of observation k after the
            obligation that they were requested at the contract's arguments"""
            m = mine([t], prefix)
            want = point(c, k)
            for v, d in m.items():
                inputs(what, c, k, d, want)
            return subst(t, {var(v): var(v.rsplit("_at", 1)[0] + f"_obs{k}") for v in m})

        asked = {}

        def inputs(what, c, k, d, want):
            """the model is requested at the point of the contract: terms that are not
            identical are separate obligations"""
            d = {q: interpolated(tosym(t), c, None) for q, t in d.items()}
            for q in d:
                asked.setdefault((what, c), []).append((k, q))
                if tosym(d[q]) is not tosym(want[q]):
                    kk = (what, c, k, q, id(tosym(d[q])))
                    if kk not in asked:
                        asked[kk] = 1
                        ck.eq(f"{nm}_{what}{c}{k}_{q}", W, d[q], want[q], relevant(hyp, d[q], want[q]))

        seen = {}
        rows = None
        for ci, (kind, c, val) in enumerate(log["calls"] + [("model", "r", log["model"]), ("data", "r", log["data"])]):
            val = np.asarray(val, dtype=object)
            if kind in ("fun", "model", "data"):
                if val.ndim != 1 or len(val) != n:
                    ck.fact(f"{nm}_{kind}{ci}_length", W, False, f"shape {val.shape} for {n} observations")
                    break
            if kind == "fun":
                if (kind, c) in seen:
                    ck.fact(f"{nm}_repeated_evaluation", W, all(x is y for x, y in zip(map(tosym, val), seen[kind, c])), "the residuals at the same parameters have changed")
                    continue
                val = [tosym(v) for v in val]
                seen[kind, c] = val
                ks = [[int(v[3:]) for v in free_vars(t) if re.fullmatch(r"sig\d+", v)] for t in val]
                ok = all(len(k) == 1 for k in ks) and sorted(k[0] for k in ks) == list(range(n))
                ck.fact(f"{nm}_every_observation_once_{c}", W, ok, f"observations in the entries of the residual vector: {ks}")
                if not ok:
                    break
                ks = [k[0] for k in ks]
                if rows is not None and rows != ks:
                    ck.fact(f"{nm}_row_order", W, False, f"{rows} {ks}")
                    break
                rows = ks
                hy = hyp + [("pos", COS(var(f"inc{k}"))) for k in range(n)] + [("pos", var(f"TOT_obs{k}")) for k in range(n)]
                code = [canon(t, "TOT", c, k, "res") for t, k in zip(val, ks)]
                spec = [(var(f"w{k}") if weights else const(1)) * (unit(var(f"TOT_obs{k}"), var(f"inc{k}")) - var(f"sig{k}")) for k in ks]
                for k, a, z in zip(ks, code, spec):
                    ck.eq(f"{nm}_residual_{c}{k}", W, a, z, relevant(hy, a, z))
            elif kind == "model":
                code = [canon(tosym(t), "TOT", c, k, "model") for t, k in zip(val, rows)]
                hy = hyp + [("pos", COS(var(f"inc{k}"))) for k in range(n)] + [("pos", var(f"TOT_obs{k}")) for k in range(n)]
                for k, a in zip(rows, code):
                    z = unit(var(f"TOT_obs{k}"), var(f"inc{k}"))
                    ck.eq(f"{nm}_model_values_{k}", W, a, z, relevant(hy, a, z))
            elif kind == "data":
                ck.fact(f"{nm}_data", "Fits._get_data, Fits._dataset_used", [str(x) for x in val] == [f"sig{k}" for k in rows], f"{val} {rows}")
            else:
                if val.shape != (n, len(x0)):
                    ck.fact(f"{nm}_jacobian_shape_{c}", WJ, False, f"shape {val.shape} for {n} observations and {len(x0)} values")
                    break
                if rows is None:
                    continue
                u = ("s" if sig0 else "i") + ("d" if dB else "l")
                zero = []
                for i, k in enumerate(rows):
                    p = par(c, k)
                    for q in fitted:
                        for g, j in enumerate(pos[q]):
                            t = tosym(val[i, j])
                            if k not in grp[q][g]:
                                if t is not const(0):
                                    zero.append((k, q, g, str(t)[:80]))
                                continue
                            s = const(0)
                            rel = opts.get("drel", {})
                            for m in ("tau", "omega", "NormBRDF"):
                                if m in rel:
                                    d = rel[m](p)
                                    if q in d:
                                        s = s + var(f"D{m}_{u}_obs{k}") * tosym(d[q])
                            if (q in ("tau", "omega", "NormBRDF", "bsf") and q not in rel) or q in params:
                                s = s + var(f"D{q}_{u}_obs{k}")
                            s = (var(f"w{k}") if weights else const(1)) * s
                            t = canon(t, "D", c, k, "jac")
                            ck.eq(f"{nm}_jacobian_{c}[{k},{q}{g}]", WJ, t, s, relevant(hyp, t, s))
                ck.fact(f"{nm}_model_requested_{c}", WJ, len(asked.get(("jac", c), ())) > 0, "no derivatives of the model are used")
                ck.fact(f"{nm}_jacobian_sparsity_{c}", WJ, not zero, f"non-zero derivatives of observations outside of the group: {zero[:5]}")


def relevant(hyps, *terms):
    """the hypotheses about variables of the terms"""
    v = set().union(*[free_vars(tosym(t)) for t in terms])
    return [h for h in hyps if all(free_vars(x) <= v for x in h[1:] if isinstance(x, Sym))]


# --------------------------------------------------------------- bounded stand-in
def exact_rt1(h=1e-6):
    """RT1 whose jacobian is the difference quotient of surface + volume: the
    contract of C04 (which is checked there)"""
    from rt1.rt1 import RT1

    class Exact(RT1):
        def jacobian(self, dB=False, sig0=False, param_list=["omega", "tau", "NormBRDF"]):
            def val():
                v = self.surface() + self.volume()
                if sig0 is True:
                    v = 4 * np.pi * np.cos(self.t_0) * v
                return 10 * np.log10(v) if dB is True else v
            out = []
            for n in param_list:
                def at(s):
                    if n in ("omega", "tau"):
                        ob, at_ = self.V, n
                    elif n == "NormBRDF":
                        ob, at_ = self.SRF, n
                    elif n == "bsf":
                        ob, at_ = self, n
                    else:
                        old = self.param_dict
                        self.param_dict = {**old, n: old[n] + s}
                        r = val()
                        self.param_dict = old
                        return r
                    old = np.array(getattr(ob, at_), dtype=float)
                    setattr(ob, at_, old + s)
                    r = val()
                    setattr(ob, at_, old)
                    return r
                out.append((at(h) - at(-h)) / 2 / h)
            return out
    return Exact


def battery(ck):
    from rt1.rtfits import Fits

    rng = ck.nprng

    def cases():
        for rep in range(1 if not ck.thorough() else 4):
            extra = [
                ("interpolated", lambda: idx(2, 1, 3, 2, 1, 2), {"omega": [True, .3, "2D", b(), True], "tau": [True, .4, None, b()], "NormBRDF": [False, .3]}, vs0, {}),
                ("interpolated, non-monotonic", lambda: idx(2, 1, 3, 2, 1, 2), {"omega": [True, .3, "manual", b(), True], "tau": [True, .4, "2D", b(), True], "NormBRDF": [False, .3]}, vs0,
                 dict(dyn=dict(omega=[0, 0, 0, 1, 1, 1, 0, 0, 2, 2, 2]))),
            ]
            for case in CASES + extra:
                name, ix, dd, vs, opts = case
                ds0 = dataset(ix(), True, opts)
                n = len(ds0)
                ds = ds0.copy()
                for col in ds0:
                    if ds0[col].dtype == object:
                        ds[col] = rng.uniform(.2, .6, n)
                sig0, dB = bool(rng.integers(2)), bool(rng.integers(2))
                if dB:
                    ds["sig"] = 10 * np.log10(ds["sig"])
                nowt = bool(rng.integers(2))
                if nowt:
                    ds = ds.drop(columns="data_weights")

                def thunk(ds=ds, dd=dd, vs=vs, sig0=sig0, dB=dB):
                    got = {}

                    def lsq(fun, x0, jac=None, bounds=None, **k):
                        x0 = np.array(x0, dtype=float)
                        m = len(x0)
                        x = np.clip(x0 * (1 + .2 * np.arange(m) / m), .02, .88)
                        J = jac(x)
                        J = np.asarray(J.toarray() if hasattr(J, "toarray") else J, dtype=float)
                        r = np.array(fun(x), dtype=float)
                        h = 1e-6
                        N = np.array([(fun(x + h * e) - fun(x - h * e)) / 2 / h for e in np.eye(m)]).T
                        got.update(J=J, N=N, r=r, x=x, x0=x0)
                        return Result(x)
                    with patched(RT1=exact_rt1(), least_squares=lsq):
                        f = Fits(sig0=sig0, dB=dB, dataset=ds.copy(), defdict=copy.deepcopy(dd), set_V_SRF=vs, int_Q=False, verbose=0)
                        f.performfit()
                    got["f"] = f
                    return got

                interp = any(len(d) > 4 and d[4] for d in dd.values())

                def want(got, ds=ds, dd=dd, vs=vs, opts=opts, sig0=sig0, dB=dB, interp=interp):
                    if got["J"].shape != got["N"].shape:
                        return False
                    # a group-wise jacobian is documented for interpolated values only
                    # in so far as every value enters at its own group
                    if not interp and not np.allclose(got["J"], got["N"], rtol=2e-5, atol=1e-6):
                        return False
                    if interp:
                        return len(got["r"]) == len(ds) and np.isfinite(got["r"]).all()
                    return np.allclose(np.sort(got["r"]), np.sort(direct(got["f"], ds, dd, opts.get("specvs", vs), sig0, dB)), rtol=1e-8, atol=1e-10)
                yield dict(case=name, sig0=sig0, dB=dB, weights=not nowt), thunk, want
    ck.battery("residual and jacobian of the fit", "Fits.performfit, Fits._calc_jac, Fits._calc_model", cases(), bound="the enumerated structures with random numbers; interpolated parameters only here")


def direct(f, ds, dd, vs, sig0, dB):
    """residuals, one observation at a time, from the definition"""
    from rt1.rt1 import RT1

    grp = fit_groups(dd, ds)
    out = []
    for k in range(len(ds)):
        row = ds.iloc[k]
        p = {}
        for q, d in dd.items():
            if d[0] is True:
                p[q] = float(f.res_dict[q][next(g for g, o in enumerate(grp[q]) if k in o)])
            else:
                p[q] = float(row[q]) if d[1] == "auxiliary" else d[1]
        V, S = vs(**p)
        R = RT1(1., row.inc, row.inc, 0., np.pi, V=V, SRF=S, geometry="mono", int_Q=False, bsf=p.get("bsf", 0.), verbosity=0)
        v = float(np.ravel(R.calc()[0])[0])
        v = 4 * np.pi * np.cos(row.inc) * v if sig0 else v
        v = 10 * np.log10(v) if dB else v
        out.append((row.data_weights if "data_weights" in ds else 1.) * (v - row.sig))
    return np.array(out)


def evaluations(ck):
    """the model of a fit for given values of the parameters"""
    from rt1.rt1 import RT1
    from rt1.rtfits import Fits
    from .c07 import num_spec

    rng = ck.nprng
    DD = [
        ("constants", fm.DEFS, vs0, ()),
        ("auxiliary", {"omega": [True, .3, "2D", b()], "tau": [False, "auxiliary"], "NormBRDF": [False, "auxiliary"], "bsf": [False, .1]}, vs0, ("tau", "NormBRDF")),
        ("auxiliary bsf", {"omega": [True, .3, "2D", b()], "tau": [True, .3, None, b()], "NormBRDF": [False, .2], "bsf": [False, "auxiliary"]}, vs0, ("bsf",)),
        ("expressions", {"x": [True, .3, "2D", b()], "y": [True, .4, None, b()], "NormBRDF": [False, .3]}, vs_two, ()),
        ("expressions and constants", {"x": [True, .3, "2D", b()], "y": [False, .7], "NormBRDF": [False, .3], "bsf": [True, .1, None, b()]}, vs_two, ()),
        ("expressions and auxiliary", {"x": [True, .3, "2D", b()], "y": [False, "auxiliary"], "NormBRDF": [False, .3]}, vs_two, ("y",)),
        ("shape parameters", {"omega": [False, .3], "tau": [True, .3, "2D", b()], "NormBRDF": [False, .2], "tv": [True, .3, None, b()], "ts": [False, .2]}, vs_par, ()),
        ("shape parameters, auxiliary", {"omega": [False, .3], "tau": [True, .3, "2D", b()], "NormBRDF": [False, .2], "tv": [True, .3, None, b()], "ts": [False, "auxiliary"]}, vs_par, ("ts",)),
    ]

    def cases():
        for i, (name, dd, vs, aux) in enumerate(DD * (1 if not ck.thorough() else 6)):
            for form in ("arrays", "scalars", "frames", "frame and dict"):
                sig0, dB, int_Q = bool(i & 1), bool(i >> 1 & 1), bool((i + len(form)) % 2)
                n = 1 if form == "scalars" else 3
                dates = pd.date_range("2020-01-01", periods=n, freq="D")
                free = {k: rng.uniform(.1, .6, n) for k, d in dd.items() if d[0]}
                fix = {k: rng.uniform(.1, .6, n) for k in aux}
                inc = rng.uniform(.2, 1.1, (1, 4))
                ds = dataset(idx(2, 1, 2), True, dict(aux=aux))
                for col in ds:
                    if ds[col].dtype == object:
                        ds[col] = rng.uniform(.2, .6, len(ds))

                def thunk(dd=dd, vs=vs, form=form, free=free, fix=fix, inc=inc, sig0=sig0, dB=dB, int_Q=int_Q, ds=ds, dates=dates):
                    f = Fits(sig0=sig0, dB=dB, dataset=ds.copy(), defdict=copy.deepcopy(dd), set_V_SRF=vs, int_Q=int_Q, verbose=0)
                    if form == "scalars":
                        p, x = {k: float(v[0]) for k, v in free.items()}, {k: float(v[0]) for k, v in fix.items()}
                    elif form == "arrays":
                        p, x = {k: list(v) for k, v in free.items()}, dict(fix)
                    else:
                        p = pd.DataFrame(free, index=dates)
                        x = dict(fix)
                        if form == "frames":
                            # values of other dates, in another order
                            x = pd.DataFrame(fix, index=dates)
                            x = pd.concat([x, x.rename(index=lambda d: d + pd.Timedelta("100D")) * .5]).iloc[::-1]
                    keep = copy.deepcopy((p, x))
                    out = [f.calc(p, inc[0], fixed_param=x if fix else None), f.calc(p, inc, fixed_param=x if fix else None, return_components=False)]
                    return out, str(keep) == str((p, x))

                def want(got, dd=dd, vs=vs, free=free, fix=fix, inc=inc, sig0=sig0, dB=dB, int_Q=int_Q, n=n):
                    (parts, tot), unchanged = got
                    for k in range(n):
                        p = {q: d[1] for q, d in dd.items() if not d[0] and d[1] != "auxiliary"}
                        p.update({q: float(v[k]) for q, v in (*free.items(), *fix.items())})
                        V, S = vs(**p)
                        R = RT1(1., inc[0], inc[0], np.zeros(4), np.full(4, np.pi), V=V, SRF=S, geometry="mono", int_Q=int_Q, bsf=p.get("bsf", 0.), verbosity=0)
                        with np.errstate(all="ignore"):
                            w = [num_spec(np.broadcast_to(x, (4,)), inc[0], dB, sig0, False, False) for x in R.calc()]
                            if len(parts) != len(w) or not all(np.allclose(np.broadcast_to(a, (n, 4))[k], c, rtol=1e-8, equal_nan=True) for a, c in zip(parts, w)):
                                return False
                            if not np.allclose(np.broadcast_to(tot, (n, 4))[k], w[0], rtol=1e-8):
                                return False
                    return unchanged
                yield dict(case=name, values=form, sig0=sig0, dB=dB, int_Q=int_Q, param=free, fixed_param=fix), thunk, want
    ck.battery("model for given values", "Fits.calc, Fits._calc_model, Fits.set_model, Fits._setdict", cases(), bound="eight definitions, scalars, arrays and frames")

    def options():
        for i, (name, dd, vs, aux) in enumerate(DD[::2]):
            ds = dataset(idx(2, 1, 2), True, dict(aux=aux))
            for col in ds:
                if ds[col].dtype == object:
                    ds[col] = rng.uniform(.2, .6, len(ds))

            def thunk(dd=dd, vs=vs, ds=ds):
                mk = lambda: Fits(sig0=False, dB=False, dataset=ds.copy(), defdict=copy.deepcopy(dd), set_V_SRF=vs, int_Q=False, verbose=0, lsq_kwargs=dict(max_nfev=6))
                f, g = mk(), mk()
                f.performfit()
                with contextlib.redirect_stdout(io.StringIO()):
                    g.performfit(intermediate_results=True, print_progress=True)
                same = list(f.res_dict) == list(g.res_dict) and all(np.allclose(f.res_dict[k], g.res_dict[k], rtol=1e-9) for k in f.res_dict)
                rec = g.intermediate_results
                ok = len(rec["parameters"]) == len(rec["residuals"]) > 0 and set(rec["parameters"][0]) == set(g._order)
                for p, r in zip(rec["parameters"], rec["residuals"]):
                    want = (g.data_weights * (np.asarray(g._calc_model(res_dict={k: np.array(v) for k, v in p.items()})) - g.data))[~g.mask]
                    ok = ok and np.allclose(r["abserr"], want, rtol=1e-9, atol=1e-12) and np.allclose(r["relerr"], want / g.data[~g.mask], rtol=1e-9, atol=1e-12)
                best = min(float(np.sum(np.square(r["abserr"]))) for r in rec["residuals"])
                return same, ok, np.isclose(2 * g.fit_output.cost, best, rtol=1e-9)
            yield dict(case=name), thunk, lambda r: all(r)
    ck.battery("recorded steps of a fit", "Fits.performfit", options(), bound="four definitions")
