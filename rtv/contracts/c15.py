"""C15  results never depend on values that have been replaced before

Invariant of a model object: whatever is cached (coefficients, their compiled
functions, derivatives) is a function of the current inputs.  Every obligation
starts from a state reached by evaluations with other (arbitrary) values,
replaces inputs and compares the evaluation with a new object; the caches are
the only hidden state and their filling states are enumerated."""
import ast
import copy
import inspect
import itertools
import textwrap
import types

import cloudpickle
import numpy as np
import sympy as sp

from .. import fitmodels as fm
from ..model import *
from ..stubs import funcs, generic
from ..term import Sym, SymArray, const, fn, tosym, var

ANG = ("t_0", "t_ex", "p_0", "p_ex")
SETTERS = ("t_0", "t_ex", "p_0", "p_ex", "omega", "tau", "NB", "bsf", "I0", "par", "parrev")
MONO_EVALS = ("surface_slope", "surface_curv", "volume_slope", "volume_curv", "tot_slope", "tot_curv")
UNITS = [(False, False), (True, False), (False, True), (True, True)]


def apply(R, name, tag):
    """replace one input by new arbitrary values"""
    if name in ANG:
        setattr(R, name, arr(f"{name}_{tag}0", f"{name}_{tag}1"))
    elif name == "omega":
        R.V.omega = var(f"omega{tag}")
    elif name == "tau":
        R.V.tau = var(f"tau{tag}")
    elif name == "NB":
        R.SRF.NormBRDF = var(f"NB{tag}")
    elif name in ("bsf", "I0"):
        setattr(R, name, var(f"{name}{tag}"))
    elif name == "par":
        R.param_dict = dict(x=var(f"x{tag}"), y=var(f"y{tag}"))
    elif name == "parrev":
        R.param_dict = dict(y=var(f"y{tag}"), x=var(f"x{tag}"))


def evaluate(R, what):
    if what == "calc":
        return list(R.calc())
    if what.startswith("jac"):
        sig0, dB = UNITS[int(what[3])]
        return list(R.jacobian(dB=dB, sig0=sig0, param_list=["omega", "tau", "NormBRDF", "bsf", "x", "y"]))
    sig0, dB = UNITS[int(what[-1])]
    return [getattr(R, what[:-1])(sig0=sig0, dB=dB)]


def snapshot(R):
    return [R.t_0, R.t_ex, R.p_0, R.p_ex, R.V.omega, R.V.tau, R.SRF.NormBRDF, R.bsf, R.I0, list(R.param_dict), list(R.param_dict.values())]


def scal(x):
    if isinstance(x, (list, tuple)):
        return [y for i in x for y in scal(i)]
    return [i if isinstance(i, str) else tosym(i) for i in np.ravel(np.asarray(x, dtype=object))]


def main(ck):
    from rt1.rt1 import RT1

    ck.section(models, ck, RT1)
    ck.section(frames, ck)
    ck.section(rt_battery, ck, RT1)
    ck.section(fit_battery, ck)
    ck.section(findings, ck)
    return "proof"


def models(ck, RT1):
    ck.assume("phase functions, Legendre coefficients and angles are arbitrary (uninterpreted)",
              "zenith angles lie in [0, pi], where arccos(cos t) = t",
              "two different symbolic angles are different values (np.unique)",
              "only the attributes named in the property are replaced; values are replaced by assignment (in-place changes: known finding)")

    def new(geom, be, stub, order):
        V = funcs("V", "P", ("x", "y"))(omega=var("omega"), tau=var("tau"))
        S = funcs("S", "B", ("x", "y"))(NormBRDF=var("NB"))
        nV, nS = order
        V.ncoefs, S.ncoefs = nV, nS
        V.legcoefs = generic("L", 3)(sp.Symbol("n"), sp.Symbol("x"), sp.Symbol("y"))
        S.legcoefs = generic("K", 3)(sp.Symbol("n"), sp.Symbol("x"), sp.Symbol("y"))
        f = lambda x: arr(f"{x}_0", f"{x}_1") if geom == "mono" and x[0] == "t" or geom != "mono" and geom[ANG.index(x)] == "v" else arr(f"{x}_f", f"{x}_f")
        R = RT1(var("I0"), f("t_0"), f("t_ex"), f("p_0"), f("p_ex"), V=V, SRF=S, geometry=geom, bsf=var("bsf"), int_Q=True, verbosity=0,
                lambda_backend=be, param_dict=dict(x=var("x"), y=var("y")))
        if stub:
            R._fnevals_input = fnevals_stub(nV + nS - 1)
            R.fn_input = 1
        return R

    def settable(geom, s):
        if s in ANG:
            return (s == "t_0" if geom == "mono" else geom[ANG.index(s)] == "v")
        return True

    hs = [s for s in SETTERS]
    base = nonneg(*[var(n + t) for n in ("omega", "tau", "NB") for t in ("", "A", "B", "C")])

    def play(geom, be, stub, order, seq):
        """seq: list of ('set', name, tag) / ('eval', what); the last evaluation is returned, inputs are
        compared around every evaluation"""
        R = new(geom, be, stub, order)
        out, diffs = None, []
        for st in seq:
            if st[0] == "set":
                apply(R, st[1], st[2])
            else:
                b = scal(snapshot(R))
                out = evaluate(R, st[1])
                a = scal(snapshot(R))
                diffs.append((b, a))
        return scal(out), diffs

    def only_sets(seq):
        """the same inputs on a new object, evaluated once"""
        last = {}
        for st in seq:
            if st[0] == "set":
                last["par" if st[1] == "parrev" else st[1]] = st
        return list(last.values()) + [seq[-1]]

    def check(name, geom, be, stub, order, seq):
        where = "RT1." + {"calc": "calc", "jac": "jacobian"}.get(seq[-1][1][:4 if seq[-1][1] == "calc" else 3], seq[-1][1][:-1])
        got = ck.run(name, where, lambda: play(geom, be, stub, order, seq), base)
        ref = ck.run(name + "_new", where, lambda: play(geom, be, stub, order, only_sets(seq)), base)
        if not got or not ref:
            return
        if len(got) != 1 or len(ref) != 1:
            ck.undecided(name, where, "the number of paths differs")
            return
        (h1, (o1, d1), _), (h2, (o2, d2), _) = got[0], ref[0]
        if len(o1) != len(o2):
            ck.fact(name, where, False, f"{len(o1)} values after the history, {len(o2)} from a new object")
            return
        ck.eq(name, where, o1, o2, h1 + h2)
        ok = all(len(b) == len(a) and all((x == y) if isinstance(x, str) else (not isinstance(y, str) and x is y or x == y) is True or _eqs(x, y) for x, y in zip(b, a)) for b, a in d1)
        ck.fact(name + "_inputs_unchanged", where, ok, "an evaluation replaced one of the inputs")

    def _eqs(x, y):
        return not isinstance(y, str) and repr(x) == repr(y)

    # ---- one input replaced after an evaluation, every evaluation, stubs for the coefficient functions
    evs_bi = ["calc", "jac0", "jac2"]
    evs_mono = ["calc", "jac1", "jac3"] + [e + str(u) for e in MONO_EVALS for u in ((0, 3) if e.startswith("tot") else (0,))]
    if ck.thorough():
        evs_bi = ["calc"] + [f"jac{u}" for u in range(4)]
        evs_mono = ["calc"] + [f"jac{u}" for u in range(4)] + [e + str(u) for e in MONO_EVALS for u in range(4)]
    for geom, evs in (("mono", evs_mono), ("vvvv", evs_bi)):
        for ev in evs:
            for s in SETTERS:
                if settable(geom, s):
                    check(f"one_{geom}_{ev}_{s}", geom, "sympy", True, (1, 1), [("eval", ev), ("set", s, "A"), ("eval", ev)])
    # ---- all inputs replaced twice, all evaluations in between (every cache filled)
    for geom, evs in (("mono", evs_mono), ("vvvv", evs_bi)):
        use = [s for s in SETTERS if settable(geom, s) and s != "parrev"]
        for k, ev in enumerate(evs):
            o = list(use)
            ck.rng.shuffle(o)
            seq = [("eval", e) for e in evs] + [("set", s, "A") for s in o] + [("eval", evs[(k + 1) % len(evs)])]
            seq += [("set", "parrev" if s == "par" else s, "B") for s in o] + [("eval", ev)]
            check(f"all_{geom}_{ev}", geom, "sympy", True, (1, 1), seq)
    # ---- the real coefficient functions (cached expansion), for several geometries
    for geom in ("mono", "vvvv", "vfvf", "fvvv", "ffff", "vfff"):
        for s in SETTERS:
            if settable(geom, s):
                for first in ([("eval", "calc")], [("touch",)]):
                    seq = first + [("set", s, "A"), ("eval", "calc")]
                    _coef(ck, new, geom, seq, base, only_sets)


def _coef(ck, new, geom, seq, base, only_sets):
    """values of the (really generated) coefficient functions as they enter the interaction term"""
    nm = f"coefficients_{geom}_{'_'.join(str(x[1]) if len(x) > 1 else 'used' for x in seq[:-1])}"
    where = "RT1._fnevals, RT1._fnevals_exchanged, RT1._fn_params, RT1._calc_Fint_1, RT1._calc_Fint_2"

    def go(seq):
        R = new(geom, "sympy", False, (2, 1))
        out = []
        for st in seq:
            if st[0] == "set":
                apply(R, st[1], st[2])
            elif st[0] == "touch":
                R._fnevals
            else:
                out = [R._calc_Fint_1(), R._calc_Fint_2()]
        return scal([x[0] if np.ndim(x) else x for x in out])
    got, ref = ck.run(nm, where, lambda: go(seq), base), ck.run(nm + "_new", where, lambda: go(only_sets(seq)), base)
    if got and ref and len(got) == len(ref) == 1:
        ck.eq(nm, where, got[0][1], ref[0][1], got[0][0] + ref[0][0])


# ---------------------------------------------------------------------------- frames
def closure(cls, name, seen=None, lits=()):
    """instance attributes read and written by a method, following calls and properties of self"""
    seen = {} if seen is None else seen
    if name in seen:
        return seen
    obj = inspect.getattr_static(cls, name)
    f = obj.fget if isinstance(obj, property) else obj
    f = getattr(f, "__wrapped__", f) if not isinstance(f, (staticmethod, classmethod)) else f.__func__
    f = inspect.unwrap(f)
    t = ast.parse(textwrap.dedent(inspect.getsource(f))).body[0]
    me = t.args.args[0].arg if t.args.args and not isinstance(obj, staticmethod) else None
    reads, writes, dyn = set(), set(), False
    for n in ast.walk(t):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            (writes if isinstance(n.ctx, (ast.Store, ast.Del)) else reads).add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "hasattr", "setattr", "delattr"):
            a = n.args
            if isinstance(a[0], ast.Name) and a[0].id == me:
                if isinstance(a[1], ast.Constant):
                    (writes if n.func.id in ("setattr", "delattr") else reads).add(a[1].value)
                else:
                    dyn = True
    seen[name] = dict(reads=reads, writes=writes, dyn=dyn)
    for r in reads:
        try:
            o = inspect.getattr_static(cls, r)
        except AttributeError:
            continue
        if isinstance(o, property) or callable(o) or isinstance(o, (staticmethod, classmethod)):
            closure(cls, r, seen)
    return seen


INPUTS = ("sig0", "dB", "dataset", "defdict", "set_V_SRF")


def frames(ck):
    """frame conditions of the cached properties of Fits, from their source"""
    from rt1.rtfits import Fits

    cached = []
    for k, v in vars(Fits).items():
        g = v.fget if isinstance(v, property) else v
        if hasattr(g, "cache_info"):
            cached.append(k)
    allowed = {"sig0", "dB", "dataset", "_dataset", "defdict", "_defdict", "set_V_SRF"}
    stable = {"config_name"}
    for k in cached:
        nm = f"frame_{k}"
        if k in ("metric", "_assignvals_log_message"):
            continue  # an accessor object bound to the fit / a message, no value
        try:
            c = closure(Fits, k)
        except Exception as e:
            ck.undecided(nm, f"Fits.{k}", f"source not analysable: {e}")
            continue
        rd = set().union(*[x["reads"] for x in c.values()])
        wr = {(m, w) for m, x in c.items() for w in x["writes"]}
        data = {r for r in rd if not hasattr(Fits, r)}
        # names read dynamically are the two scattering objects (call sites: constant arguments)
        dyn = {m for m, x in c.items() if x["dyn"]}
        ok = data <= allowed | stable and not (dyn - {"_get_V_SRF_symbs", "_get_V_SRF_funcs", "_get_V_SRF_diff_funcs"}) and not wr
        if ok:
            ck.fact(nm, f"Fits.{k}", True, backend="frame analysis of the source")
        else:
            ck.undecided(nm, f"Fits.{k}", f"reads {sorted(data - allowed)}, dynamic {sorted(dyn)}, writes {sorted(wr)}")
    # assigning any of the inputs empties every cache
    rng = np.random.default_rng(5)
    for inp in INPUTS:
        f = fm.simple(rng, int_Q=False)
        fill(f)
        full = [k for k in cached if _info(Fits, k).currsize > 0]
        setattr(f, inp, new_value(rng, inp, 0))
        left = [k for k in full if _info(Fits, k).currsize > 0 and k != "_assignvals_log_message"]
        nm = f"clears_{inp}"
        if not left:
            ck.fact(nm, "Fits.__setattr__, Fits._clear_cache", True, f"{len(full)} caches were filled", backend="execution")
        else:
            ck.undecided(nm, "Fits.__setattr__, Fits._clear_cache", f"caches still filled: {left}")
    ck.assume("lru_cache returns the value computed for the same object and arguments, and cache_clear empties it (functools)")


def _info(cls, k):
    v = vars(cls)[k]
    return (v.fget if isinstance(v, property) else v).cache_info()


def fill(f):
    """use every evaluation and cached value of a fit"""
    for k, v in vars(type(f)).items():
        g = v.fget if isinstance(v, property) else None
        if g is not None and hasattr(g, "cache_info") and k != "metric":
            getattr(f, k)
    for k in f.param_dyn_dict:
        f._meandt_interp_assigns(k)
    f.set_model()


# --------------------------------------------------------------------- bounded: models
def rt_battery(ck, RT1):
    from rt1 import surface as S, volume as V
    rng = ck.nprng
    N = 28 if not ck.thorough() else 200

    def rnd(kind, n):
        if kind in ANG:
            return rng.uniform(.1, 1.2, n)
        if kind in ("omega", "NB", "bsf"):
            return float(rng.uniform(.05, .9)) if rng.random() < .6 or kind == "bsf" else rng.uniform(.05, .9, n)
        if kind == "tau":
            return float(rng.uniform(.05, 1.)) if rng.random() < .6 else rng.uniform(.05, 1., n)
        if kind == "I0":
            return float(rng.uniform(.5, 2))
        if kind == "par":
            k = [("tv", float(rng.uniform(-.5, .5)) if rng.random() < .5 else rng.uniform(-.5, .5, n)), ("ts", float(rng.uniform(.1, .6)))]
            return dict(k if rng.random() < .5 else k[::-1])

    def make(st, geom, be, kind):
        tv, ts = sp.Symbol("tv"), sp.Symbol("ts")
        vs = {"hg": lambda: V.HenyeyGreenstein(t=tv, ncoefs=3, omega=st["omega"], tau=st["tau"]), "hgr": lambda: V.HGRayleigh(t=tv, ncoefs=3, omega=st["omega"], tau=st["tau"]),
              "lc": lambda: V.LinCombV([[.4, V.Rayleigh()], [.6, V.HenyeyGreenstein(t=tv, ncoefs=2)]], omega=st["omega"], tau=st["tau"])}
        return RT1(st["I0"], st["t_0"], st["t_ex"], st["p_0"], st["p_ex"], V=vs[kind](), SRF=S.HenyeyGreenstein(t=ts, ncoefs=3, a=[.7, 1., .9], NormBRDF=st["NB"]), geometry=geom,
                   bsf=st["bsf"], int_Q=True, verbosity=0, lambda_backend=be, param_dict=dict(st["par"]))

    def put(R, k, v):
        if k == "omega":
            R.V.omega = v
        elif k == "tau":
            R.V.tau = v
        elif k == "NB":
            R.SRF.NormBRDF = v
        elif k == "par":
            R.param_dict = dict(v)
        else:
            setattr(R, k, v)

    def ev(R, what, geom):
        n = np.shape(R.t_0)
        with np.errstate(all="ignore"):
            if what == "calc":
                r = R.calc()
            elif what[0] == "jac":
                r = R.jacobian(sig0=what[1], dB=what[2], param_list=["omega", "tau", "NormBRDF", "bsf", "tv", "ts"])
            else:
                r = [getattr(R, what[0])(sig0=what[1], dB=what[2])]
        return np.array([np.broadcast_to(np.asarray(x, dtype=float), n) for x in r])

    def cases():
        for i in range(N):
            geom = ["mono", "vvvv", "vfvf", "fvfv", "mono", "vvvv", "vfff"][int(rng.integers(0, 7))]
            be = ["symengine", "sympy"][int(rng.integers(0, 2))]
            kind = ["hg", "hgr", "lc"][int(rng.integers(0, 3))]
            n = int(rng.integers(1, 4))
            st = {k: rnd(k, n) for k in (*ANG, "omega", "tau", "NB", "bsf", "I0", "par")}
            if geom == "mono":
                st["p_0"] = np.full(n, float(st["p_0"][0]))
            else:
                for a, c in zip(ANG, geom):
                    if c == "f":
                        st[a] = np.full(n, float(st[a][0]))
            evs = ["calc", "calc"] + [("jac", *u) for u in UNITS]
            if geom == "mono":
                evs += [(e, *UNITS[int(rng.integers(0, 4))]) for e in MONO_EVALS]
            can = ["omega", "tau", "NB", "bsf", "I0", "par", "par"] + [a for a, c in zip(ANG, geom if geom != "mono" else "vfff") if c == "v"]
            hist = []
            start = copy.deepcopy(st)
            for _ in range(int(rng.integers(2, 6))):
                if rng.random() < .75:
                    hist.append(("eval", evs[int(rng.integers(0, len(evs)))]))
                for _ in range(int(rng.integers(1, 4))):
                    k = can[int(rng.integers(0, len(can)))]
                    hist.append(("set", k, rnd(k, n)))
                if rng.random() < .35:
                    hist.append(("copy", ["dump and load", "dump", "deepcopy"][int(rng.integers(0, 3))]))
            hist.append(("eval", evs[int(rng.integers(0, len(evs)))]))

            def go(start=start, hist=hist, geom=geom, be=be, kind=kind):
                st = copy.deepcopy(start)
                R = make(st, geom, be, kind)
                bad = []
                for h in hist:
                    if h[0] == "set":
                        st[h[1]] = copy.deepcopy(h[2])
                        put(R, h[1], copy.deepcopy(h[2]))
                        continue
                    if h[0] == "copy":
                        R = copied(R, h[1])
                        continue
                    got = ev(R, h[1], geom)
                    ref = ev(make(copy.deepcopy(st), geom, be, kind), h[1], geom)
                    if not np.allclose(got, ref, rtol=1e-9, atol=1e-13, equal_nan=True):
                        bad.append((h[1], got, ref))
                    now = dict(t_0=R.t_0, p_0=R.p_0, omega=R.V.omega, tau=R.V.tau, NB=R.SRF.NormBRDF, bsf=R.bsf, I0=R.I0, **(dict(t_ex=R.t_ex, p_ex=R.p_ex) if geom != "mono" else {}))
                    for k, v in now.items():
                        if not np.array_equal(np.ravel(v), np.ravel(st[k])):
                            bad.append(("input changed", k, v))
                    if list(R.param_dict) != list(st["par"]) or any(not np.array_equal(R.param_dict[k], st["par"][k]) for k in st["par"]):
                        bad.append(("input changed", "param_dict", R.param_dict))
                return bad
            yield dict(geometry=geom, backend=be, V=kind, start=start, history=[list(map(str, h)) for h in hist]), go, lambda bad: bad == []
    ck.battery("histories of a model", "RT1.calc, RT1.jacobian, RT1.tot_slope, RT1.tot_curv, RT1.surface_slope, RT1.surface_curv, RT1.volume_slope, RT1.volume_curv, RT1._fnevals, RT1._fn_params",
               cases(), bound=f"{N} random histories, 7 geometries, both back ends")


def copied(o, how):
    """the object with which the history continues"""
    if how == "reinit":
        return o.reinit_object()
    if how == "deepcopy":
        return copy.deepcopy(o)
    data = cloudpickle.dumps(o)
    return cloudpickle.loads(data) if how == "dump and load" else o


# ----------------------------------------------------------------------- bounded: fits
def _vs1(omega, tau, NormBRDF, **kw):
    from rt1 import surface as S, volume as V
    return V.HenyeyGreenstein(t=kw.get("tv", .3), ncoefs=3, omega=omega, tau=tau), S.HenyeyGreenstein(t=kw.get("ts", .25), ncoefs=3, NormBRDF=NormBRDF)


def _vs2(omega, tau, NormBRDF, **kw):
    from rt1 import surface as S, volume as V
    return V.Rayleigh(omega=omega, tau=2 * tau), S.CosineLobe(i=3, ncoefs=3, NormBRDF=NormBRDF)


def _vs3(omega, tau, NormBRDF, **kw):
    from rt1 import surface as S, volume as V
    return V.HGRayleigh(t=-.2, ncoefs=2, omega=omega ** 2, tau=tau), S.Isotropic(NormBRDF=NormBRDF / 2)


VS4 = dict(V_props=dict(V_name="HenyeyGreenstein", t="tv", ncoefs=3, omega="omega", tau="tau*bsf2"), SRF_props=dict(SRF_name="HenyeyGreenstein", t="ts", ncoefs=2, NormBRDF="NormBRDF", a=[.8, 1., 1.]))


def new_value(rng, inp, i, dB=False):
    import pandas as pd
    if inp == "dataset":
        n = int(rng.integers(6, 14))
        return fm.dataset(rng, n, per=int(rng.integers(1, 4)), weights=bool(rng.integers(0, 2)), dB=dB, start=f"20{10 + i % 9}-0{1 + i % 9}-01",
                          tv=rng.uniform(.1, .4, n), tau=rng.uniform(.1, .4, n), omega_dyn=rng.integers(0, 3, n))
    if inp in ("sig0", "dB"):
        return bool(rng.integers(0, 2))
    if inp == "defdict":
        o = dict(omega=[True, float(rng.uniform(.2, .4)), [None, "2D", 2, "manual", "index", "3D + manual"][int(rng.integers(0, 6))], ([.01], [float(rng.uniform(.5, .7))]), bool(rng.integers(0, 2))],
                 tau=[[True, .4, [None, "3D"][int(rng.integers(0, 2))], ([.01], [1.])], [False, .35], [False, "auxiliary"]][int(rng.integers(0, 3))],
                 NormBRDF=[[False, float(rng.uniform(.2, .4))], [True, .3, None, ([.01], [.9])]][int(rng.integers(0, 2))],
                 bsf=[False, float(rng.uniform(0, .3))], bsf2=[False, float(rng.uniform(.5, 1))],
                 tv=[[False, float(rng.uniform(.1, .4))], [True, .25, None, ([.01], [.5])], [False, "auxiliary"]][int(rng.integers(0, 3))], ts=[False, float(rng.uniform(.1, .4))])
        ks = list(o)
        if rng.integers(0, 2):
            rng.shuffle(ks)
        return {k: o[k] for k in ks}
    return [_vs1, _vs2, _vs3, VS4][int(rng.integers(0, 4))]


def rd(f):
    r = np.random.default_rng(1)
    return {k: np.array(v, dtype=float) * r.uniform(.9, 1.1, np.shape(v)) for k, v in f._startvaldict.items()}


def fit_evals():
    import pandas as pd
    dense = lambda m: np.asarray(m.todense()) if hasattr(m, "todense") else np.asarray(m)
    E = dict(
        param_dyn_dict=lambda f: {k: list(map(int, v)) for k, v in f.param_dyn_dict.items()},
        groupindex=lambda f: list(map(str, f._groupindex)),
        shaped=lambda f: [np.asarray(f.inc, float), np.asarray(f.data, float), np.asarray(f.mask), np.asarray(f.data_weights, float)],
        index=lambda f: [str(i) for i in f.index],
        order=lambda f: list(f._order),
        dates=lambda f: {k: list(map(str, v)) for k, v in f.meandatetimes.items()},
        start=lambda f: {k: np.array(v, float) for k, v in f._startvaldict.items()},
        bounds=lambda f: {k: np.array(v, float) for k, v in f._boundsvaldict.items()},
        fixed=lambda f: {k: np.asarray(v, float) for k, v in f.fixed_dict.items()},
        model=lambda f: np.asarray(f._calc_model(res_dict=rd(f), return_components=True), float),
        slope=lambda f: {k: np.asarray(np.broadcast_to(v, np.shape(f.inc)), float) for k, v in f._calc_slope_curv(res_dict=rd(f)).items()},
        jac=lambda f: dense(f._calc_jac(res_dict=rd(f))),
        frame=lambda f: np.asarray(f.calc_model(res_dict=rd(f), return_components=True), float),
        interp=lambda f: list(f.interp_vals),
        scatter=lambda f: [str(f.V._func), str(f.SRF._func), str(f.V.omega) if isinstance(f.V.omega, sp.Basic) else "", str(f._tau_symb), str(f._omega_symb)],
    )
    return E


def fit_battery(ck):
    from rt1.rtfits import Fits
    import pandas as pd
    rng = ck.nprng
    E = fit_evals()
    N = 14 if not ck.thorough() else 80

    def mk(st, be):
        return Fits(sig0=st["sig0"], dB=st["dB"], dataset=st["dataset"], defdict=copy.deepcopy(st["defdict"]), set_V_SRF=st["set_V_SRF"], int_Q=st["int_Q"], verbose=0, lambda_backend=be,
                    lsq_kwargs=dict(max_nfev=2))

    def safe(f, e):
        with np.errstate(all="ignore"):
            try:
                return E[e](f)
            except Exception as ex:
                return f"{type(ex).__name__}"

    def eq(a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return not isinstance(a, str) and not isinstance(b, str) and np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-12, equal_nan=True)
        return a == b

    def evaluate_all(f, names):
        return [safe(f, e) for e in names]

    def reference(st, be, names):
        return evaluate_all(mk(st, be), names)

    def inputs(f):
        return (f.sig0, f.dB, f.dataset.copy(), copy.deepcopy(f.defdict.to_dict()), repr(f.set_V_SRF))

    def same_in(a, b):
        return a[:2] == b[:2] and a[2].equals(b[2]) and repr(a[3]) == repr(b[3]) and a[4] == b[4]

    def cases():
        for i in range(N):
            be = ["symengine", "sympy"][i % 2]
            start = {k: new_value(rng, k, i) for k in INPUTS}
            start["int_Q"] = i % 3 == 0
            sets = []
            order = list(INPUTS)
            rng.shuffle(order)
            for j, k in enumerate(order[: 3 if not ck.thorough() else 5] + [INPUTS[i % 5]]):
                sets.append((k, new_value(rng, k, i + j + 1)))

            def go(start=start, sets=sets, be=be, i=i):
                # (the creation of a Fits object clears the caches of all fits: the new objects
                # are created after the history is complete)
                st = dict(start)
                f = mk(st, be)
                bad, todo = [], []
                names = list(E)
                np.random.default_rng(i).shuffle(names)
                todo.append(("start", dict(st), evaluate_all(f, names)))
                for n, (k, v) in enumerate(sets):
                    if n == 1:
                        with np.errstate(all="ignore"):
                            try:
                                f.performfit()
                            except Exception:
                                pass
                    if (n + i) % 2:
                        f = copied(f, ["deepcopy", "reinit", "dump and load", "dump"][(i // 2 + n) % 4])
                    st[k] = v
                    setattr(f, k, copy.deepcopy(v) if k == "defdict" else v)
                    b = inputs(f)
                    todo.append((f"after {k}", dict(st), evaluate_all(f, names)))
                    if not same_in(b, inputs(f)):
                        bad.append(("an evaluation changed the inputs", k))
                for tag, s, got in todo:
                    for e, a, b in zip(names, got, reference(s, be, names)):
                        if not eq(a, b):
                            bad.append((tag, e, a, b))
                return bad
            yield dict(backend=be, start={k: _d(v) for k, v in start.items()}, history=[(k, _d(v)) for k, v in sets]), go, lambda bad: bad == []
    ck.battery("histories of a fit", "Fits.__setattr__, Fits._clear_cache, Fits.R, Fits._calc_model, Fits._calc_jac, Fits._calc_slope_curv, Fits.param_dyn_dict, Fits._dataset_used",
               cases(), bound=f"{N} random histories of the five inputs, {len(E)} evaluations compared after every step")

    def fits():
        for i in range(4 if not ck.thorough() else 20):
            start = {k: new_value(rng, k, i) for k in INPUTS}
            start.update(int_Q=i % 2 == 0, set_V_SRF=[_vs1, _vs3, _vs2][i % 3], dB=False)
            start["defdict"] = dict(omega=[True, .3, [None, "2D"][i % 2], ([.01], [.6])], tau=[True, .4, None, ([.01], [1.])], NormBRDF=[False, .3], bsf=[False, .1])
            k = ["dataset", "set_V_SRF", "defdict", "sig0"][i % 4]
            v = {"sig0": not start["sig0"], "dataset": new_value(rng, "dataset", i + 3), "set_V_SRF": _vs2 if start["set_V_SRF"] is not _vs2 else _vs1,
                 "defdict": dict(tau=[True, .3, "2D", ([.01], [1.])], omega=[True, .2, None, ([.01], [.6])], NormBRDF=[False, .25], bsf=[False, 0.])}[k]

            def go(start=start, k=k, v=v):
                f = mk(start, "symengine")
                f.performfit()
                f._calc_model()
                setattr(f, k, copy.deepcopy(v) if k == "defdict" else v)
                f.performfit()
                g = mk({**start, k: v}, "symengine")
                g.performfit()
                return [list(f.res_dict) == list(g.res_dict), all(np.allclose(f.res_dict[p], g.res_dict[p], rtol=1e-6) for p in g.res_dict),
                        np.allclose(f._calc_model(), g._calc_model(), rtol=1e-6)]
            yield dict(start={a: _d(b) for a, b in start.items()}, changed=k, to=_d(v)), go, lambda r: all(r)
    ck.battery("fits after changes", "Fits.performfit, Fits._clear_cache", fits(), bound="one change between two fits")

    def inplace():
        for i in range(3):
            ds = fm.dataset(rng, 10)
            which = ["sig", "inc", "val"][i]

            def go(ds=ds, which=which):
                f = fm.simple(rng, ds=ds.copy())
                f.performfit()
                f._calc_model()
                ds2, dd2 = ds.copy(), copy.deepcopy(fm.DEFS)
                if which == "val":
                    f.defdict["omega"].val = .2
                    f.defdict["bsf"].val = .3
                    dd2["omega"][1], dd2["bsf"][1] = .2, .3
                else:
                    f.dataset[which] = f.dataset[which] * .9
                    ds2[which] = ds2[which] * .9
                f.performfit()
                r = [np.array(v, float) for v in f.res_dict.values()] + [np.array(f._calc_model(), float)]
                g = fm.simple(rng, ds=ds2, defdict=dd2)
                g.performfit()
                return all(np.allclose(a, b, rtol=1e-6) for a, b in zip(r, [*g.res_dict.values(), g._calc_model()]))
            yield dict(changed_in_place=which), go, lambda ok: ok
    ck.battery("fits after changes in place", "Fits.performfit, Fits._clear_cache", inplace(), bound="performfit clears the caches")


def _d(v):
    import pandas as pd
    if isinstance(v, pd.DataFrame):
        return dict(index=[str(i) for i in v.index], **{c: list(v[c]) for c in v})
    return getattr(v, "__name__", v)


def findings(ck):
    rng = np.random.default_rng(3)

    def stale_defdict():
        f = fm.simple(rng)
        f._order, f._startvaldict
        a = f._calc_model(res_dict=rd(f))
        f.defdict["omega"].freq = None
        now = {k: list(v) for k, v in f.param_dyn_dict.items()}
        f._clear_cache()
        return now != {k: list(v) for k, v in f.param_dyn_dict.items()}

    def stale_dataset():
        f = fm.simple(rng)
        f.data
        f.dataset["sig"] = f.dataset["sig"] * 2
        now = np.array(f.data, float)
        f._clear_cache()
        return not np.allclose(now, np.array(f.data, float))
    ck.known_finding("inplace-defdict", stale_defdict(), "a parameter definition that is modified in place (fit.defdict['omega'].freq = None) is not noticed until the caches are cleared")
    ck.known_finding("inplace-dataset", stale_dataset(), "a dataset that is modified in place (fit.dataset['sig'] = ...) is not noticed until the caches are cleared")
