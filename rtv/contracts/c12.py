"""C12  parameter definitions survive conversion between their list and object forms

The conversions only move values: they are executed on opaque values (all
operations that would look at a value are refused), over all forms of a
definition (list form of 0..5 entries, every subset of the keys of the dict
form), which is complete for the values."""
import copy
import itertools

import numpy as np
import pandas as pd

from .. import fitmodels as fm, npproxy
from ..fitspec import fit_groups
from ..model import *
from ..opaque import Token, same, shared
from ..term import Sym, SymFloat, const, tosym, var

PROPS = ["fitQ", "val", "freq", "minval", "maxval", "interpQ"]
DEFAULT = dict(fitQ=True, val=.5, freq=None, minval=0., maxval=1., interpQ=False)  # documented in add_variable
W = "_RT1_defdict.from_dict, _RT1_defdict.to_dict, _RT1_variable._from_list, _RT1_variable._to_list, _RT1_variable._from_dict, _RT1_variable._to_dict"


def tok(name, k):
    return Token(f"{name}.{k}")


def full(name, n, bounds=tuple):
    """a list-form definition with n entries, and the properties it stands for"""
    t = {p: tok(name, p) for p in PROPS}
    l = [t["fitQ"], t["val"], t["freq"], bounds([[t["minval"]], [t["maxval"]]]), t["interpQ"]][:n]
    used = dict(zip(PROPS, [None] * 6))
    for i, p in enumerate(["fitQ", "val", "freq", ("minval", "maxval"), "interpQ"][:n]):
        for q in ([p] if isinstance(p, str) else p):
            used[q] = t[q]
    return l, used


def listform(u):
    return [u["fitQ"], u["val"], u["freq"], ([u["minval"]], [u["maxval"]]), u["interpQ"]]


def main(ck):
    from rt1._containers import _RT1_defdict

    ck.assume("the value of a definition entry is any object; copy.deepcopy returns an independent equal object")
    D = _RT1_defdict
    ck.opaque_only = True
    NAMES = ["omega", "tau", "NormBRDF"]

    # ---- list form -> object -> list, every length; with every other parameter present
    for n, bd, nparam in itertools.product(range(1, 6), (tuple, list), (1, 2, 3)):
        nm = f"list_{n}_{bd.__name__}_{nparam}"
        src, used = {}, {}
        for i in range(nparam):
            src[NAMES[i]], used[NAMES[i]] = full(NAMES[i], n if i == 0 else 5 - i, bd)
        keep = copy.copy(src)
        snap = {k: list(v) for k, v in src.items()}

        def go():
            d = D.from_dict(src)
            return d, d.to_dict(), d.to_dict("dict"), dict(d.items()), d.keys(), list(d), D.from_dict(d.to_dict()).to_dict(), D.from_dict(d.to_dict("dict")).to_dict("dict")
        for _, r, _ in ck.run(nm, W, go) or []:
            d, tl, td, it, ks, itr, again, againd = r
            want = {k: listform(u) for k, u in used.items()}
            ck.fact(nm + "_back", W, same(tl, want), f"{src} came back as {tl}")
            ck.fact(nm + "_dict", W, same(td, used), f"{src} came back as {td}")
            ck.fact(nm + "_items", "_RT1_defdict.items, _RT1_defdict.keys", same(it, want) and ks == list(src) and itr == list(src), f"items {it}, keys {ks}")
            ck.fact(nm + "_again", W, same(again, want) and same(againd, used), f"second conversion {again}")
            ck.fact(nm + "_nothing_shared", W, not shared(d, src) and not shared(tl, src), f"shared: {shared(d, src) + shared(tl, src)}")
            ck.fact(nm + "_source_kept", W, all(src[k] is keep[k] and all(a is b for a, b in zip(src[k], snap[k])) and len(src[k]) == len(snap[k]) for k in src), "the source definition has been changed")
            ck.fact(nm + "_access", "_RT1_variable.__getitem__, _RT1_variable.__getattribute__, _RT1_defdict.__getitem__", all(
                same(d[k][i], w) and same(d[k][p], used[k][p]) and same(getattr(d[k], p), used[k][p]) and same(getattr(d.var, k)[i], w)
                for k in src for i, w in enumerate(listform(used[k])) for p in PROPS), "access by number, name or attribute differs")

    # ---- dict form, every subset of the keys: documented defaults for the others
    for r in range(7):
        for sub in itertools.combinations(PROPS, r):
            nm = "dict_" + ("_".join(sub) or "empty")
            src = {"omega": {p: tok("omega", p) for p in sub}, "tau": full("tau", 5)[0]}
            want = {"omega": {p: src["omega"].get(p, DEFAULT[p]) for p in PROPS}, "tau": full("tau", 5)[1]}

            def go():
                d = D.from_dict(src)
                return d.to_dict("dict"), d.to_dict(), d, D.from_dict(d.to_dict("dict")).to_dict("dict")
            for _, out, _ in ck.run(nm, W, go) or []:
                td, tl, d, again = out
                ck.fact(nm, W, same(td, want) and same(tl["omega"], listform(want["omega"])) and same(again, want), f"{src} became {td}")
                ck.fact(nm + "_nothing_shared", W, not shared(d, src), f"shared: {shared(d, src)}")
            # the same through attribute access and add_variable
            def go():
                d, e = D(), D()
                d.omega = dict(src["omega"])
                e.add_variable("omega", **src["omega"])
                return d.to_dict("dict"), e.to_dict("dict"), d.keys(), e.keys()
            for _, out, _ in ck.run(nm + "_set", "_RT1_defdict.add_variable, _RT1_defdict.__setattr__", go) or []:
                ck.fact(nm + "_set", "_RT1_defdict.add_variable, _RT1_defdict.__setattr__", all(same(x, {"omega": want["omega"]}) for x in out[:2]) and out[2] == out[3] == ["omega"], f"{src['omega']} became {out}")

    # ---- a change of one definition never affects another one
    def three():
        d = D.from_dict({k: full(k, 5)[0] for k in NAMES})
        return d

    def changes():
        for p in PROPS:
            yield f"attr_{p}", lambda v, new, p=p: setattr(v, p, new), {p: None}
            yield f"item_{p}", lambda v, new, p=p: v.__setitem__(p, new), {p: None}
        for i, p in enumerate(["fitQ", "val", "freq", None, "interpQ"]):
            if p:
                yield f"number_{i}", lambda v, new, i=i: v.__setitem__(i, new), {p: None}
        yield "number_3", lambda v, new: v.__setitem__(3, ([new], [Token("new2")])), {"minval": None, "maxval": "new2"}
    W2 = "_RT1_variable.__setattr__, _RT1_variable.__setitem__"
    for who in NAMES:
        for cn, ch, touched in changes():
            nm = f"change_{who}_{cn}"

            def go():
                d, other = three(), three()
                ch(d[who], Token("new"))
                return d.to_dict("dict"), d.keys(), other.to_dict("dict")
            for _, (td, ks, oth), _ in ck.run(nm, W2, go) or []:
                want = {k: dict(full(k, 5)[1]) for k in NAMES}
                before = copy.deepcopy(want)
                for p, v in touched.items():
                    want[who][p] = Token(v or "new")
                ck.fact(nm, W2, same(td, want) and ks == NAMES and same(oth, before), f"after the change: {td}")
        W3 = "_RT1_defdict.add_variable, _RT1_defdict.remove_variable"

        def go():
            d = three()
            d.remove_variable(who)
            a, ks, has = d.to_dict("dict"), d.keys(), hasattr(d.var, who)
            d.add_variable(who, val=Token("new"))
            return a, ks, has, d.to_dict("dict"), d.keys()
        for _, (a, ks, has, td, k2), _ in ck.run(f"remove_{who}", W3, go) or []:
            rest = [k for k in NAMES if k != who]
            want = {k: full(k, 5)[1] for k in rest}
            ck.fact(f"remove_{who}", W3, same(a, want) and ks == rest and not has, f"after remove_variable: {a}")
            ck.fact(f"add_again_{who}", W3, same(td, {**want, who: {**DEFAULT, "val": Token("new")}}) and k2 == rest + [who], f"after add_variable: {td}")

        def go():
            d = three()
            d.add_variable(who, freq=Token("new"))
            return d.to_dict("dict"), d.keys()
        for _, (td, ks), _ in ck.run(f"replace_{who}", W3, go) or []:
            want = {k: full(k, 5)[1] for k in NAMES}
            want[who] = {**DEFAULT, "freq": Token("new")}
            ck.fact(f"replace_{who}", W3, same(td, want) and ks == NAMES, f"after add_variable: {td}")

    # the values of two parameters may be given by the same object
    def go():
        l = [True, [1, 2], None, ([0], [1]), [3]]
        d = D.from_dict(dict(omega=l, tau=l))
        d["omega"].val.append(5)
        d["omega"].interpQ.append(7)
        e = D.from_dict(dict(omega=l, tau=l), copy_vals=False)
        return d["tau"].val, d["tau"].interpQ, l, e["tau"].val is l[1]
    for _, out, _ in ck.run("same_source", W, go) or []:
        ck.fact("same_source", W, out == ([1, 2], [3], [True, [1, 2], None, ([0], [1]), [3]], True), f"{out}")
    ck.opaque_only = False
    ck.section(fits, ck)
    ck.section(battery, ck)
    return "proof"


# --------------------------------------------------------------- the fit object
KINDS = {
    "const": lambda k: [True, SymFloat(var(f"s_{k}")), None, ([SymFloat(var(f"lo_{k}"))], [SymFloat(var(f"hi_{k}"))]), False],
    "days": lambda k: [True, SymFloat(var(f"s_{k}")), "2D", ([SymFloat(var(f"lo_{k}"))], [SymFloat(var(f"hi_{k}"))]), True],
    "short": lambda k: [True, SymFloat(var(f"s_{k}")), 2, ([SymFloat(var(f"lo_{k}"))], [SymFloat(var(f"hi_{k}"))])],
    "manual": lambda k: [True, SymFloat(var(f"s_{k}")), "manual", ([SymFloat(var(f"lo_{k}"))], [SymFloat(var(f"hi_{k}"))]), True],
    "index": lambda k: [True, SymFloat(var(f"s_{k}")), "index", ([SymFloat(var(f"lo_{k}"))], [SymFloat(var(f"hi_{k}"))])],
    "auxstart": lambda k: [True, "auxiliary", "D", ([SymFloat(var(f"lo_{k}"))], [SymFloat(var(f"hi_{k}"))]), False],
    "fixed": lambda k: [False, SymFloat(var(f"s_{k}"))],
    "fixed5": lambda k: [False, SymFloat(var(f"s_{k}")), None, ([SymFloat(var(f"lo_{k}"))], [SymFloat(var(f"hi_{k}"))]), True],
    "aux": lambda k: [False, "auxiliary"],
}


def small():
    ix = pd.DatetimeIndex(["2020-01-01", "2020-01-01", "2020-01-02", "2020-01-04", "2020-01-05"])
    d = dict(inc=np.linspace(.3, .9, 5), sig=np.linspace(.1, .2, 5))
    for k in ("omega", "tau", "x"):
        d[k] = np.linspace(.2, .4, 5)
        d[f"{k}_start"] = np.linspace(.2, .6, 5)
        d[f"{k}_dyn"] = [0, 1, 1, 0, 2]
    return pd.DataFrame(d, index=ix)


def fits(ck):
    from rt1.rtfits import Fits
    from rt1.rtprocess import RTprocess
    import sympy as sp

    names = ["omega", "tau", "x"]
    where = "Fits._startvaldict, Fits._boundsvaldict, Fits._fixed_dict, Fits.fixed_dict, Fits._setdict, Fits.interp_vals, Fits._order, Fits._timescaledict, RTprocess._defdict_parser"
    combos = list(itertools.product(KINDS, repeat=3))
    if not ck.thorough():
        combos = [c for i, c in enumerate(combos) if i % 9 == (i // 81) % 9] + [(k,) for k in KINDS] + list(itertools.product(KINDS, repeat=2))
    ds = small()
    # (the data of a fit are defined by the groups of the fitted parameters)
    combos = [c for c in combos if any(not k.startswith("fixed") and k != "aux" for k in c)]
    npproxy.OBJFLOAT = True
    try:
        for c in combos:
            nm = "classes_" + "_".join(c)
            dd = {n: KINDS[k](n) for n, k in zip(names, c)}

            def go():
                f = Fits(sig0=False, dB=False, dataset=ds.copy(), defdict=dd, set_V_SRF=None, int_Q=False, verbose=0)
                return dict(start=f._startvaldict, bounds=f._boundsvaldict, fixed=f._fixed_dict, given=f.fixed_dict, setd=f._setdict, interp=list(f.interp_vals), order=list(f._order),
                            dyn=list(f.param_dyn_dict), time=f._timescaledict, parser=RTprocess._defdict_parser(f.defdict), n={k: len(set(map(str, v))) for k, v in f.param_dyn_dict.items()})
            grp = fit_groups({k: v for k, v in dd.items()}, ds)
            for _, o, _ in ck.run(nm, where, go) or []:
                fitted = [n for n, k in zip(names, c) if dd[n][0]]
                aux = [n for n, k in zip(names, c) if k == "aux"]
                con = [n for n, k in zip(names, c) if k.startswith("fixed")]
                bad = []

                def need(what, got, want):
                    if got != want:
                        bad.append(f"{what}: {got} instead of {want}")
                need("fitted (start values)", list(o["start"]), fitted)
                need("fitted (order)", o["order"], fitted)
                need("fitted (bounds)", list(o["bounds"]), fitted)
                need("fitted (groups)", list(o["dyn"]), fitted)
                need("not fitted", list(o["fixed"]), [n for n in dd if n not in fitted])
                need("external", list(o["given"]), aux)
                need("interpolated", o["interp"], [n for n, k in zip(names, c) if k in ("days", "manual")])
                need("frequencies", dict(o["time"]), {n: dd[n][2] for n, k in zip(names, c) if k in ("days", "short", "auxstart")})
                # constants enter the scattering functions as numbers, everything else by name
                need("all parameters", list(o["setd"]), list(dd))
                for n in dd:
                    v = o["setd"].get(n)
                    if n in con:
                        need(f"constant {n}", str(v), str(dd[n][1]))
                        need(f"constant {n}", str(o["fixed"][n]), str(dd[n][1]))
                    else:
                        need(f"symbol {n}", isinstance(v, sp.Symbol) and str(v), n)
                for n in fitted:
                    k = len(grp[n])
                    if dd[n][1] == "auxiliary":
                        w = [np.mean([ds[f"{n}_start"].iloc[i] for i in g]) for g in grp[n]]
                        need(f"start of {n}", len(o["start"][n]) == k and bool(np.allclose([float(x) for x in o["start"][n]], w)), True)
                    else:
                        need(f"start of {n}", [str(x) for x in o["start"][n]], [f"s_{n}"] * k)
                    need(f"bounds of {n}", [[str(x) for x in y] for y in o["bounds"][n]], [[f"lo_{n}"] * k, [f"hi_{n}"] * k])
                p = o["parser"]
                need("parser", {q: v for q, v in p.items()}, dict(
                    fitted=fitted, fitted_const=[n for n in fitted if dd[n][2] is None], fitted_dynamic=[n for n in fitted if dd[n][2] is not None],
                    fitted_dynamic_manual=[n for n in fitted if dd[n][2] == "manual"], fitted_dynamic_index=[n for n in fitted if dd[n][2] == "index"],
                    fitted_dynamic_datetime=[(n, dd[n][2]) for n in fitted if dd[n][2] in ("2D", "D")], fitted_dynamic_integer=[(n, 2) for n in fitted if dd[n][2] == 2], constant=con, auxiliary=aux))
                ck.fact(nm, where, not bad, "; ".join(bad))
    finally:
        npproxy.OBJFLOAT = False


# --------------------------------------------------------------- bounded stand-in
def battery(ck):
    from rt1._containers import _RT1_defdict as D
    from rt1.rtfits import Fits
    rng = ck.nprng

    def value(kind):
        return [float(rng.uniform(0, 1)), int(rng.integers(0, 9)), "auxiliary", list(map(float, rng.uniform(0, 1, 3))), rng.uniform(0, 1, 3), np.float64(.3), None, dict(a=[1]),
                pd.DataFrame(dict(a=[1., 2.]))][kind]

    def rndlist():
        n = int(rng.integers(1, 6))
        return [bool(rng.integers(0, 2)), value(int(rng.integers(0, 9))), [None, "2D", 3, "manual", "M + manual"][int(rng.integers(0, 5))],
                [([float(rng.uniform())], [float(rng.uniform(1, 2))]), [[float(rng.uniform())], [2]]][int(rng.integers(0, 2))], bool(rng.integers(0, 2))][:n]

    def eq(a, b):
        if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
            return isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame) and a.equals(b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(map(eq, a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
        return type(a) is type(b) and a == b

    def cases():
        for i in range(60 if not ck.thorough() else 500):
            d = {f"p{j}": rndlist() for j in range(int(rng.integers(1, 5)))}
            keep = copy.deepcopy(d)
            want = {k: v + [None, None, None, ([None], [None]), None][len(v):] for k, v in copy.deepcopy(d).items()}
            for k in want:
                lo, hi = want[k][3]
                want[k][3] = (list(lo), list(hi))

            def go(d=d):
                o = D.from_dict(d)
                f = Fits(defdict=d, verbose=0)
                g = Fits(defdict=o.to_dict(), verbose=0)
                r = f.reinit_object()
                return o.to_dict(), D.from_dict(o.to_dict("dict")).to_dict(), f.defdict.to_dict(), g.defdict.to_dict(), r.defdict.to_dict(), d
            yield dict(defdict={k: str(v) for k, v in keep.items()}), go, lambda got, want=want, keep=keep: all(eq(x, want) for x in got[:5]) and eq(got[5], keep)
    ck.battery("random definitions", W + ", Fits.defdict, Fits.reinit_object", cases(), bound="random definitions of 1..4 parameters")

    def independent():
        for i in range(12):
            d = {f"p{j}": [True, list(rng.uniform(0, 1, 3)), "D", ([0.], [1.]), False] for j in range(3)}
            keep = copy.deepcopy(d)

            def go(d=d, keep=keep):
                f = Fits(defdict=d, verbose=0)
                r = f.reinit_object()
                before = copy.deepcopy(f.defdict.to_dict())
                r.defdict["p1"].val[0] = 77
                r.defdict["p1"].freq = "3D"
                r.defdict["p2"][3] = ([5], [6])
                ok = [eq(f.defdict.to_dict(), before), eq(d, keep)]
                f.defdict["p0"].val.append(3)
                f.defdict["p0"].maxval = 9
                t = r.defdict.to_dict()
                return ok + [eq(d, keep), eq(t["p0"], keep["p0"]), t["p2"][3] == ([5], [6]), len(f.defdict["p1"].val) == 3, f.defdict["p1"].maxval == 1.]
            yield dict(defdict=keep), go, lambda ok: all(ok)
    ck.battery("independent definitions", "Fits.defdict, Fits.reinit_object, _RT1_variable.__setitem__", independent(), bound="mutations of copies")

    def dataset_free():
        # names from a fit without a dataset; numpy numbers as constants
        import sympy as sp
        for val, want in ((.3, True), (1, True), (np.float64(.3), True), (np.int64(2), True), (np.float32(.5), True), ("auxiliary", False)):
            def go(val=val):
                f = Fits(defdict=dict(omega=[True, .3, None, ([0.], [1.])], tau=[False, val]), dataset=small(), verbose=0)
                s = f._setdict["tau"]
                return not isinstance(s, sp.Basic), "tau" in f.fixed_dict
            yield dict(value=repr(val)), go, lambda r, want=want: r == (want, not want)
    ck.battery("constant or external", "Fits._setdict, Fits.fixed_dict", dataset_free(), bound="number types")

    def variables():
        """variables are added, replaced and removed one by one"""
        full = ["fitQ", "val", "freq", "minval", "maxval", "interpQ"]
        dflt = [True, .5, None, 0., 1., False]
        for i in range(20 if not ck.thorough() else 150):
            steps, model = [], {}
            for j in range(int(rng.integers(2, 9))):
                k, what = f"p{int(rng.integers(0, 4))}", ["list", "dict", "add", "remove", "other"][int(rng.integers(0, 5))]
                n = int(rng.integers(0, 7))
                v = [bool(rng.integers(0, 2)), float(rng.uniform()), [None, "2D", 3][int(rng.integers(0, 3))], float(rng.uniform()), float(rng.uniform(1, 2)), bool(rng.integers(0, 2))]
                if what in ("list", "dict", "other") and k in model or what == "remove" and k not in model:
                    what = "add"
                if what == "list":
                    steps.append((what, k, v[:n]))
                    model[k] = v[:n] + dflt[n:]
                elif what in ("dict", "add"):
                    some = {q: x for q, x in zip(full, v) if rng.random() < .6}
                    steps.append((what, k, some))
                    model[k] = [some.get(q, x) for q, x in zip(full, dflt)]
                elif what == "remove":
                    steps.append((what, k, None))
                    model.pop(k)
                else:
                    steps.append((what, k, [.3, "text", (True, .3), None][n % 4]))

            def go(steps=steps):
                f = Fits(defdict=None, verbose=0)
                d = f.defdict
                for what, k, v in steps:
                    if what in ("list", "dict"):
                        setattr(d, k, v)
                    elif what == "add":
                        d.add_variable(k, **v)
                    elif what == "remove":
                        d.remove_variable(k)
                    else:
                        try:
                            setattr(d, k, v)
                        except AttributeError:
                            continue
                        return f"{v!r} was accepted as the definition of {k}"
                g = Fits(defdict=d, verbose=0)
                gone = [q for q in ("p0", "p1", "p2", "p3") if q not in list(d) and hasattr(d.var, q)]
                return [d.to_dict(), f.defdict.to_dict(), g.defdict.to_dict(), D.from_dict(d.to_dict()).to_dict(), dict(d.items())], list(d), list(d.keys()), {k: [d[k][q] for q in full] for k in d}, gone

            def want(got, model=model):
                if isinstance(got, str):
                    return False
                w = {k: [v[0], v[1], v[2], ([v[3]], [v[4]]), v[5]] for k, v in model.items()}
                return all(set(x) == set(w) and all(eq(x[k], w[k]) for k in w) for x in got[0]) and sorted(got[1]) == sorted(got[2]) == sorted(w) and eq({k: got[3][k] for k in model}, model) and not got[4]
            yield dict(steps=[list(map(str, s)) for s in steps]), go, want
        for bad in (3, "omega", [True, .3], (1, 2), True):
            yield dict(defdict=repr(bad)), (lambda bad=bad: Fits(defdict=bad, verbose=0)), TypeError
        for empty in (None, {}):
            yield dict(defdict=repr(empty)), (lambda empty=empty: Fits(defdict=empty, verbose=0).defdict.to_dict()), lambda d: d == {}
    ck.battery("variables added and removed", "_RT1_defdict.__setattr__, _RT1_defdict.add_variable, _RT1_defdict.remove_variable, Fits.defdict", variables(), bound="random sequences of up to 8 steps")
