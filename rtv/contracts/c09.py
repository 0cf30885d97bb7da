"""C09  every observation is assigned to exactly one value of each fit-parameter"""
import copy

import numpy as np
import pandas as pd

from .. import npproxy
from ..fitspec import fit_groups
from ..model import *
from ..term import const, tosym, var
from .c10 import CASES, IRR, b, dataset, idx, vs0

WA = "Fits._assignvals, Fits._param_assigns_dataset, Fits._idx_assigns, groupby_unsorted, rectangularize"
WD = "Fits._dataset_used, Fits._get_data, Fits._groupindex, Fits.fixed_dict, rectangularize"
WG = "Fits.param_dyn_dict, Fits.param_dyn_df, Fits._groupindex, Fits._timescaledict, Fits._manual_dyn_df"


def combined(grp, n):
    """the observations with the same value of all parameters"""
    g = {}
    for k in range(n):
        g.setdefault(tuple(next(i for i, o in enumerate(v) if k in o) for v in grp.values()), []).append(k)
    return list(g.values())


def main(ck):
    ck.lemmas("c09", "Fits._groupindex, Fits.param_dyn_dict")
    npproxy.OBJFLOAT = True
    try:
        for case in CASES:
            ck.section(structure, ck, case)
    finally:
        npproxy.OBJFLOAT = False
    ck.assume("the dates and groups of the observations are enumerated; the values of parameters and observations are arbitrary",
              "calendar frequencies are pandas.Grouper (contract: successive calendar periods)")
    ck.section(battery, ck)
    return "proof"


def structure(ck, case):
    """distribution of arbitrary values over the observations"""
    from rt1.rtfits import Fits

    name, ix, dd, vs, opts = case
    nm = name.replace(" ", "_").replace(",", "")
    ds = dataset(ix(), True, opts)
    n = len(ds)
    grp = fit_groups(dd, ds)
    cells = combined(grp, n)
    width = max(map(len, cells))

    def go():
        f = Fits(sig0=False, dB=False, dataset=ds.copy(), defdict=copy.deepcopy(dd), set_V_SRF=vs, int_Q=False, verbose=0)
        val = {q: np.array([var(f"v{q}_{g}") for g in range(len(grp[q]))], dtype=object) for q in grp}
        out = f._assignvals(val, interp_vals=[])
        return dict(assigned={q: np.asarray(v) for q, v in out.items()}, inc=np.asarray(f.inc), sig=np.asarray(f.data), w=np.asarray(f.data_weights),
                    mask=np.asarray(f.mask), fixed={q: np.asarray(v) for q, v in f.fixed_dict.items()}, kept=all(v[i] is var(f"v{q}_{i}") for q, v in val.items() for i in range(len(v))),
                    orig=[list(x) for x in f._orig_index], ngroups=f._N_groups, index=list(f.index),
                    counts={q: (len(f._startvaldict[q]), len(f._boundsvaldict[q][0]), len(f._boundsvaldict[q][1]), f.param_dyn_df[q].nunique(), len(f._param_assigns_dataset[q]),
                                len(f._param_assigns[q])) for q in grp})

    for hyp, out, _ in ck.run(nm, WA, go, nonneg(*[var(f"aux_{a}_{k}") for a in opts.get("aux", ()) for k in range(n)])) or []:
        shape = out["inc"].shape
        ok = all(out[q].shape == shape for q in ("sig", "w", "mask")) and all(v.shape == shape for q in ("assigned", "fixed") for v in out[q].values()) and len(shape) == 2
        ck.fact(f"{nm}_one_shape", WA + ", " + WD, ok, f"shapes: data {shape}, " + str({q: v.shape for q, v in {**out['assigned'], **out['fixed']}.items()}))
        if not ok:
            continue
        # which observation does each position hold
        at = np.empty(shape, dtype=int)
        for ij in np.ndindex(*shape):
            at[ij] = int(str(out["sig"][ij])[3:]) if str(out["sig"][ij]).startswith("sig") else -1
        used = sorted(at[~out["mask"]])
        ck.fact(f"{nm}_partition", WD, used == list(range(n)) and (at >= 0).all(), f"unmasked observations {used} of {n}")
        rows = sorted(sorted(int(x) for x, m in zip(r, mm) if not m) for r, mm in zip(at, out["mask"]))
        ck.fact(f"{nm}_cells", WG, rows == sorted(map(sorted, cells)) and out["ngroups"] == len(cells), f"groups {rows} instead of {cells}")
        ck.fact(f"{nm}_values_kept", WA, out["kept"], "the provided values have been changed")
        ok = used == list(range(n)) and all(pd.Timestamp(t) == ds.index[k] for r, o, m in zip(at, out["orig"], out["mask"]) for k, t in zip(r[~m], o)) and [len(o) for o in out["orig"]] == [int((~m).sum()) for m in out["mask"]]
        ck.fact(f"{nm}_dates", "Fits._orig_index, Fits.index", ok, f"dates {out['orig']}")
        for q, c in out["counts"].items():
            ck.fact(f"{nm}_number_{q}", "Fits._startvaldict, Fits._boundsvaldict, Fits.param_dyn_df", set(c) == {len(grp[q])}, f"{q}: numbers {c} instead of {len(grp[q])}")
        for ij in np.ndindex(*shape):
            k = int(at[ij])
            if k < 0:
                continue
            pad = bool(out["mask"][ij])
            for q, v in out["assigned"].items():
                g = next(g for g, o in enumerate(grp[q]) if k in o)
                if not pad:
                    ck.eq(f"{nm}_{q}_obs{k}", WA, v[ij], var(f"v{q}_{g}"), hyp)
            if not pad:
                pairs = [(out["inc"][ij], var(f"inc{k}")), (out["w"][ij], var(f"w{k}"))] + [(v[ij], var(f"aux_{q}_{k}")) for q, v in out["fixed"].items()]
                bad = [(str(a), str(z)) for a, z in pairs if tosym(a) is not tosym(z)]
                ck.fact(f"{nm}_aligned_{k}", WD, not bad, f"observation {k}: {bad}")


# --------------------------------------------------------------- bounded stand-in
def part(l):
    g = {}
    for i, x in enumerate(l):
        g.setdefault(x, []).append(i)
    return list(g.values())


FREQ = [None, "D", "2D", "3D", "5D", "W", "M", "Y", "12H", "6H", "h", "index", 1, 2, 3, 7, "2", "40", "manual", "D + manual", "manual + M", "2 + manual", "manual+3", "index"]


def manual(rng, n, kind):
    m = int(rng.integers(1, 5))
    lab = rng.integers(0, m, n)
    pool = dict(int=list(rng.choice(2000, m, replace=False)), float=list(np.round(rng.uniform(-3, 3, m), 3)), str=[f"{'xyzab'[i]}{i}" for i in range(m)],
                neg=list(-np.arange(m) + 1), big=[1577836800000000000 + int(i) for i in range(m)], bool=[bool(i % 2) for i in range(m)])[kind]
    return [pool[i] for i in lab]


def index(rng):
    n = int(rng.integers(1, 16))
    kind = rng.integers(4)
    if kind == 0:
        return idx(*[int(x) for x in rng.integers(1, 4, max(1, n // 2))])
    if kind == 1:
        t = pd.Timestamp("2019-12-28") + pd.to_timedelta(np.sort(rng.integers(0, 60 * 24 * 20, n)), unit="min")
        return pd.DatetimeIndex(t)
    if kind == 2:
        t = pd.Timestamp("2019-11-20 13:00") + pd.to_timedelta(np.sort(rng.integers(0, 400, n)), unit="D")
        return pd.DatetimeIndex(t)
    return idx(*[1] * n, freq="6h")


def battery(ck):
    from rt1.rtfits import Fits

    rng = ck.nprng
    reps = 150 if not ck.thorough() else 2500

    def make():
        ix = index(rng)
        n = len(ix)
        keys = list(rng.permutation(["omega", "tau", "NormBRDF", "bsf"]))[: int(rng.integers(1, 5))]
        dd, cols = {}, {}
        for q in ("omega", "tau", "NormBRDF", "bsf"):
            if q not in keys:
                dd[q] = [False, .3]
        for q in keys:
            f = FREQ[int(rng.integers(len(FREQ)))]
            aux = rng.integers(4) == 0
            dd[q] = [True, "auxiliary" if aux else .3, f, ([.01], [.9])]
            if "manual" in str(f):
                cols[f"{q}_dyn"] = manual(rng, n, ["int", "float", "str", "neg", "big", "bool"][int(rng.integers(6))])
            if aux:
                cols[f"{q}_start"] = rng.uniform(.1, .5, n)
        dd = {q: dd[q] for q in rng.permutation(list(dd))}
        ds = pd.DataFrame(dict(sig=np.arange(n) + .5, inc=rng.uniform(.3, .9, n), **cols), index=ix)
        return dd, ds

    def cases():
        for _ in range(reps):
            dd, ds = make()
            grp = fit_groups(dd, ds)
            n = len(ds)

            def thunk(dd=dd, ds=ds, grp=grp):
                f = Fits(sig0=False, dB=False, dataset=ds.copy(), defdict=copy.deepcopy(dd), set_V_SRF=vs0, int_Q=False, verbose=0)
                v = {q: 100. * i + np.arange(len(g)) for i, (q, g) in enumerate(grp.items())}
                f.res_dict = {q: list(x) for q, x in v.items()}
                with np.errstate(all="ignore"):
                    return dict(labels={q: part([str(x) for x in l]) for q, l in f.param_dyn_dict.items()}, cells=sorted(part(list(f._groupindex))), data=np.array(f.data), mask=np.array(f.mask),
                                assigned=f._assignvals(v), start={q: list(x) for q, x in f._startvaldict.items()}, bounds={q: (list(x[0]), list(x[1])) for q, x in f._boundsvaldict.items()},
                                res_df=f.res_df, group_df=f.res_df_group, mean={q: list(m) for q, m in f.meandatetimes.items()})

            def want(got, dd=dd, ds=ds, grp=grp, n=n):
                if got["labels"] != {q: g for q, g in grp.items()} or got["cells"] != sorted(combined(grp, n)):
                    return False
                obs = (got["data"] - .5).round().astype(int)
                if sorted(obs[~got["mask"]]) != list(range(n)):
                    return False
                at = {q: {k: g for g, o in enumerate(v) for k in o} for q, v in grp.items()}
                for i, q in enumerate(grp):
                    if len(got["start"][q]) != len(grp[q]) or any(len(x) != len(grp[q]) for x in got["bounds"][q]):
                        return False
                    s = [.3] * len(grp[q]) if dd[q][1] != "auxiliary" else [ds[f"{q}_start"].values[o].mean() for o in grp[q]]
                    if not np.allclose(s, got["start"][q], rtol=1e-9):
                        return False
                    a = got["assigned"][q]
                    if a.shape != got["data"].shape or any(a[ij] != 100 * i + at[q][obs[ij]] for ij in zip(*np.where(~got["mask"]))):
                        return False
                    # the value of a date is the one of an observation at that date
                    for t, x in got["res_df"][q].items():
                        if not any(x == 100 * i + at[q][k] for k in range(n) if ds.index[k] == t):
                            return False
                    ns = ds.index.values.astype("datetime64[ns]").astype(np.int64).astype(float)
                    md = np.array(got["mean"][q]).astype("datetime64[ns]").astype(np.int64).astype(float)
                    if len(md) != len(grp[q]) or np.abs(md - [ns[o].mean() for o in grp[q]]).max() > 1e4:
                        return False
                    cl = combined(grp, n)
                    if len(got["group_df"]) != len(cl) or any(got["group_df"][q].values[j] != 100 * i + at[q][o[0]] for j, o in enumerate(cl)):
                        return False
                return set(got["res_df"].index) == set(ds.index) and len(got["res_df"]) == ds.index.nunique()
            yield dict(defdict=dd, index=[str(t) for t in ds.index], manual={c: list(ds[c]) for c in ds if c.endswith("_dyn")}), thunk, want
    ck.battery("random groupings", WG + ", " + WA + ", Fits.res_df, Fits.res_df_group, Fits.meandatetimes", cases(), bound=f"{reps} random datasets of up to 45 observations, all kinds of variability")

    # ---- the documented sizes of groups with N dates
    def ints():
        for n in range(1, 25 if not ck.thorough() else 80):
            for N in range(1, 12 if not ck.thorough() else 40):
                def thunk(n=n, N=N):
                    f = Fits(sig0=False, dB=False, dataset=pd.DataFrame(dict(sig=.1, inc=.3), index=idx(*[1] * n)), defdict={"omega": [True, .3, N, b()], "tau": [False, .3], "NormBRDF": [False, .3]},
                             set_V_SRF=vs0, int_Q=False, verbose=0)
                    return list(f.param_dyn_dict["omega"])

                def want(l, n=n, N=N):
                    s = [len(g) for g in part(l)]
                    return len(l) == n and len(s) == max(1, n // N) and sum(s) == n and max(s) - min(s) <= 1 and (n < N or min(s) >= N) and l == sorted(l)
                yield dict(dates=n, per_group=N), thunk, want
    ck.battery("groups of N dates", "Fits.param_dyn_dict", ints(), bound="all n, N up to 24/11 (thorough 79/39)")

    def many():
        for last in (3, 9, 10):
            n = 1000
            keys = ["omega", "tau", "NormBRDF"] + [f"p{i}" for i in range(4)]
            cols = {f"{q}_dyn": np.arange(n) if i else np.arange(n) % last for i, q in enumerate(keys)}
            ds = pd.DataFrame(dict(sig=np.arange(n) + .5, inc=.5, **cols), index=idx(*[1] * n))

            def thunk(ds=ds, keys=keys):
                f = Fits(sig0=False, dB=False, dataset=ds, defdict={q: [True, .3, "manual", b()] for q in keys}, set_V_SRF=vs0, int_Q=False, verbose=0)
                return len(f.param_dyn_df), f._N_groups, f.data.shape
            yield dict(parameters=7, groups=n, first=last), thunk, (n, n, (n, 1))
    ck.battery("many groups", "Fits._groupindex", many(), bound="seven parameters with 1000 values each")

    # ---- invalid variabilities are rejected
    def bad():
        d = pd.DataFrame(dict(sig=.1, inc=.3), index=idx(2, 2))
        mk = lambda f, ds=d: Fits(sig0=False, dB=False, dataset=ds, defdict={"omega": [True, .3, f, b()], "tau": [False, .3], "NormBRDF": [False, .3]}, set_V_SRF=vs0, int_Q=False, verbose=0).param_dyn_dict
        for f in ("manual", "D + manual"):
            yield dict(freq=f, what="no manual column"), (lambda f=f: mk(f)), AssertionError
        for f in ("D + 2D", "D + D + manual"):
            yield dict(freq=f), (lambda f=f: mk(f)), AssertionError
        yield dict(freq="not a frequency"), (lambda: mk("notafrequency")), ValueError
    ck.battery("invalid variability", "Fits._timescaledict, Fits._manual_dyn_df", bad(), bound="five definitions")
