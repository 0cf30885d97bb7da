"""C18  time and progress helpers return exact values

`dt_to_hms` is executed on symbolic integers (z3, complete path enumeration: every
duration), `meandatetime` on symbolic instants for enumerated lengths (Lean),
`interpolate_to_index` with scipy's interp1d replaced by its contract
(f(x_k) = y_k, values are only moved), `update_progress` by enumeration."""
import datetime as dtm
import itertools
import re
from fractions import Fraction

import numpy as np

from .. import zsym
from ..model import *
from ..opaque import Token
from ..term import Unsupported, const, var


class Duration:
    """an arbitrary normalised timedelta"""

    def __init__(self, days, seconds):
        self._d, self._s = days, seconds

    days = property(lambda s: zsym.ZInt(s._d))
    seconds = property(lambda s: zsym.ZInt(s._s))

    def __getattr__(self, n):
        raise Unsupported(f"timedelta.{n}")


def durations(ck):
    import z3
    from rt1 import general_functions as gf
    W = "general_functions.dt_to_hms"
    D, S = z3.Int("days"), z3.Int("seconds")
    pre = [S >= 0, S < 86400]

    def e(x):
        return zsym._e(int(x) if isinstance(x, np.integer) else x)
    try:
        ps = zsym.paths(lambda: gf.dt_to_hms(Duration(D, S)), pre)
        for i, (pc, r, _) in enumerate(ps):
            d, h, m, s = (e(x) for x in r)
            for nm, goal in (("sum", d * 86400 + h * 3600 + m * 60 + s == D * 86400 + S), ("days", d == D), ("hours", z3.And(h >= 0, h < 24)),
                             ("minutes", z3.And(m >= 0, m < 60)), ("seconds", z3.And(s >= 0, s < 60))):
                ck.smt(f"hms_{nm}_{i}", W, zsym.valid(pc, goal))
    except Exception as ex:
        ck.undecided("hms", W, f"{type(ex).__name__}: {ex}")

    def want(td):
        def pred(r):
            d, h, m, s = r
            return (dtm.timedelta(days=int(d), hours=int(h), minutes=int(m), seconds=int(s)) == td - dtm.timedelta(microseconds=td.microseconds)
                    and 0 <= h < 24 and 0 <= m < 60 and 0 <= s < 60 and all(x == int(x) for x in r))
        return pred

    def cases():
        rng = ck.rng
        secs = [0, 1, 59, 60, 61, 3599, 3600, 3601, 3660, 7199, 7200, 86399] + [rng.randrange(86400) for _ in range(40000 if ck.thorough() else 4000)]
        for k, s in enumerate(secs):
            td = dtm.timedelta(days=(0, 1, 2, 400, 99999)[k % 5], seconds=s, microseconds=(0, 1, 999999)[k % 3])
            yield f"dt_to_hms({td!r})", (lambda td=td: gf.dt_to_hms(td)), want(td)
            if k % 50 == 0:
                import pandas as pd
                pt = pd.Timedelta(td)
                yield f"dt_to_hms({pt!r})", (lambda pt=pt: gf.dt_to_hms(pt)), want(td)
        for x in (0.2, 59.9999, 61.5, 86399.99, 86400., 3.1e7):
            td = dtm.timedelta(seconds=x)
            yield f"dt_to_hms({td!r})", (lambda td=td: gf.dt_to_hms(td)), want(td)
    ck.battery("hms_values", W, cases(), bound="boundaries and random durations")


def means(ck):
    from rt1.general_functions import meandatetime
    import pandas as pd
    W = "general_functions.meandatetime"
    for n in range(1, 17 if ck.thorough() else 13):
        xs = [var(f"t{i}") for i in range(n)]
        want = sum(xs[1:], xs[0]) / const(n)
        for kind in ("list", "tuple", "iterator"):
            src = {"list": lambda: list(xs), "tuple": lambda: tuple(xs), "iterator": lambda: iter(xs)}[kind]
            for hy, r, _ in ck.run(f"mean_{n}_{kind}", W, lambda: meandatetime(src())) or []:
                ck.eq(f"mean_{n}_{kind}", W, r, want, list(hy))

    def ns(t):
        return int(pd.Timestamp(t).as_unit("ns").value)

    def cases():
        rng = ck.nprng
        for k in range(2000 if ck.thorough() else 400):
            n = int(rng.integers(1, 40)) if k % 4 else 1 + k % 12
            v = pd.Timestamp("1990-01-01").as_unit("ns").value + rng.integers(0, 10 ** 18, n) if k % 3 else 1577836800 * 10 ** 9 + 86400 * 10 ** 9 * rng.integers(0, 9, n)
            v = (v // 1000) * 1000
            if k % 2:
                v = np.sort(v)
            mean = Fraction(int(sum(int(i) for i in v)), n)
            ts = [pd.Timestamp(int(i)) for i in v]
            for kind in ("timestamps", "datetimes", "datetime64", "index", "series", "labelled", "dates") if k % 5 == 0 else ("timestamps", "datetimes"):
                m2 = mean
                if kind == "dates":
                    dd = [t.normalize() for t in ts]
                    m2 = Fraction(sum(ns(t) for t in dd), n)
                src = {"timestamps": lambda: ts, "datetimes": lambda: [t.to_pydatetime() for t in ts], "datetime64": lambda: v.astype("datetime64[ns]"), "index": lambda: pd.DatetimeIndex(ts),
                       "series": lambda: pd.Series(ts), "labelled": lambda: pd.Series(ts, index=[f"a{i}" for i in range(n)]), "dates": lambda: [t.normalize() for t in ts]}[kind]()
                before = list(src)

                def go(src=src, before=before):
                    r = ns(meandatetime(src))
                    assert list(src) == before, "the input has been changed"
                    return r
                # (python datetimes have a resolution of one microsecond)
                yield f"meandatetime of {n} {kind} {[str(t) for t in ts[:4]]}", go, (lambda r, m2=m2, n=n: abs(r - m2) <= 1000 * (n + 1) or (_ for _ in ()).throw(AssertionError(f"{r} ns instead of {float(m2)} ns")))
    ck.battery("mean_values", W, cases(), bound="up to 40 instants of seven kinds, to the resolution of the datetime objects")


def progress(ck):
    from rt1.general_functions import update_progress
    W = "general_functions.update_progress"
    top = 200 if ck.thorough() else 130

    def share(p, m, second, title):
        msg = update_progress(p, m, title=title, progress2=second)
        if p >= m:
            assert "DONE" in msg and "/" not in msg, msg
            return True
        assert "DONE" not in msg, msg
        body = msg[msg.index(title) + len(title):]
        g = re.fullmatch(r"\s*(#*)(-*)\s+(\d+)\s*(?:\[(\d+)\])?\s*/\s*(\d+)\s*", body)
        assert g, f"{msg!r}"
        assert int(g[3]) == p and int(g[5]) == m and (g[4] is None if second is None else int(g[4]) == second), f"{msg!r}"
        L = len(g[1]) + len(g[2])
        assert L > 0 and abs(len(g[1]) - Fraction(L * p, m)) <= Fraction(1, 2), f"{msg!r}: {len(g[1])} of {L} parts for {p} of {m}"
        return True

    def cases():
        for m in range(1, top):
            yield f"update_progress(0..{m + 2}, {m})", (lambda m=m: all(share(p, m, None, "working") for p in range(m + 3))), True
        for m in (5, 100):
            yield f"update_progress(.., {m}, progress2)", (lambda m=m: all(share(p, m, q, "~ 0 00:10:00 remaining") for p in range(m + 1) for q in (0, 1, p))), True
        rng = ck.rng
        for _ in range(300):
            m = rng.randrange(1, 10 ** rng.randrange(1, 12))
            p = rng.randrange(0, m + 1)
            yield f"update_progress({p}, {m})", (lambda p=p, m=m: share(p, m, None, "")), True
        yield "the default is a share of 100", lambda: update_progress(25) == update_progress(25, 100) and "25 / 100" in update_progress(25), True
        yield "the final message", lambda: all("all 7 finished" in update_progress(p, 7, finalmsg="all 7 finished") for p in (7, 8)) and "all 7" not in update_progress(6, 7, finalmsg="all 7 finished"), True
    ck.battery("progress", W, cases(), bound=f"all states with up to {top - 1} steps, random states up to 10^11 steps")

    # the messages of a processing run
    def run(tot, ok, mx, queue, elapsed):
        import io
        import sys
        import threading
        from types import SimpleNamespace as NS
        from rt1 import _rtprocess_writer as w
        p = object.__new__(w.RT1_processor)
        p.lock = threading.Lock()
        p.should_stop = p._stop = NS(is_set=lambda: False)
        p.queue, p.out_queue = NS(qsize=lambda: queue, empty=lambda: queue == 0), NS(qsize=lambda: 0)
        p.p_totcnt, p.p_meancnt, p.p_max, p.p_start = NS(value=tot), NS(value=ok), NS(value=mx), 1000.
        keep, out = (w.default_timer, sys.stdout), io.StringIO()
        try:
            w.default_timer, sys.stdout = (lambda: 1000. + elapsed), out
            p.print_progress()
        finally:
            w.default_timer, sys.stdout = keep
        assert not p.lock.locked(), "the lock is not released"
        return out.getvalue()

    def state(tot, ok, mx, queue, elapsed):
        msg = run(tot, ok, mx, queue, elapsed)
        done = tot + queue
        if mx is not None and done >= mx:
            assert f"{mx} [{tot - ok}]" in msg and "finished" in msg, msg
            return True
        g = re.search(r"(\d+) \[(\d+)\] / (\d+)", msg)
        assert g and [int(x) for x in g.groups()] == [done, tot - ok, done + 1 if mx is None else mx], msg
        if ok == 0:
            assert "estimating" in msg, msg
            return True
        t = re.search(r"~ (-?\d+) (\d\d):(\d\d):(\d\d) (for 1000 fits|remaining)", msg)
        assert t and (t[5] == "remaining") == (mx is not None), msg
        d, h, m, s = (int(x) for x in t.groups()[:4])
        want = elapsed / (ok + queue) * (1000 if mx is None else mx - done)
        got = d * 86400 + h * 3600 + m * 60 + s
        assert h < 24 and m < 60 and s < 60 and got - 1e-3 <= want < got + 1 + 1e-3, f"{msg!r}: {want} seconds"
        return True

    def cases2():
        for tot in range(0, 7):
            for ok in range(0, tot + 1):
                for mx in (None, 1, 5, 6, 1000):
                    for queue in (0, 1, 3):
                        for elapsed in (0.5, 61., 7204., 200000.):
                            yield f"{tot} fits ({ok} successful), {queue} queued, max. {mx}, {elapsed} s", (lambda a=(tot, ok, mx, queue, elapsed): state(*a)), True
    def counts(seq):
        import threading
        from types import SimpleNamespace as NS
        from rt1 import _rtprocess_writer as w
        p = object.__new__(w.RT1_processor)
        p.lock, p.p_totcnt, p.p_meancnt = threading.Lock(), NS(value=0), NS(value=0)
        for i, e in enumerate(seq):
            p._increase_cnt(err=e) if e or i % 2 else p._increase_cnt()
            assert not p.lock.locked(), "the lock is not released"
            assert (p.p_totcnt.value, p.p_meancnt.value) == (i + 1, sum(not x for x in seq[:i + 1])), f"{p.p_totcnt.value} fits, {p.p_meancnt.value} successful after {seq[:i + 1]}"
        return True

    ck.battery("counters", "RT1_processor._increase_cnt", ((f"failed: {seq}", (lambda seq=seq: counts(seq)), True) for seq in itertools.product((False, True), repeat=4)), bound="all histories of four fits (one step does not depend on the history)")
    ck.battery("progress_processor", "RT1_processor.print_progress", cases2(), bound="up to 6 finished fits, four elapsed times")


def interp1d_contract(x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
    """what is used of scipy.interpolate.interp1d: the values at the given positions,
    anything (a new token that depends on the position only) elsewhere"""
    x, y = np.asarray(x), np.asarray(y)
    ax = axis % y.ndim
    if y.shape[ax] != len(x):
        raise ValueError("x and y arrays must be equal in length along interpolation axis.")
    vals = np.moveaxis(y, ax, 0)
    known = dict(zip(x.tolist(), range(len(x))))
    new = {}

    def f(q):
        q = np.asarray(q)
        out = np.empty((len(q),) + vals.shape[1:], dtype=object)
        for i, v in enumerate(q.tolist()):
            if v in known:
                out[i] = vals[known[v]]
            else:
                if bounds_error:
                    raise Unsupported("bounds")
                if v not in new:
                    a = np.empty(vals.shape[1:], dtype=object)
                    for j in np.ndindex(*vals.shape[1:]):
                        a[j] = Token(f"new{len(new)}_{j}")
                    new[v] = a if vals.ndim > 1 else a[()]
                out[i] = new[v]
        return np.moveaxis(out, 0, ax)
    return f


def interpolation(ck):
    import pandas as pd
    import scipy.interpolate
    from rt1.general_functions import interpolate_to_index
    W = "general_functions.interpolate_to_index"
    days = pd.date_range("2020-01-01", periods=8, freq="D")
    other = pd.date_range("2019-12-25 06:00", periods=8, freq="3D")

    def tok(n, p="v"):
        a = np.empty(n, dtype=object)
        a[:] = [Token(f"{p}{i}") for i in range(n)]
        return a

    def stubbed(*a, **kw):
        keep = scipy.interpolate.interp1d
        scipy.interpolate.interp1d = interp1d_contract
        try:
            return interpolate_to_index(*a, **kw)
        finally:
            scipy.interpolate.interp1d = keep
    orders = [(0, 1, 2, 3), (2, 0, 3, 1), (0,), (1, 0), (3, 2, 1, 0)]
    for src in orders:
        n = len(src)
        for m in range(0, 4):
            for sel in itertools.product(list(range(n)) + [None], repeat=m):
                idx = days[list(src)]
                q = pd.DatetimeIndex([other[i] if s is None else idx[s] for i, s in enumerate(sel)])
                nm = f"interp_{''.join(map(str, src))}_" + "".join("n" if s is None else str(s) for s in sel)
                v, w = tok(n), tok(n, "w")
                for _, (a, l, c, d), _ in ck.run(nm, W, lambda: (stubbed(pd.Series(v, idx), q), stubbed(list(v), q, idx), stubbed(v, q, data_index=idx), stubbed(pd.DataFrame(dict(a=v, b=w), idx), q))) or []:
                    for r, val in ((a, v), (l, v), (c, v), (d["a"], v), (d["b"], w)):
                        ok = isinstance(r, pd.Series) and len(r) == m and r.index.equals(q) and all(s is None or r.iloc[i] is val[s] for i, s in enumerate(sel))
                        ck.fact(nm, W, ok, f"{list(r)} at {list(r.index)} instead of {[None if s is None else val[s] for s in sel]}")
                    ck.fact(nm + "_columns", W, list(d.columns) == ["a", "b"] and d.shape == (m, 2), f"{d.shape}, columns {list(d.columns)}")

    def cases():
        rng = ck.nprng
        for k in range(600 if ck.thorough() else 120):
            n, m = int(rng.integers(2, 30)), int(rng.integers(1, 30))
            idx = pd.DatetimeIndex(np.datetime64("2020-01-01", "s") + np.sort(rng.choice(10 ** 6, n, replace=False)).astype("timedelta64[s]"))
            perm = rng.permutation(n) if k % 2 else np.arange(n)
            v = rng.normal(size=n)
            sel = rng.integers(-1, n, m)
            new = pd.DatetimeIndex(np.datetime64("2019-12-29", "s") + rng.integers(0, 2 * 10 ** 6, m).astype("timedelta64[s]"))
            q = pd.DatetimeIndex([new[i] if s < 0 else idx[s] for i, s in enumerate(sel)])
            sec = lambda ix: (np.asarray(ix, dtype="datetime64[s]").astype(float) - 1577836800.)
            lin = np.interp(sec(q), sec(idx), v, left=np.nan, right=np.nan)
            src, sv = idx[perm], v[perm]
            for kind, thunk in (("Series", lambda: interpolate_to_index(pd.Series(sv, src), q)), ("array", lambda: interpolate_to_index(sv, q, src)), ("list", lambda: interpolate_to_index(sv.tolist(), q, data_index=src)),
                                ("DataFrame", lambda: interpolate_to_index(pd.DataFrame(dict(a=sv, b=-sv), src), q))):
                def go(thunk=thunk, q=q, sv=sv, src=src):
                    s0, i0 = sv.copy(), src.copy()
                    r = thunk()
                    assert len(r) == len(q) and r.index.equals(q), "another index"
                    assert np.array_equal(s0, sv) and i0.equals(src), "the input has been changed"
                    if isinstance(r, pd.DataFrame):
                        assert list(r.columns) == ["a", "b"] and np.allclose(r["b"], -r["a"], equal_nan=True, atol=1e-12)
                        r = r["a"]
                    return np.asarray(r, float)

                def pred(r, sel=sel, v=v, lin=lin, sec=sec, q=q, idx=idx):
                    at = sel >= 0
                    inside = (sec(q) > sec(idx)[0]) & (sec(q) < sec(idx)[-1])
                    gap = np.min(np.diff(sec(idx))) if len(idx) > 1 else 1.
                    tol = 1e-3 * max(1., 1. / gap) * 10          # julian dates resolve 40 microseconds
                    ends = np.isin(sec(q), sec(idx)[[0, -1]])
                    return (np.allclose(r[at], v[sel[at]], atol=tol) and np.allclose(r[inside], lin[inside], atol=tol) and np.all(np.isnan(r[~inside & ~ends])))
                yield f"interpolate_to_index of {n} values ({kind}) to {m} positions", go, pred
            yield "nearest value", (lambda: np.asarray(interpolate_to_index(pd.Series(sv, src), src, kind="nearest"), float)), sv.copy()
            yield "fill value", (lambda: float(interpolate_to_index(pd.Series(sv, src), pd.DatetimeIndex(["2031-01-01"]), fill_value=-7.5).iloc[0])), -7.5
        yield "a list needs an index", lambda: interpolate_to_index([1., 2.], days[:2]), AssertionError
        yield "the bounds are reported on request", lambda: interpolate_to_index(pd.Series([1., 2.], days[:2]), days, bounds_error=True), ValueError
    ck.battery("interp_values", W, cases(), bound="up to 30 values and positions, seconds resolution")


def main(ck):
    ck.assume("timedelta objects are normalised: 0 <= seconds < 86400 (python documentation)")
    ck.assume("instants and durations form an affine space over the rationals (rounding to the resolution of the datetime objects is not modelled)")
    ck.assume("scipy.interpolate.interp1d returns the given values at the given positions; julian dates of different timestamps differ")
    for part in (durations, means, progress, interpolation):
        ck.opaque_only = part is interpolation
        ck.section(part, ck)
    return "proof"
