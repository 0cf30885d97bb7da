"""C11  performance metrics follow their definitions for all series

A pair of series of arbitrary length is represented by its generic entry (x, y):
element-wise operations act on the entry, a reduction is a linear functional over
monomials, so `mean` returns a polynomial in the moments m_ab = mean(x^a y^b).  Two
polynomials in the moments agree for all series of all lengths iff they are equal,
which Lean decides.  pandas (std, corr) and scipy (linregress) enter by contract."""
import operator
import itertools

import numpy as np

from ..model import *
from ..opaque import Token
from ..term import Sym, Unsupported, const, fn, var

N = var("n")                                       # length


def moment(a, b):
    return const(1) if a == b == 0 else var(f"m{a}{b}")


def _sym(v):
    if isinstance(v, (bool,)) or not isinstance(v, (int, float, Sym, np.integer, np.floating)):
        raise Unsupported(f"{v!r} in arithmetic with a series")
    return v if isinstance(v, Sym) else const(int(v) if float(v) == int(v) else v)


UFUNCS = {"absolute": abs, "fabs": abs, "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": operator.truediv, "divide": operator.truediv,
          "negative": operator.neg, "square": lambda x: x * x, "power": operator.pow, "float_power": operator.pow}


def _ufunc(self, ufunc, method, *args, **kw):
    """numpy functions act element-wise on a series"""
    if method != "__call__" or kw or ufunc.__name__ not in UFUNCS:
        raise Unsupported(f"numpy.{ufunc.__name__} of a series")
    return UFUNCS[ufunc.__name__](*args)


class Gen:
    """series with the generic entry p(x, y), a polynomial with constant coefficients"""

    def __init__(self, p):
        self.p = p

    def _op(self, o, f):
        if isinstance(o, Quot):
            return NotImplemented
        q = o.p if isinstance(o, Gen) else {(0, 0): _sym(o)}
        out = {}
        for k in sorted(set(self.p) | set(q)):
            out[k] = f(self.p.get(k, const(0)), q.get(k, const(0)))
        return Gen(out)

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        if not isinstance(o, Gen):
            c = _sym(o)
            return Gen({k: c * v for k, v in self.p.items()})
        out = {}
        for (a, b), u in self.p.items():
            for (c, d), v in o.p.items():
                k = (a + c, b + d)
                out[k] = out[k] + u * v if k in out else u * v
        return Gen(out)
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __pow__(self, n):
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, int) or not 1 <= n <= 6:
            raise Unsupported(f"power {n!r} of a series")
        out = self
        for _ in range(n - 1):
            out = out * self
        return out

    def __truediv__(self, o):
        return self * (const(1) / _sym(o)) if not isinstance(o, Gen) else Quot(self, o)

    def __abs__(self):
        return Quot(self, Gen({(0, 0): const(1)}), True)

    add = lambda s, o: s + o
    sub = subtract = lambda s, o: s - o
    mul = multiply = lambda s, o: s * o
    div = divide = truediv = lambda s, o: s / o
    pow = lambda s, n: s ** n
    abs = __abs__

    def mean(self, *a, **k):
        if any(x is not None for x in a) or any(v is not None for v in k.values()):
            raise Unsupported("arguments of mean")
        out = const(0)
        for (a, b), c in self.p.items():
            out = out + c * moment(a, b)
        return out

    def sum(self):
        return self.mean() * N

    def var(self, ddof=1):
        v = (self ** 2).mean() - self.mean() * self.mean()
        return v if ddof == 0 else v * N / (N - _sym(ddof))

    def std(self, ddof=1):
        return np.sqrt(self.var(ddof=ddof))

    def cov(self, o, ddof=1):
        return ((self * o).mean() - self.mean() * o.mean()) * N / (N - _sym(ddof))

    def corr(self, o, method="pearson"):
        if self is D1 and o is D2:
            return var(f"corr_{method}")
        if self is D2 and o is D1:                 # symmetric by contract
            return var(f"corr_{method}")
        raise Unsupported("correlation of other series")

    def __len__(self):
        raise Unsupported("concrete length")

    def __iter__(self):
        raise Unsupported("iteration over an arbitrary series")

    def __getattr__(self, n):
        raise Unsupported(f"Series.{n}")

    __array_ufunc__ = _ufunc


class Quot:
    """(num / den) of two entries, possibly of its absolute value: only means of it are used"""

    def __init__(self, num, den, absolute=False):
        self.num, self.den, self.a = num, den, absolute

    def __abs__(self):
        return Quot(self.num, self.den, True)
    abs = __abs__

    def _div(self, o):
        if isinstance(o, Gen):
            if self.a:
                raise Unsupported("quotient of mixed signs")
            return Quot(self.num, self.den * o)
        if isinstance(o, Quot) and self.a and o.a:
            return Quot(self.num * o.den, self.den * o.num, True)
        raise Unsupported("quotient")
    __truediv__ = div = divide = truediv = _div

    def __mul__(self, c):
        return Scaled(self, _sym(c))
    __rmul__ = __mul__

    def mean(self):
        return Mean(self)

    def __getattr__(self, n):
        raise Unsupported(f"Series.{n}")
    __array_ufunc__ = _ufunc


class Scaled:
    def __init__(self, q, c):
        self.q, self.c = q, c

    def mean(self):
        return Mean(self.q, self.c)

    def __getattr__(self, n):
        raise Unsupported(f"Series.{n}")


class Mean:
    """c * mean(|num / den|)"""

    def __init__(self, q, c=None):
        self.q, self.c = q, const(1) if c is None else c

    def __mul__(self, o):
        return Mean(self.q, self.c * _sym(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Mean(self.q, self.c / _sym(o))

    def __getattr__(self, n):
        raise Unsupported(f"value.{n}")


D1, D2 = Gen({(1, 0): const(1)}), Gen({(0, 1): const(1)})


class Stats:
    @staticmethod
    def linregress(x, y, *a, **k):
        if a or k or not (isinstance(x, Gen) and isinstance(y, Gen)):
            raise Unsupported("arguments of linregress")
        vx = (x * x).mean() - x.mean() * x.mean()
        slope = ((x * y).mean() - x.mean() * y.mean()) / vx
        icpt = y.mean() - slope * x.mean()

        class R:
            def _asdict(self):
                return dict(slope=slope, intercept=icpt, rvalue=Token("rvalue"), pvalue=Token("pvalue"), stderr=Token("stderr"))
        R.slope, R.intercept = slope, icpt
        return R()

    def __getattr__(self, n):
        raise Unsupported(f"scipy.stats.{n}")


def definitions(ck):
    from rt1 import rtmetrics
    from rt1.rtmetrics import RTmetrics as R
    m10, m01, m20, m02, m11 = moment(1, 0), moment(0, 1), moment(2, 0), moment(0, 2), moment(1, 1)
    msd = m20 - const(2) * m11 + m02
    # a moment matrix is positive semidefinite; lengths are >= 2, no series is constant
    v1, v2 = m20 - m10 * m10, m02 - m01 * m01
    hyp = [("nonneg", msd), ("nonneg", msd - (m10 - m01) * (m10 - m01)), ("pos", v1), ("pos", v2), ("pos", N - const(1)), ("pos", N)]
    hyp = hyp + [("ne", v1), ("ne", v2), ("ne", N - const(1))]
    dom = dict(m10=(-.5, .5), m01=(-.5, .5), m20=(1, 2), m02=(1, 2), m11=(-.3, .3), n=(2, 9))
    keep = rtmetrics.stats
    W = lambda f: f"RTmetrics.{f}"

    def go(f, a=D1, b=D2):
        rtmetrics.stats = Stats()
        try:
            return getattr(R, f)(a, b)
        finally:
            rtmetrics.stats = keep
    sq = lambda x: np.sqrt(x)
    for f, want in [("rmsd", sq(msd)), ("ub_rmsd", sq(msd - (m10 - m01) * (m10 - m01))), ("bias", m10 - m01), ("pearson", var("corr_pearson")), ("spearman", var("corr_spearman"))]:
        for hy, r, _ in ck.run(f, W(f), lambda: go(f)) or []:
            if not isinstance(r, Sym):
                ck.undecided(f, W(f), f"{type(r).__name__} returned")
                continue
            ck.eq(f, W(f), r, want, list(hy) + hyp, dom=dom)
    s1, s2 = (m20 - m10 * m10) * N / (N - const(1)), (m02 - m01 * m01) * N / (N - const(1))
    for hy, r, _ in ck.run("std_ratio", W("std_ratio"), lambda: go("std_ratio")) or []:
        ck.eq("std_ratio", W("std_ratio"), r, np.sqrt(s1) / np.sqrt(s2), list(hy) + hyp, dom=dom)
    # relation of the errors, and symmetry
    for hy, r, _ in ck.run("relation", W("rmsd"), lambda: (go("rmsd"), go("ub_rmsd"), go("bias"))) or []:
        if all(isinstance(q, Sym) for q in r):
            ck.eq("rmsd2_is_ub_rmsd2_plus_bias2", W("rmsd"), r[0] * r[0], r[1] * r[1] + r[2] * r[2], list(hy) + hyp, dom=dom)
    for f in ("rmsd", "ub_rmsd", "pearson", "spearman"):
        for hy, r, _ in ck.run(f + "_symmetric", W(f), lambda: (go(f), go(f, D2, D1))) or []:
            if all(isinstance(q, Sym) for q in r):
                ck.eq(f + "_symmetric", W(f), r[1], r[0], list(hy) + hyp, dom=dom)
    for hy, r, _ in ck.run("bias_antisymmetric", W("bias"), lambda: (go("bias"), go("bias", D2, D1))) or []:
        ck.eq("bias_antisymmetric", W("bias"), r[1], const(0) - r[0], list(hy) + hyp, dom=dom)
    for hy, r, _ in ck.run("linregress", W("linregress"), lambda: go("linregress")) or []:
        slope = (m11 - m10 * m01) / (m20 - m10 * m10)
        if not isinstance(r, dict) or "slope" not in r or "intercept" not in r:
            ck.undecided("linregress", W("linregress"), "no dictionary")
            continue
        ck.eq("slope", W("linregress"), r["slope"], slope, list(hy) + hyp, dom=dom)
        ck.eq("intercept", W("linregress"), r["intercept"], m01 - slope * m10, list(hy) + hyp, dom=dom)
        ck.fact("linregress_others", W("linregress"), all(isinstance(r.get(k), Token) and r[k].name == k for k in ("rvalue", "pvalue", "stderr")), f"{r}")
    # absolute deviations: |num / den| with (num, den) equal up to a common factor and sign
    for f, num, den in [("mae", D1 - D2, Gen({(0, 0): const(1)})), ("mape", D1 - D2, D1)]:
        for hy, r, _ in ck.run(f, W(f), lambda: go(f)) or []:
            if not isinstance(r, Mean) or not r.q.a:
                if isinstance(r, Mean):
                    ck.fact(f + "_absolute", W(f), False, "the mean of the signed values is returned")
                else:
                    ck.undecided(f, W(f), f"{type(r).__name__} returned")
                continue
            ck.eq(f + "_factor", W(f), r.c, const(1), list(hy))
            x, y = var("x"), var("y")
            ev = lambda g: sum((c * x ** a * y ** b for (a, b), c in g.p.items()), const(0))
            A, B = ev(r.q.num) * ev(den), ev(num) * ev(r.q.den)
            ck.eq(f + "_entries", W(f), A * A, B * B, list(hy))
    for hy, r, _ in ck.run("mae_symmetric", W("mae"), lambda: (go("mae"), go("mae", D2, D1))) or []:
        if all(isinstance(q, Mean) for q in r):
            x, y = var("x"), var("y")
            ev = lambda g: sum((c * x ** a * y ** b for (a, b), c in g.p.items()), const(0))
            A, B = ev(r[0].q.num) * ev(r[1].q.den), ev(r[1].q.num) * ev(r[0].q.den)
            ck.eq("mae_symmetric", W("mae"), A * A, B * B, list(hy))
    # all metrics at once
    for hy, r, _ in ck.run("allmetrics", "RTmetrics.allmetrics", lambda: (go("allmetrics"), {f: go(f) for f in R.metrics_registry})) or []:
        a, b = r
        ck.fact("allmetrics_keys", "RTmetrics.allmetrics", set(a) == set(b) == {"pearson", "spearman", "linregress", "rmsd", "ub_rmsd", "bias", "mae", "mape", "std_ratio"}, f"{list(a)}")
        for f in a:
            if isinstance(a[f], Sym):
                ck.eq("allmetrics_" + f, "RTmetrics.allmetrics", a[f], b[f], list(hy) + hyp, dom=dom)


def textbook(x, y):
    x, y = np.asarray(x, float), np.asarray(y, float)
    n = len(x)
    mx, my = x.sum() / n, y.sum() / n
    sxx, syy, sxy = ((x - mx) ** 2).sum(), ((y - my) ** 2).sum(), ((x - mx) * (y - my)).sum()

    def rank(v):
        o = np.sort(v)
        return np.array([(np.searchsorted(o, q, "left") + np.searchsorted(o, q, "right") + 1) / 2 for q in v])
    rx, ry = rank(x), rank(y)
    r = lambda a, b: ((a - a.mean()) * (b - b.mean())).sum() / np.sqrt(((a - a.mean()) ** 2).sum() * ((b - b.mean()) ** 2).sum())
    return dict(pearson=sxy / np.sqrt(sxx * syy), spearman=r(rx, ry), rmsd=np.sqrt(((x - y) ** 2).sum() / n), ub_rmsd=np.sqrt(((x - mx - y + my) ** 2).sum() / n), bias=mx - my,
                mae=np.abs(x - y).sum() / n, mape=np.abs((x - y) / x).sum() / n, std_ratio=np.sqrt(sxx / syy), slope=sxy / sxx, intercept=my - sxy / sxx * mx, rvalue=sxy / np.sqrt(sxx * syy),
                stderr=np.sqrt(max(0., (1 - sxy ** 2 / (sxx * syy))) * syy / sxx / (n - 2)) if n > 2 else 0.)


def check(x, y, got):
    t = textbook(x, y)
    lr = got.pop("linregress")
    for k in got:
        assert np.isclose(got[k], t[k], rtol=1e-7, atol=1e-9 * (1 + np.abs(np.asarray(y, float)).max())), f"{k}: {got[k]} instead of {t[k]} for {list(x)[:6]} and {list(y)[:6]}"
    for k in ("slope", "intercept", "rvalue", "stderr"):
        assert np.isclose(lr[k], t[k], rtol=1e-6, atol=1e-7 * (1 + np.abs(np.asarray(y, float)).max())), f"{k}: {lr[k]} instead of {t[k]} for {list(x)[:6]} and {list(y)[:6]}"
    return True


def values(ck):
    import pandas as pd
    from rt1.rtmetrics import RTmetrics as R
    reg = list(R.metrics_registry)

    def cases():
        rng = ck.nprng
        for k in range(1500 if ck.thorough() else 300):
            n = int(rng.integers(2, 40)) if k % 5 else 2 + k % 4
            sc = 10. ** rng.uniform(-3, 3)
            x, y = rng.normal(size=n) * sc + rng.choice([0, 5.]), rng.normal(size=n) * sc * rng.uniform(.1, 3)
            if k % 4 == 1:
                y = 2 * x + rng.normal(size=n) * .1 * sc
            if k % 7 == 2:
                x, y = np.round(x, 1) + 7, np.round(y, 1)                     # ties
            if k % 9 == 3:
                y = -x
            if len(set(x)) < 2 or len(set(y)) < 2 or np.any(x == 0):
                continue
            idx = [None, pd.date_range("2020-01-01", periods=n), pd.Index(rng.permutation(n)), pd.DatetimeIndex(np.repeat(pd.date_range("2020", periods=n), 2)[:n])][k % 4]
            d1, d2 = pd.Series(x, idx), pd.Series(y, idx)

            def go(d1=d1, d2=d2, x=x, y=y):
                a, b = d1.copy(), d2.copy()
                got = {f: getattr(R, f)(d1, d2) for f in reg}
                assert d1.equals(a) and d2.equals(b), "the series have been changed"
                check(x, y, dict(got))
                check(x, y, dict(R.allmetrics(d1, d2)))
                sym = {f: getattr(R, f)(d2, d1) for f in ("rmsd", "ub_rmsd", "mae", "pearson", "spearman")}
                assert all(np.isclose(sym[f], got[f]) for f in sym), "not symmetric"
                return np.isclose(got["rmsd"] ** 2, got["ub_rmsd"] ** 2 + got["bias"] ** 2)
            yield f"metrics of {n} values {x[:4].tolist()}, {y[:4].tolist()}", go, True
    ck.battery("values", "RTmetrics", cases(), bound="series of up to 40 values")

    def tables():
        import contextlib
        import io
        import re
        rng = ck.nprng
        for sc in (1., 1e-2, 1e4, 1e7):
            d1, d2 = (pd.Series(rng.uniform(1, 3, 9) * sc) for _ in range(2))

            def go(d1=d1, d2=d2):
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    R.metrics_table(d1, d2)
                rows = [re.fullmatch(r"[\s|-]*(\w+)[\s|]+([-+]?\d[-+0-9.eE]*)[\s|]*", l) for l in out.getvalue().splitlines()]
                rows = [(m[1], float(m[2])) for m in rows if m]
                want = {}
                for k, v in R.allmetrics(d1, d2).items():
                    want.update(v if isinstance(v, dict) else {k: v})
                assert sorted(r[0] for r in rows) == sorted(want), f"rows {rows}"
                for k, v in rows:
                    assert abs(v - want[k]) <= 1e-6 * max(1, abs(v)), f"{k}: {v} instead of {want[k]}"
                return True
            yield f"the table of the metrics of values around {sc}", go, True
    ck.battery("table", "RTmetrics.metrics_table", tables(), bound="4 pairs of series")


class Fit:
    """what the metric objects use of a fit"""

    def __init__(self, ds, res, model, int_Q=True):
        self.dataset, self.res_df, self.model, self.int_Q = ds, res, model, int_Q
        self.res_dict = {k: None for k in res.columns}

    def calc_model(self, return_components=True):
        return self.model if return_components else self.model[["tot"]]


def objects(ck):
    import pandas as pd
    from rt1 import rtmetrics
    from rt1.rtmetrics import RTmetrics as R, _metric_keys
    W = "_RTmetrics1._unify_idx_data"

    def tokens(p, n):
        a = np.empty(n, dtype=object)
        a[:] = [Token(f"{p}{i}") for i in range(n)]
        return a

    def pairs_of(a, b):
        """common timestamps with the available entries of the two series, in the order of the first"""
        return [(x, y) for x, y in all_pairs(a, b) if pd.notna(x) and pd.notna(y)]

    def all_pairs(a, b):
        if list(a.index) == list(b.index):
            return list(zip(a, b))
        if b.index.is_unique:
            m = dict(zip(b.index, b))
            return [(v, m[i]) for i, v in zip(a.index, a) if i in m]
        m = dict(zip(a.index, a))
        return [(m[i], v) for i, v in zip(b.index, b) if i in m]

    days = pd.date_range("2020-01-01", periods=6)

    class Log:
        def __getattr__(self, n):
            return lambda *a, **k: None
    pats = [(0, 1, 2), (2, 1, 0), (1, 2, 3), (0, 2), (0, 0, 1, 1, 2), (0, 1, 1), (3, 0, 1, 2), (1,), (0, 1, 2, 3, 4), (4, 5)]
    METRICS = ["pearson", "spearman", "linregress", "rmsd", "ub_rmsd", "bias", "mae", "mape", "std_ratio", "allmetrics"]
    for pa, pb in itertools.product(pats, repeat=2):
        ia, ib = days[list(pa)], days[list(pb)]
        if list(pa) != list(pb) and not ia.is_unique and not ib.is_unique:
            continue
        nm = f"align_{''.join(map(str, pa))}_{''.join(map(str, pb))}"
        A, B = pd.Series(tokens("a", len(pa)), ia, name="same"), pd.Series(tokens("b", len(pb)), ib, name="same")

        def go():
            o = object.__new__(rtmetrics._RTmetrics1)
            ds = pd.DataFrame({"same": A, "num": np.arange(len(A), dtype=float)})
            f = Fit(ds, pd.DataFrame({"same": B}), None)
            o.__init__("same__dataset", "same__res_df", f, None, {"same__dataset": "dataset", "same__res_df": "res_df"})
            seen, keep, klog = {}, {m: R.__dict__[m] for m in METRICS}, rtmetrics.log
            rtmetrics.log = Log()
            try:
                for m in METRICS:
                    setattr(R, m, staticmethod(lambda d1, d2, m=m: seen.__setitem__(m, (d1, d2)) or Token(m)))
                ret = {m: getattr(o, m) for m in METRICS}
            finally:
                rtmetrics.log = klog
                for m in METRICS:
                    setattr(R, m, keep[m])
            return seen, ret
        for _, (seen, ret), _ in ck.run(nm, W, go) or []:
            want = pairs_of(A, B)
            for m in METRICS:
                g = seen.get(m)
                # (the order of the observations is free)
                ok = g is not None and isinstance(ret[m], Token) and ret[m].name == m and sorted((x.name, y.name) for x, y in zip(*g)) == sorted((x.name, y.name) for x, y in want) and len(g[0]) == len(g[1]) and list(g[0].index) == list(g[1].index)
                ck.fact(f"{nm}_{m}", W, ok, f"{m} of {[(x, y) for x, y in zip(*g)] if g else None} instead of {want}")

    # the requested variables, for all pairs of sources
    W = "_metric_keys"

    def cases():
        rng = ck.nprng
        for k in range(8):
            n = 12
            idx = pd.date_range("2020-01-01", periods=n) if k % 2 else pd.DatetimeIndex(np.repeat(pd.date_range("2020-01-01", periods=n // 2), 2))
            cols = ["sig", "inc", "omega"] if k % 3 else ["sig", "aux"]
            ds = pd.DataFrame({c: rng.uniform(.1, 1, n) for c in cols}, idx)
            ds["text"] = "a"
            if k > 3:
                ds.iloc[[1, n - 2], 0] = np.nan                               # missing observations
                ds.iloc[[1, 3], -2] = np.nan
            u = idx.unique()
            res = pd.DataFrame({c: rng.uniform(.1, 1, len(u)) for c in ("omega", "tau", "sig")[:2 + k % 2]}, u)
            model = pd.DataFrame({c: rng.uniform(.1, 1, n) for c in ("tot", "surf", "vol", "inter")}, idx)
            f = Fit(ds, res, model, k % 2 == 0)
            srcs = {"dataset": ds.drop(columns="text"), "calc_model": model if f.int_Q else model[["tot", "surf", "vol"]], "res_df": res}
            names = [(s, c) for s, d in srcs.items() for c in d]
            full = {(s, c): (c if sum(c == q for _, q in names) == 1 else f"{c}__{s}") for s, c in names}
            for a, b in itertools.permutations(names, 2):
                def go(f=f, a=a, b=b, full=full, srcs=srcs):
                    klog, rtmetrics.log = rtmetrics.log, Log()
                    try:
                        mk = _metric_keys(f)
                        o = getattr(getattr(mk, full[a]), full[b])
                        got = {m: getattr(o, m) for m in R.metrics_registry}
                    finally:
                        rtmetrics.log = klog
                    w = pairs_of(srcs[a[0]][a[1]], srcs[b[0]][b[1]])
                    return check([p[0] for p in w], [p[1] for p in w], got)
                yield f"metric.{full[a]}.{full[b]} (dataset {k})", go, True
            aux = pd.DataFrame({"rain": rng.uniform(1, 2, len(u)), "tot": rng.uniform(1, 2, len(u))}, u)

            def keyed(f=f, aux=aux, srcs=srcs, names=names, full=full):
                klog, rtmetrics.log = rtmetrics.log, Log()
                try:
                    src = {**srcs, "auxdat": aux}
                    nms = names + [("auxdat", c) for c in aux]
                    un = {(s, c): (c if sum(c == q for _, q in nms) == 1 else f"{c}__{s}") for s, c in nms}
                    one = ("auxdat", "rain")
                    for mk, todo in ((_metric_keys(f, d1=un[one], auxdat=aux), [(one, b) for b in nms]),
                                     (_metric_keys(f, d1=un[nms[0]], auxdat=aux), [(nms[0], b) for b in nms]),
                                     (_metric_keys(f, d1=un[nms[0]], d2=un[one], auxdat=aux), [(nms[0], one)]),
                                     (_metric_keys(f, auxdat=aux), list(itertools.permutations(nms, 2))[::3])):
                        for a, b in todo:
                            if a == b:
                                continue
                            o = getattr(getattr(mk, un[a]), un[b])
                            w = pairs_of(src[a[0]][a[1]], src[b[0]][b[1]])
                            check([p[0] for p in w], [p[1] for p in w], {m: getattr(o, m) for m in R.metrics_registry})
                    for bad in (dict(d1="unknown"), dict(d1=full[names[0]], d2="unknown")):
                        try:
                            _metric_keys(f, **bad)
                        except (AssertionError, KeyError, AttributeError):
                            continue
                        raise AssertionError(f"{bad} is not rejected")
                finally:
                    rtmetrics.log = klog
                return True
            yield f"selected and auxiliary variables {k}", keyed, True
            yield f"available variables {k}", (lambda f=f, full=full: (lambda m: sorted(q for q in vars(m) if not q.startswith("_")))(_metric_keys(f))), sorted(full.values())
    ck.battery("variables", W, cases(), bound="8 datasets (also with missing values) with all pairs of variables")

    def real():
        from .. import fitmodels as fm
        import warnings
        rng = np.random.default_rng(5)
        for k in range(2):
            f = fm.simple(rng, int_Q=bool(k))
            klog, rtmetrics.log = rtmetrics.log, Log()
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    f.lsq_kwargs = dict(max_nfev=3)
                    f.performfit()
                    srcs = {"dataset": f.dataset, "calc_model": f.calc_model(return_components=True), "res_df": f.res_df}
                    mk = f.metric
                    for a, sa in mk._all_keys.items():
                        for b, sb in mk._all_keys.items():
                            ka, kb = a.replace(f"__{sa}", ""), b.replace(f"__{sb}", "")
                            A, B = srcs[sa][ka], srcs[sb][kb]
                            if a == b or A.nunique() < 2 or B.nunique() < 2 or np.any(A == 0):
                                continue
                            w = pairs_of(A, B)
                            check([p[0] for p in w], [p[1] for p in w], {m: getattr(getattr(getattr(mk, a), b), m) for m in R.metrics_registry})
            finally:
                rtmetrics.log = klog
        return True
    ck.battery("fit", "Fits.metric", [("metrics of performed fits", real, True)], bound="2 fits")


def main(ck):
    ck.assume("pandas: element-wise arithmetic of series, mean, std (n-1), corr (Pearson, Spearman) follow their documentation; scipy: linregress returns the least-squares line (replaced by these contracts, real in the batteries)")
    ck.assume("the two series are finite, of equal length >= 2 and not constant; mape: no zeros in the first series")
    ck.assume("if both series have repeated timestamps their indexes are the same")
    for part in (definitions, values, objects):
        ck.section(part, ck)
    return "proof"
