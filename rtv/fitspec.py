"""Independent specification of the grouping of a dataset (from the documentation
of Fits.defdict, not from the code): labels of the observations per parameter."""
import numpy as np
import pandas as pd


def labels(freq, index, manual=None):
    """a hashable label per observation; equal labels <=> one common value"""
    idx = pd.DatetimeIndex(index)
    n = len(idx)
    if freq is None:
        return [0] * n
    if freq == "manual":
        return [("m", x) for x in manual]
    if freq == "index":
        return [t for t in idx]
    parts = [p.strip() for p in str(freq).split("+")]
    rest = [p for p in parts if p != "manual"]
    lab = _freq(rest[0], idx)
    if len(rest) < len(parts):
        lab = list(zip(lab, manual))
    return lab


def _freq(f, idx):
    try:
        N = int(f)
    except ValueError:
        pass
    else:
        # N successive observation dates per value; the rest is spread over the
        # first values, and there is at least one value
        days = list(dict.fromkeys(idx))
        k = max(1, len(days) // N)
        extra = len(days) % N if len(days) >= N else 0
        size = [N] * k
        if len(days) < N:
            size = [len(days)]
        for r in range(extra):
            size[r % k] += 1
        of = {}
        pos = 0
        for g, s in enumerate(size):
            for d in days[pos:pos + s]:
                of[d] = g
            pos += s
        return [of[d] for d in idx]
    num, unit = int("".join(c for c in f if c.isdigit()) or 1), "".join(c for c in f if not c.isdigit())
    day0 = idx[0].normalize()
    if unit == "D":
        return [(t - day0).days // num for t in idx]
    if unit in ("H", "h"):
        return [int((t - day0).total_seconds() // 3600) // num for t in idx]
    if unit in ("M", "MS", "ME") and num == 1:
        return [(t.year, t.month) for t in idx]
    if unit in ("Y", "A", "YS", "AS") and num == 1:
        return [t.year for t in idx]
    if unit == "W" and num == 1:
        # weeks end on sunday
        return [(t.normalize() - pd.Timestamp("2018-01-01")).days // 7 for t in idx]
    raise ValueError(f)


def groups(freq, index, manual=None):
    """lists of observation numbers per value, in order of first appearance"""
    g = {}
    for i, l in enumerate(labels(freq, index, manual)):
        g.setdefault(l, []).append(i)
    return list(g.values())


def fit_groups(defdict, dataset):
    out = {}
    for key, d in defdict.items():
        if d[0] is True:
            f = d[2] if len(d) > 2 else None
            man = dataset[f"{key}_dyn"].tolist() if f is not None and "manual" in str(f) else None
            out[key] = groups(f, dataset.index, man)
    return out
