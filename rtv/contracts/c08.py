"""C08  sequence helpers neither lose, duplicate nor reorder data

Elements are opaque objects, so that an accepted obligation holds for all values;
lengths and key patterns are enumerated.  The chunk functions are executed on
sequences of symbolic length with an arbitrary chunk number (z3), `scale` on
symbolic values (Lean)."""
import itertools
from collections import OrderedDict
from fractions import Fraction

import numpy as np

from .. import zsym
from ..model import *
from ..term import Unsupported, const, var


class Item:
    """an arbitrary element: no operation besides identity"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<{self.n}>"


def items(n, p="x"):
    return [Item(f"{p}{i}") for i in range(n)]


def ident(a, b):
    """the same elements in the same order"""
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def growth(n):
    """all patterns of n keys (restricted growth strings)"""
    def go(p):
        if len(p) == n:
            yield p
            return
        for k in range(max(p, default=-1) + 2):
            yield from go(p + (k,))
    yield from go(())


def grouping(ck):
    from rt1.general_functions import groupby_unsorted
    W = "general_functions.groupby_unsorted"
    nmax = 8 if ck.thorough() else 7
    for n in range(nmax + 1):
        for pat in growth(n):
            nm = f"group_{''.join(map(str, pat)) or 'empty'}"
            xs, keys = items(n), items(max(pat, default=-1) + 1, "k")
            pos = {id(x): i for i, x in enumerate(xs)}
            got = items(n, "g")

            def go():
                src = list(xs)
                a = groupby_unsorted(iter(src), key=lambda x: keys[pat[pos[id(x)]]])
                b = groupby_unsorted(src, key=lambda x: keys[pat[pos[id(x)]]], get=lambda x: got[pos[id(x)]])
                c = groupby_unsorted([keys[p] for p in pat])
                return a, b, c, src
            for _, (a, b, c, src), _ in ck.run(nm, W, go) or []:
                order = list(dict.fromkeys(pat))
                want = [(keys[p], [xs[i] for i in range(n) if pat[i] == p]) for p in order]
                ok = ident(a.keys(), [k for k, _ in want]) and all(ident(a[k], v) for k, v in want)
                okg = ident(b.keys(), [k for k, _ in want]) and all(ident(b[k], [got[pos[id(x)]] for x in v]) for k, v in want)
                okk = ident(c.keys(), [k for k, _ in want]) and all(ident(c[k], [k] * len(v)) for k, v in want)
                ck.fact(nm, W, ok and okg and okk, f"groups {dict(a)}, with get {dict(b)}, default key {dict(c)}")
                ck.fact(nm + "_source", W, ident(src, xs), "the input has been changed")
    # sorted keys of all kinds with a total order
    import datetime

    def cases():
        rng = ck.rng
        for k in range(120):
            n = rng.randrange(0, 25)
            mk = [lambda: rng.randrange(-30, 130), lambda: rng.uniform(-1e3, 1e3), lambda: rng.choice("abcXYZ") * rng.randrange(1, 4), lambda: (rng.randrange(8, 12), rng.choice([.5, 10.])),
                  lambda: datetime.datetime(2020, 1, 1) + datetime.timedelta(days=rng.randrange(-500, 500)), lambda: np.datetime64("2020-01-01") + rng.randrange(-500, 500), lambda: Fraction(rng.randrange(-20, 20), rng.randrange(1, 9))][k % 7]
            pool = [mk() for _ in range(1 + n // 2)]
            ks, xs = [rng.choice(pool) for _ in range(n)], items(n)
            pos = {id(x): i for i, x in enumerate(xs)}

            def go(ks=ks, xs=xs, pos=pos):
                r = groupby_unsorted(xs, key=lambda x: ks[pos[id(x)]], sort=True)
                u = groupby_unsorted(xs, key=lambda x: ks[pos[id(x)]])
                assert all(a < b for a, b in zip(list(r), list(r)[1:])), f"keys {list(r)}"
                assert list(u) == list(dict.fromkeys(ks)), f"keys {list(u)}"
                return all(set(q) == set(ks) and all(ident(v, [x for x, k in zip(xs, ks) if k == kk]) for kk, v in q.items()) for q in (r, u))
            yield f"groups of the keys {ks[:8]}", go, True
    ck.battery("sorted_values", W, cases(), bound="up to 25 elements with seven kinds of keys")
    # sorted keys: numbers in every order
    # sorted keys: numbers in every order
    for n in range(6):
        for perm in itertools.permutations(range(n)):
            xs = items(n + 2)
            ks = list(perm) + [perm[0] if n else 7, perm[-1] if n else 7]
            pos = {id(x): i for i, x in enumerate(xs)}
            nm = "sorted_" + ("".join(map(str, perm)) or "empty")
            for _, a, _ in ck.run(nm, W, lambda: groupby_unsorted(xs, key=lambda x: ks[pos[id(x)]], sort=True)) or []:
                ck.fact(nm, W, list(a) == sorted(set(ks)) and all(ident(v, [x for x, k in zip(xs, ks) if k == kk]) for kk, v in a.items()), f"{dict(a)} for the keys {ks}")


def splitting(ck):
    from rt1.general_functions import pairwise, split_into
    W = "general_functions.split_into"
    tot = 8 if ck.thorough() else 7
    for n in range(tot + 1):
        for m in range(5):
            for sizes in itertools.product([None, 0, 1, 2, 3], repeat=m):
                if None in sizes[:-1]:
                    first = sizes.index(None)
                    if first < m - 2:
                        continue
                nm = f"split_{n}_" + "_".join(map(str, sizes))
                xs = items(n)
                for _, (a, b), _ in ck.run(nm, W, lambda: ([list(i) for i in split_into(iter(xs), sizes)], [list(i) for i in split_into(xs, list(sizes))])) or []:
                    want, i = [], 0
                    for s in sizes:
                        want.append(xs[i:] if s is None else xs[i:i + s])
                        i = n if s is None else min(n, i + s)
                        if s is None:
                            break
                    ok = all(len(r) == len(want) and all(ident(x, y) for x, y in zip(r, want)) for r in (a, b))
                    ck.fact(nm, W, ok, f"pieces {a} of {xs} with the sizes {sizes}")
                    if None in sizes or sum(sizes) >= n:
                        ck.fact(nm + "_all", W, ident(itertools.chain(*a), xs), "the pieces together are not the input")
    W = "general_functions.pairwise"
    for n in range(tot + 3):
        for p in range(1, 6):
            nm = f"pairs_{n}_{p}"
            xs = items(n)
            for _, (a, b), _ in ck.run(nm, W, lambda: (list(pairwise(xs, p)), list(pairwise(iter(xs), p)))) or []:
                want = [tuple(xs[i:i + p]) for i in range(n - p + 1)]
                ck.fact(nm, W, all(len(r) == len(want) and all(type(x) is tuple and ident(x, y) for x, y in zip(r, want)) for r in (a, b)), f"{a} instead of {want}")
        xs = items(n)
        for _, a, _ in ck.run(f"pairs_{n}_default", W, lambda: list(pairwise(xs))) or []:
            ck.fact(f"pairs_{n}_default", W, [tuple(map(id, i)) for i in a] == [(id(x), id(y)) for x, y in zip(xs, xs[1:])], f"{a}")


def chunks(ck):
    """arbitrary length and chunk number"""
    import z3
    from rt1 import general_functions as gf, rtresults
    from rt1.rtresults import HDFaccessor
    for fname, mod, f, W in [("chunkit", gf, gf.chunkit, "general_functions.chunkit"), ("_chunks", rtresults, HDFaccessor._chunks, "HDFaccessor._chunks")]:
        bat = []
        for n in list(range(0, 26)) + [99, 100, 101, 1000]:
            for c in list(range(1, 28)) + [50, 99, 100, 101]:
                for kind in ("list", "array", "tuple"):
                    def go(n=n, c=c, kind=kind, f=f):
                        xs = items(n)
                        arr = np.empty(n, dtype=object)
                        arr[:] = xs
                        src = xs if kind == "list" else tuple(xs) if kind == "tuple" else arr
                        ch = list(f(src, c))
                        return ident(itertools.chain(*ch), xs) and all(len(i) == c for i in ch[:-1]) and (not ch or 1 <= len(ch[-1]) <= c) and len(ch) == -(-n // c)
                    bat.append((f"{fname} of {n} elements ({kind}) with {c}", go, True))
        ck.battery(f"{fname}_concrete", W, bat, bound="lengths <= 25 and some larger, chunk sizes <= 27 and some larger")
        keep = {k: mod.__dict__.get(k) for k in ("len", "range")}
        for csym in [None] + list(range(1, 20 if ck.thorough() else 13)):
            nm = f"{fname}_{'any' if csym is None else csym}"
            L = z3.Int("L")
            c = z3.Int("c") if csym is None else z3.IntVal(csym)
            pre = [L >= 0, c >= 1]

            def go():
                g = f(zsym.ZSeq(L), zsym.ZInt(c) if csym is None else csym)
                out = list(g)
                if len(out) != 1 or not isinstance(out[0], zsym.ZSeq) or len(zsym.ZRange.log) != 1:
                    raise Unsupported("not a loop over one range")
                return out[0]

            def nostate():
                """the loop body is entered twice: nothing but the index may change"""
                g = f(list(range(10)), 3)
                snaps = []
                for _ in g:
                    snaps.append(dict(g.gi_frame.f_locals))
                ch = {k for s, t in zip(snaps, snaps[1:]) for k in t if k not in s or s[k] is not t[k]}
                ch = {k for k in ch if not type(snaps[0].get(k)).__name__.endswith("iterator")}
                if len(ch) > 1:
                    raise Unsupported(f"state is carried through the loop: {ch}")
            try:
                nostate()
                mod.len, mod.range = zsym.zlen, zsym.ZRange
                try:
                    ps = zsym.paths(go, pre)
                finally:
                    for k, v in keep.items():
                        if v is None:
                            mod.__dict__.pop(k, None)
                        else:
                            mod.__dict__[k] = v
            except Exception as e:
                ck.undecided(nm, W, f"{type(e).__name__}: {e}")
                continue

            def proveit(name, pc, goal):
                s = zsym.valid(pc, goal)
                s.set("timeout", 20000)
                if s.check() == z3.unsat:
                    ck.smt(name, W, zsym.valid(pc, goal))
                else:                                     # the concrete runs decide
                    ck.undecided(name, W, "not proved for arbitrary lengths")
            for i, (pc, r, log) in enumerate(ps):
                rg, n = log[0], f"{nm}_{i}"
                k = rg.k
                sub = lambda e, kk: z3.substitute(e, (k, kk))
                lo, hi = r.lo, r.hi
                more = rg.start + (k + 1) * rg.step < rg.stop
                base = [q for q in pc if not any(str(k) == str(v) for v in _vars(q))]
                if csym is None:
                    continue                              # nonlinear: only attempted with a fixed chunk size
                proveit(n + "_first", pc + [k == 0], lo == 0)
                proveit(n + "_adjacent", pc + [more], sub(lo, k + 1) == hi)
                proveit(n + "_last", pc + [z3.Not(more)], hi == L)
                proveit(n + "_full", pc + [more], hi - lo == c)
                proveit(n + "_size", pc, z3.And(hi - lo >= 1, hi - lo <= c))
                proveit(n + "_empty", base + [L == 0], rg.start >= rg.stop)
                proveit(n + "_some", base + [L > 0], rg.start < rg.stop)


def _vars(e):
    import z3
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            seen.add(str(x))
        todo += x.children()
    return seen


def padding(ck):
    from rt1.general_functions import rectangularize
    import pandas as pd
    W = "general_functions.rectangularize"
    rows_max, len_max = (4, 5) if ck.thorough() else (4, 4)

    def obj(seq):
        a = np.empty(len(seq), dtype=object)
        a[:] = seq
        return a
    for rows in range(1, rows_max + 1):
        for lens in itertools.product(range(1, len_max + 1), repeat=rows):
            nm = "pad_" + "".join(map(str, lens))
            xs = [items(l, f"r{i}_") for i, l in enumerate(lens)]
            for extra in (None, 0, 2):
                dim = None if extra is None else max(lens) + extra
                d = max(lens) if dim is None else dim
                for kind in ("lists", "arrays", "values", "tuples") if extra is None else ("lists",):
                    def go():
                        src = {"lists": lambda: [list(x) for x in xs], "arrays": lambda: [obj(x) for x in xs], "values": lambda: {i: list(x) for i, x in enumerate(xs)}.values(), "tuples": lambda: tuple(tuple(x) for x in xs)}[kind]()
                        kw = dict(dim=dim, dtype=object)
                        return rectangularize(src, **kw), rectangularize(src, return_mask=True, **kw), rectangularize(src, return_masked=True, **kw), [list(i) for i in src]
                    n2 = f"{nm}_{kind}_{extra}"
                    for _, (a, (b, m), ma, src), _ in ck.run(n2, W, go) or []:
                        want = [[x[min(j, len(x) - 1)] for j in range(d)] for x in xs]
                        wm = [[j >= len(x) for j in range(d)] for x in xs]
                        ok = all(np.shape(r) == (rows, d) and all(ident(r[i], want[i]) for i in range(rows)) for r in (a, b, np.ma.getdata(ma)))
                        ck.fact(n2, W, ok, f"{a} instead of {want}")
                        ck.fact(n2 + "_mask", W, np.array_equal(m, wm) and np.array_equal(np.ma.getmaskarray(ma), wm) and all(ident(ma[i].compressed(), xs[i]) for i in range(rows)), f"mask {m} instead of {wm}")
                        ck.fact(n2 + "_source", W, all(ident(x, y) for x, y in zip(src, xs)), "the input has been changed")

    def cases():
        rng = ck.nprng
        for k in range(60):
            lens = rng.integers(1, 9, rng.integers(1, 12))
            for dt, mk in (("float", lambda l: rng.normal(size=l)), ("int", lambda l: rng.integers(-99, 99, l)), ("date", lambda l: np.datetime64("2020-01-01", "ns") + rng.integers(0, 10 ** 15, l).astype("timedelta64[ns]")), ("bool", lambda l: rng.integers(0, 2, l).astype(bool))):
                rows = [mk(l) for l in lens]
                for cont in ("arrays", "lists", "series"):
                    if cont == "series" and dt == "bool":
                        continue

                    def go(rows=rows, cont=cont, lens=lens):
                        src = rows if cont == "arrays" else [r.tolist() if r.dtype.kind != "M" else list(r) for r in rows] if cont == "lists" else pd.Series([list(r) for r in rows])
                        a, (b, m), ma = rectangularize(src), rectangularize(src, return_mask=True), rectangularize(src, return_masked=True)
                        w = np.array([np.concatenate([r, np.repeat(r[-1:], max(lens) - len(r))]) for r in rows])
                        wm = np.arange(max(lens))[None, :] >= lens[:, None]
                        ok = all(np.array_equal(np.asarray(i), w) for i in (a, b, np.ma.getdata(ma))) and np.array_equal(m, wm) and np.array_equal(np.ma.getmaskarray(ma), wm)
                        # more columns than elements
                        D = max(lens) + 3
                        a, (b, m), ma = rectangularize(src, dim=D), rectangularize(src, return_mask=True, dim=D), rectangularize(src, return_masked=True, dim=D)
                        w = np.array([np.concatenate([r, np.repeat(r[-1:], D - len(r))]) for r in rows])
                        wm = np.arange(D)[None, :] >= lens[:, None]
                        return ok and all(np.array_equal(np.asarray(i), w) for i in (a, b, np.ma.getdata(ma))) and np.array_equal(m, wm) and np.array_equal(np.ma.getmaskarray(ma), wm)
                    yield f"rectangularize {dt} {cont} {lens.tolist()}", go, True
    ck.battery("pad_values", W, cases(), bound="12 rows of length <= 8, dtype of the first row represents all values")


def missing(ck):
    from rt1.general_functions import find_missing
    import pandas as pd
    W = "general_functions.find_missing"
    top = 10 if ck.thorough() else 8

    def check(lst, N, src=None):
        src = lst if src is None else src
        before = list(src)
        it = find_missing(src, N)
        r = list(it if N is not None else itertools.islice(it, 30))
        want = list(itertools.islice((i for i in itertools.count() if i not in set(lst)), 30 if N is None else N))
        return (r == want and list(src) == before) or (_ for _ in ()).throw(AssertionError(f"{r} instead of {want}"))
    cases = []
    for r in range(top + 1):
        for sub in itertools.combinations(range(top), r):
            for N in (None, 0, 1, 2, 5, 12):
                cases.append((f"find_missing({list(sub)}, {N})", (lambda sub=sub, N=N: check(list(sub), N)), True))
            for N in (None, 4):
                cases.append((f"find_missing({list(sub[::-1]) + list(sub[:1])}, {N})", (lambda sub=sub, N=N: check(list(sub[::-1]) + list(sub[:1]), N)), True))
            cases.append((f"find_missing(array {list(sub)})", (lambda sub=sub: check(list(sub), 7, np.array(sub, int))), True))
    rng = ck.rng
    for _ in range(200):
        l = [rng.randrange(0, 300) for _ in range(rng.randrange(0, 200))]
        N = rng.choice([None, 1, 10, 500])
        cases.append((f"find_missing of {len(l)} numbers, {N}", (lambda l=l, N=N: check(l, N)), True))
    cases += [("find_missing()", lambda: list(itertools.islice(find_missing(), 4)), [0, 1, 2, 3]), ("find_missing(N=3)", lambda: list(find_missing(N=3)), [0, 1, 2]),
              ("find_missing(set)", lambda: list(find_missing({1, 2}, 2)), [0, 3]), ("find_missing(Index)", lambda: list(find_missing(pd.Index([0, 2]), 2)), [1, 3])]
    ck.battery("missing", W, cases, bound=f"all subsets of 0..{top - 1}, random lists")


def scaling(ck):
    from rt1.general_functions import scale
    W = "general_functions.scale"
    m, M, x, y, a, b = (var(n) for n in ("xmin", "xmax", "x", "y", "out0", "out1"))
    hyp = [("ne", M - m, const(0))]

    def go(v, lim=True):
        f = (lambda q: m, lambda q: M)
        return scale(v, (a, b), f) if lim else scale(v, domainfuncs=f)
    for nm, v, want, lim in [("lower", m, a, True), ("upper", M, b, True), ("value", x, a + (x - m) / (M - m) * (b - a), True), ("default_lower", m, const(0), False), ("default_upper", M, const(1), False), ("default_value", x, (x - m) / (M - m), False)]:
        for hy, r, _ in ck.run("scale_" + nm, W, lambda: go(v, lim)) or []:
            ck.eq("scale_" + nm, W, r, want, list(hy) + hyp)
    xs = symarray_of("x", 3)
    for hy, r, _ in ck.run("scale_array", W, lambda: go(xs)) or []:
        for i in range(3):
            ck.eq(f"scale_array_{i}", W, r[i], a + (xs[i] - m) / (M - m) * (b - a), list(hy) + hyp)

    def cases():
        rng = ck.nprng
        for k in range(40):
            v = rng.normal(size=rng.integers(2, 30)) * 10 ** rng.uniform(-3, 3)
            if k % 3 == 0:
                v[rng.integers(0, len(v))] = np.nan
            if np.isfinite(v).sum() < 2:
                continue
            o = sorted(rng.normal(size=2))
            if k % 4 == 1:
                o = o[::-1]

            def go(v=v, o=o):
                r = scale(v, o)
                i, j = np.nanargmin(v), np.nanargmax(v)
                e = o[0] + (v - v[i]) / (v[j] - v[i]) * (o[1] - o[0])
                return np.isclose(r[i], o[0]) and np.isclose(r[j], o[1]) and np.allclose(r, e, equal_nan=True) and np.allclose(scale(v)[[i, j]], [0, 1], atol=1e-12)
            yield f"scale {v[:4].tolist()} to {o}", go, True

            def own(v=v, o=o):
                f = lambda q: np.nanpercentile(q, 20), lambda q: np.nanmax(q) + 1
                lo, hi = f[0](v), f[1](v)
                return np.allclose(scale(v, o, f), o[0] + (v - lo) / (hi - lo) * (o[1] - o[0]), equal_nan=True)
            yield f"scale {v[:4].tolist()} to {o} with other limits of the domain", own, True
    ck.battery("scale_values", W, cases(), bound="random arrays, with missing values")


def symarray_of(p, n):
    return arr(*[f"{p}{i}" for i in range(n)])


def main(ck):
    ck.assume("the elements of a sequence are only moved (opaque elements raise on everything but identity and hashing)")
    ck.assume("padding: the dtype (given, or of the first row) represents all values - documented")
    ck.assume("splitting: elements beyond the requested sizes are not returned - documented behaviour of split_into")
    for part in (grouping, splitting, chunks, padding, missing, scaling):
        ck.opaque_only = part not in (chunks, scaling)
        ck.section(part, ck)
    return "proof"
