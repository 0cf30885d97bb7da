"""C13  IDs of fits are always valid identifiers and are assigned one-to-one

ID setter: complete evaluation over all code points (as first, middle and last
character), and over generated strings.  Container operations: the attached fits
are opaque recorders that only allow storing and reading attributes, so that the
obligations hold for arbitrary fits; every operation is checked as one step from
an arbitrary state of the container (number of configurations, which of them
share a fit, name new or used already)."""
import itertools
import keyword
import logging
import os
import pickle
import shutil
import sys
import tempfile

import pandas as pd

from ..opaque import Token
from ..term import Unsupported


class Fit:
    """an arbitrary fit: attributes can be stored and read, functions are recorded"""

    def __init__(self, name):
        d = object.__getattribute__(self, "__dict__")
        d["_name"], d["_calls"], d["_log"] = name, [], []

    def __setattr__(self, k, v):
        self.__dict__["_log"].append((k, v))
        self.__dict__[k] = v

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in ("performfit", "calc", "dump", "reinit_object"):
            def f(*a, **kw):
                self._calls.append((k, a, kw))
                return (self._name, k, a, kw)
            return f
        raise AttributeError(k)

    def __repr__(self):
        return f"<fit {self._name}>"


def valid(s):
    return type(s) is str and s.isidentifier() and not keyword.iskeyword(s)


def ids(ck):
    from rt1.rtfits import Fits, MultiFits
    W = "Fits.ID (setter), general_functions.isidentifier"
    f = Fits()

    def put(x):
        f.ID = x
        return f.ID

    def one(x):
        """None if the contract holds"""
        s = put(x)
        if not valid(s):
            return f"{x!r} is stored as {s!r}, which is not an identifier"
        if valid(str(x)) and s != str(x):
            return f"{x!r} is an identifier, but it is stored as {s!r}"
        if put(s) != s:
            return f"{s!r} (the ID stored for {x!r}) is stored as {f.ID!r}"

    def sweep(name, gen, n, bound):
        def go():
            for x in gen:
                r = one(x)
                if r:
                    return r
            return "ok"
        ck.battery(name, W, [(f"{n} IDs: {name}", go, lambda r: r == "ok" or _raise(r))], bound=bound)

    lvl = logging.getLogger("rt1").level
    logging.disable(logging.DEBUG)
    try:
        points = [chr(i) for i in range(sys.maxunicode + 1)]
        for nm, tmpl in [("one_character", "{}"), ("last_character", "a{}"), ("middle_of_a_prefixed_ID", "1{}a")] + [("first_character", "{}a"), ("after_prefix", "RT1_{}"), ("doubled", "{0}{0}")]:
            sweep(nm, (tmpl.format(c) for c in points), len(points), "all code points in this position")
        rng = ck.rng
        pool = list("abzAZ_019 -.:/\\'\"\n\t{}%$§äßéσ中²½ªŁ\u0300\u200d\u2160\U0001d7d8") + keyword.kwlist + ["RT1_", "RT1", "__", "self", "_x"]
        rnd = ["".join(rng.choice(pool) for _ in range(rng.randrange(0, 9))) for _ in range(200000 if ck.thorough() else 20000)]
        sweep("random_strings", rnd, len(rnd), "strings of up to 8 pieces")
        kws = [a + k + b for k in keyword.kwlist + getattr(keyword, "softkwlist", []) + ["print", "id", "Fits"] for a in ("", "RT1_", " ") for b in ("", "_", " ", "1")]
        sweep("keywords", kws, len(kws), "all keywords")
        objs = [0, 1, -1, 10 ** 30, 1.5, -0.0, float("nan"), None, True, (1, 2), [], {}, {"a": 1}, b"x", pd.Timestamp("2020-01-01"), __import__("pathlib").Path("a/b.c"), __import__("numpy").int64(3), __import__("numpy").str_("x y"), Exception("a b"), ""]
        sweep("objects", objs, len(objs), "IDs of other types")
    finally:
        logging.disable(logging.NOTSET)

    # the ID given on creation, and inherited from the parent on re-creation
    def created(x):
        g = Fits(ID=x)
        return g.ID == put(x)
    ck.battery("created_with", "Fits.__init__", [(f"Fits(ID={x!r})", (lambda x=x: created(x)), True) for x in ["abc", "a b", "1", 7, "class", "ä-ö"]])
    ck.battery("default", "Fits.__init__", [("Fits()", lambda: valid(Fits().ID), True)])

    # identifiers: the predicate itself against the language definition
    from rt1.general_functions import isidentifier
    smp = rnd[:3000] + kws + points[:3000]
    ck.battery("predicate", "general_functions.isidentifier", [("isidentifier on sample", lambda: [x for x in smp if isidentifier(x) is not valid(x)], lambda r: r == [])] + [
        (f"isidentifier({x!r})", (lambda x=x: isidentifier(x)), TypeError) for x in (1, None, b"a")])


def _raise(msg):
    raise AssertionError(msg)


def container(ck):
    from rt1.rtfits import MultiFits
    names = ["cfg_a", "cfg_b", "cfg_c", "cfg_d", "cfg_e"]
    nmax = 5 if ck.thorough() else 4
    W = "MultiFits.add_config, _FitContainer.__iter__, _FitContainer.__getitem__, _MultiAccessors.config_fits, MultiFits.apply"

    def state(pattern):
        """a container with the fits given by the pattern; its expected content"""
        ds, aux, ra = None, Token("aux"), Token("reader_arg")
        mf = MultiFits(ds, aux, ra)
        fits = {}
        want = {}
        for nm, k in zip(names, pattern):
            fits.setdefault(k, Fit(k))
            mf.add_config(nm, fits[k])
            want[nm] = fits[k]
        return mf, fits, want

    def content(mf, want, extra=()):
        """None if exactly the wanted configurations are available, each once"""
        if list(mf.config_names) != list(want):
            return f"config_names {mf.config_names} instead of {list(want)}"
        for i, (n, f) in enumerate(want.items()):
            if getattr(mf.configs, n) is not f:
                return f"configs.{n} is {getattr(mf.configs, n)}"
            if mf.configs[n] is not f or mf.configs[i] is not f:
                return f"configs[{n!r}] is {mf.configs[n]}, configs[{i}] is {mf.configs[i]}"
        it = list(mf.configs)
        if len(it) != len(want) or any(a is not b for a, b in zip(it, want.values())):
            return f"iteration over the configs gives {it}"
        cf = mf.accessor.config_fits
        if list(cf) != list(want) or any(cf[n] is not want[n] for n in want):
            return f"accessor.config_fits is {cf}"
        ap = list(mf.apply(lambda fit: fit))
        if [n for n, _ in ap] != list(want) or any(want[n] is not f for n, f in ap):
            return f"apply visits {ap}"
        for r in range(len(want) + 1):
            for sub in itertools.permutations(want, r):
                ap = list(mf.apply(lambda fit, arg: (fit, arg), use_config=list(sub), arg="x"))
                if [n for n, _ in ap] != list(sub) or any(want[n] is not f[0] or f[1] != "x" for n, f in ap):
                    return f"apply(use_config={sub}) visits {ap}"
        for n in want:
            ap = list(mf.apply(lambda fit: fit, use_config=n))
            if len(ap) != 1 or ap[0][0] != n or ap[0][1] is not want[n]:
                return f"apply(use_config={n!r}) visits {ap}"
        return None

    patterns = [p for n in range(nmax + 1) for p in itertools.product(range(n), repeat=n) if list(dict.fromkeys(p)) == sorted(set(p))]
    for pat in patterns:
        for who in list(range(len(pat) + 1)):                    # position of the name: used already or new
            for src in sorted(set(pat)) + ["new"]:                # which fit is added
                nm = f"add_{'_'.join(map(str, pat)) or 'empty'}__{who}_{src}"

                def go():
                    mf, fits, want = state(pat)
                    before = content(mf, want)
                    f = fits[src] if src != "new" else Fit("new")
                    logs = {k: len(v._log) for k, v in fits.items() if v is not f}
                    mf.add_config(names[who], f)
                    want[names[who]] = f
                    quiet = all(len(fits[k]._log) == n for k, n in logs.items())
                    return before, content(mf, want), quiet, f.dataset is mf.dataset and f.aux_data is mf.aux_data and f.reader_arg is mf.reader_arg and isinstance(f.aux_data, Token)
                for _, (b, a, q, s), _ in ck.run(nm, W, go) or []:
                    ck.fact(nm, W, b is None and a is None, f"adding a fit to {pat} as {names[who]}: {b or a}")
                    ck.fact(nm + "_others", "MultiFits.add_config", q, "another configuration has been changed")
                    ck.fact(nm + "_data", "MultiFits.add_config", s, "the added configuration does not have the dataset, aux_data and reader_arg of the container")

        # properties of the container are set for every configuration
        for setter, attr in [("set_ID", "ID"), ("set_aux_data", "aux_data"), ("set_reader_arg", "reader_arg"), ("set_dataset", "dataset")]:
            nm = f"{setter}_{'_'.join(map(str, pat)) or 'empty'}"
            W2 = f"MultiFits.{setter}"

            def go():
                mf, fits, want = state(pat)
                new = pd.DataFrame({"sig": [1.]}, index=pd.DatetimeIndex(["2020-01-01"])) if setter == "set_dataset" else Token("newvalue")
                n0 = {k: len(f._log) for k, f in fits.items()}
                getattr(mf, setter)(new)
                stored = [getattr(f, attr) is new for f in fits.values()]
                only = all(k == attr for kk, f in fits.items() for k, _ in f._log[n0[kk]:])
                return all(stored), only, content(mf, want), (not pat) and setter == "set_ID" or getattr(mf, attr) is new
            for _, (a, b, c, d), _ in ck.run(nm, W2, go) or []:
                ck.fact(nm, W2, a and d, f"{setter} on {pat} does not reach every configuration")
                ck.fact(nm + "_only", W2, b and c is None, f"{setter} on {pat} changes something else: {c}")

        # values and functions of all configurations
        nm = f"accessor_{'_'.join(map(str, pat)) or 'empty'}"
        W3 = "_MultiAccessors._getit, _MultiAccessors._applyit, _MultiAccessors.lazy"

        def go():
            mf, fits, want = state(pat)
            for f in fits.values():
                f.int_Q, f.dB, f.lsq_kwargs = Token("int_Q" + str(f._name)), Token("dB" + str(f._name)), Token("lsq" + str(f._name))
            vals = {p: getattr(mf.accessor, p) for p in ("int_Q", "dB", "lsq_kwargs")}
            cbs = mf.accessor.performfit(1, 2, a=3, b=4)
            nocall = all(not f._calls for f in fits.values())
            res = {n: [cb(), cb(b=5), cb(7), cb()] for n, cb in cbs.items()}
            return want, vals, nocall, res
        import io, contextlib

        def quiet():
            with contextlib.redirect_stdout(io.StringIO()):
                return go()
        for _, (want, vals, nocall, res), _ in ck.run(nm, W3, quiet) or []:
            ck.fact(nm + "_values", W3, all(list(v) == list(want) and all(v[n] is getattr(want[n], p) for n in want) for p, v in vals.items()), f"values of the configurations {vals}")
            exp = {n: [(f._name, "performfit", (1, 2), dict(a=3, b=4)), (f._name, "performfit", (1, 2), dict(a=3, b=5)), (f._name, "performfit", (7, 2), dict(a=3, b=4)), (f._name, "performfit", (1, 2), dict(a=3, b=4))] for n, f in want.items()}
            ck.fact(nm + "_calls", W3, nocall and res == exp, f"the calls were {res} instead of {exp}")


def rejected(ck):
    """names which can not be used: rejected, and nothing is changed"""
    from rt1.rtfits import Fits, MultiFits
    W = "MultiFits.add_config"
    mf0 = MultiFits()
    cand = sorted(set(dir(mf0)) | set(vars(mf0)) | set(dir(mf0.configs)) | set(dir(mf0.accessor)) | set(vars(mf0.accessor)) | set(keyword.kwlist) | {"", " ", "a b", "1a", "a-b", "ä", "_", "__x", "x1", "cfg.a", "σ"})

    def go(name):
        mf = MultiFits(None, "aux", {})
        a, b = Fit("a"), Fit("b")
        mf.add_config("cfg_a", a)
        try:
            mf.add_config(name, b)
        except Exception:
            ok = list(mf.config_names) == ["cfg_a"] and list(mf.configs) == [a] and mf.configs.cfg_a is a and mf.accessor.config_fits == {"cfg_a": a} and list(mf.apply(lambda fit: fit)) == [("cfg_a", a)]
            ok = ok and b._log == []
            word = "rejected"
        else:
            ok = list(mf.config_names) == ["cfg_a", name] and list(mf.configs) == [a, b] and mf.configs.cfg_a is a and getattr(mf.configs, name) is b and mf.configs[name] is b and mf.accessor.config_fits == {"cfg_a": a, name: b}
            word = "added"
        mf.set_ID("x")
        return (ok and a.ID == "x" and mf.ID == "x") or _raise(f"the name is {word}, but the container has {mf.config_names}, {list(mf.configs)}")
    ck.battery("names", W, [(f"add_config({n!r})", (lambda n=n: go(n)), True) for n in cand], bound="all attributes of the container classes, keywords, other strings")
    ck.battery("not_identifiers", W, [(f"add_config({n!r})", (lambda n=n: MultiFits().add_config(n, Fit("b"))), AssertionError) for n in ("", " ", "a b", "1a", "a-b", "cfg.a")])


def real(ck):
    """real fits: IDs through containers and dumps"""
    from rt1.rtfits import Fits, MultiFits, load
    W = "MultiFits.set_ID, MultiFits.ID, load"
    d = tempfile.mkdtemp(prefix="rtv_c13_")

    def multi(ID):
        mf = MultiFits()
        for i in range(3):
            mf.add_config(f"cfg_{i}", Fits(ID=f"start{i}"))
        mf.set_ID(ID)
        return mf
    try:
        cases = []
        for k, ID in enumerate(["abc", "a b", 12, "class", None, "x.y-z", ""]):
            def go(ID=ID):
                mf = multi(ID)
                f = Fits(ID=ID)
                return [c.ID for c in mf.configs] == [f.ID] * 3 and mf.ID == f.ID and valid(f.ID)
            cases.append((f"set_ID({ID!r})", go, True))

            def dump(ID=ID, k=k):
                mf = multi(ID)
                p = os.path.join(d, f"d{k}.dump")
                mf.dump(p)
                m2 = load(p)
                return m2.config_names == ["cfg_0", "cfg_1", "cfg_2"] and list(m2.accessor.config_fits) == m2.config_names and [c.ID for c in m2.configs] == [mf.ID] * 3 and [c.config_name for c in m2.configs] == m2.config_names
            cases.append((f"dump and load with ID {ID!r}", dump, True))

            def single(ID=ID, k=k):
                f = Fits(ID=ID)
                p = os.path.join(d, f"s{k}.dump")
                f.dump(p)
                return load(p).ID == f.ID
            cases.append((f"dump and load a fit with ID {ID!r}", single, True))
        ck.battery("fits", W, cases, bound="concrete IDs")
        ck.battery("readonly", "MultiFits.ID (setter)", [(f"MultiFits.{a} = ...", (lambda a=a: setattr(multi("x"), a, "y")), AttributeError) for a in ("ID", "dataset", "aux_data", "reader_arg")] + [("ID of an empty container", lambda: MultiFits().ID, AssertionError)])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(ck):
    ck.assume("str.isidentifier and keyword.iskeyword define valid identifiers")
    ck.assume("the ID setter treats characters independently of their neighbours (checked on random strings only)")
    ck.opaque_only = True
    ck.section(ids, ck)
    ck.section(container, ck)
    ck.section(rejected, ck)
    ck.section(real, ck)
    return "proof"
