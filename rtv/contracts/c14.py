"""C14  configuration files are read back as exactly the declared settings

The parsing functions are executed with configparser replaced by its contract: a
section maps its keys to texts, `getint / getfloat / getboolean` return the converted
number of exactly that key.  Texts and numbers are opaque, so an accepted obligation
holds for all values; the sets of keys, the presence of the config-sections and the
shape of the lists are enumerated.  Complete files are read in a bounded battery."""
import datetime as dtm
import itertools
import os
import shutil
import tempfile
from pathlib import Path

from ..model import *
from ..opaque import Token, same
from ..term import Unsupported

LSQ, FIT = "least_squares_kwargs", "fits_kwargs"
SECTIONS = (LSQ, FIT, "defdict", "RT1_V", "RT1_SRF")
LSQ_T = dict(verbose="int", max_nfev="int", ftol="float", gtol="float", xtol="float", f_scale="float", diff_step="float", method="text", loss="text", tr_solver="text")
FIT_T = dict(sig0="boolean", dB="boolean", int_Q="boolean", verbose="int", lambda_backend="text", _fnevals_input="text")


class Text(Token):
    """an arbitrary text that is not one of the special words"""
    __slots__ = ()

    def __eq__(self, o):
        if isinstance(o, str):
            return False
        raise Unsupported("comparison of an opaque text")

    def __ne__(self, o):
        return not self == o
    __hash__ = object.__hash__


class Section:
    def __init__(self, name, values):
        self.name, self.values_ = name, values

    def _get(self, key, what):
        v = self.values_[key]
        if isinstance(v, Text) or v is None or what == "none":
            if what in ("float", "int") and v is not None and v.name.endswith("!word"):
                raise ValueError("not a number")
            if v is None:
                raise TypeError("no value")
            return Token(f"{what}({v.name})")
        raise Unsupported(f"get{what} of {v!r}")

    def getfloat(self, key):
        return self._get(key, "float")

    def getint(self, key):
        return self._get(key, "int")

    def getboolean(self, key):
        return self._get(key, "boolean")

    def get(self, key, default=None):
        return self.values_.get(key, default)

    def __getitem__(self, k):
        return self.values_[k]

    def __iter__(self):
        return iter(self.values_)

    def __len__(self):
        return len(self.values_)

    def __contains__(self, k):
        return k in self.values_

    def keys(self):
        return self.values_.keys()

    def values(self):
        return self.values_.values()

    def items(self):
        return self.values_.items()

    def __getattr__(self, n):
        raise Unsupported(f"section.{n}")


class Config(dict):
    """{section: keys and texts}"""

    def __init__(self, d):
        super().__init__({k: Section(k, v) for k, v in d.items()})

    def sections(self):
        return [k for k in self if k != "DEFAULT"]

    def has_section(self, k):
        return k in self

    def __getattr__(self, n):
        raise Unsupported(f"configparser.{n}")


BASE = """[fits_kwargs]
sig0 = True
[least_squares_kwargs]
verbose = 0
[defdict]
omega = [False, 0.2]
[RT1_V]
V_name = Rayleigh
tau = 0.3
omega = omega
[RT1_SRF]
SRF_name = Isotropic
[CONFIGFILES]
module__processing_cfg = nothing.py
[PROCESS_SPECS]
path__save_path = out
dumpfolder = dump
"""


class Files:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="rtv_c14_")
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def write(self, text, name=None):
        self.n += 1
        p = os.path.join(self.d, name or f"cfg{self.n}.ini")
        with open(p, "w") as f:
            f.write(text)
        return p

    def parser(self, text=BASE):
        from rt1.rtparse import RT1_configparser
        return RT1_configparser(self.write(text))


def val(section, key, typ):
    """(text in the section, value that is declared by it)"""
    nm = f"{section}/{key}"
    if typ == "novalue":
        return None, None
    if typ == "None":
        return "None", None
    if typ == "text":
        return Text(nm + "!word"), Text(nm + "!word")
    return Text(nm), Token(f"{typ}({nm})")


def sections(fs, ck):
    """the typed settings of the keyword sections and of RT1_V / RT1_SRF"""
    W = "RT1_configparser._parse_dict"
    p = fs.parser()
    for sec, types, props in ((LSQ, LSQ_T, "lsq_kwargs"), (FIT, FIT_T, "fits_kwargs")):
        keys = list(types) + ["other"]
        sets = [keys] + [[k] for k in keys] + [keys[::-1]] + [[a, b] for a, b in itertools.permutations(keys, 2)]
        for i, ks in enumerate(sets):
            for how in ("value", "None", "novalue"):
                vals = {}
                for k in ks:
                    t = types.get(k, "text")
                    vals[k] = val(sec, k, t if how == "value" or t != "text" else how)
                nm = f"{sec}_{i}_{how}"

                def go():
                    c = {LSQ: {}, FIT: {}, "defdict": {}, "RT1_V": {}, "RT1_SRF": {}}
                    c[sec] = {k: v[0] for k, v in vals.items()}
                    p.config = Config(c)
                    return p.get_config()
                for _, r, _ in ck.run(nm, W, go) or []:
                    ck.fact(nm, W, sorted(r) == ["defdict", "fits_kwargs", "lsq_kwargs", "set_V_SRF"] and same(r[props], {k: v[1] for k, v in vals.items()}), f"{r.get(props)} instead of { {k: v[1] for k, v in vals.items()} }")
    W = "RT1_configparser._parse_V_SRF"
    for P, sec in (("V", "RT1_V"), ("SRF", "RT1_SRF")):
        def go(vals):
            c = {LSQ: {}, FIT: {}, "defdict": {}, "RT1_V": {}, "RT1_SRF": {}}
            c[sec] = {k: v[0] for k, v in vals.items()}
            p.config = Config(c)
            r = p.get_config()["set_V_SRF"]
            return r[P + "_props"], r[("SRF" if P == "V" else "V") + "_props"]
        keys = ["tau", "omega", "t", "NormBRDF", "ncoefs", "D"]
        for i, kinds in enumerate(itertools.product(["float", "text", "novalue"], repeat=3)):
            vals = {P + "_name": ("Some", "Some")}
            vals[P + "_name"] = val(sec, P + "_name", "text")
            for k, t in zip(("tau", "t", "D"), kinds):
                vals[k] = val(sec, k, t)
            vals["ncoefs"] = val(sec, "ncoefs", "int")
            nm = f"{sec}_{i}"
            for _, (r, o), _ in ck.run(nm, W, lambda: go(vals)) or []:
                ck.fact(nm, W, o == {} and same(r, {k: v[1] for k, v in vals.items()}), f"{r} instead of { {k: v[1] for k, v in vals.items()} }")


def mergeconf(fs, ck):
    """every subset of overriding sections of two configs"""
    W = "RT1_configparser.get_config"
    p = fs.parser()
    typ = {LSQ: LSQ_T, FIT: FIT_T, "RT1_V": {}, "RT1_SRF": {}}
    gen_keys = {LSQ: ["verbose", "ftol", "method"], FIT: ["sig0", "verbose", "lambda_backend"], "RT1_V": ["V_name", "tau", "t"], "RT1_SRF": ["SRF_name", "t", "NormBRDF"]}
    own_keys = {LSQ: ["ftol", "xtol", "loss"], FIT: ["sig0", "int_Q"], "RT1_V": ["tau", "omega"], "RT1_SRF": ["NormBRDF", "D"]}
    out = {LSQ: "lsq_kwargs", FIT: "fits_kwargs", "RT1_V": "V_props", "RT1_SRF": "SRF_props"}

    def typed(name, sec, keys):
        d = {}
        for k in keys:
            t = typ[sec].get(k, "text" if sec in (LSQ, FIT) or k.endswith("_name") else "float" if k in ("tau", "D") else "text")
            d[k] = val(name, k, t)
        return d
    one, two = ("cfg_0", "cfg_1"), ("a", "ab")
    for names in (one, two, two[::-1]):
        for subA in itertools.product((0, 1), repeat=5):
            for subB in ((0, 0, 0, 0, 0), (1, 1, 1, 1, 1), tuple(1 - x for x in subA), (0, 1, 0, 1, 0)):
                conf, want = {}, {n: {} for n in (None,) + names}
                dd = {"omega": "[True, 0.25, 2M, 0.01, 0.5]", "tau": "[False, 0.75]"}
                DD = {"omega": [True, .25, "2M", ([.01], [.5]), False], "tau": [False, .75]}
                for sec in SECTIONS:
                    if sec == "defdict":
                        conf[sec] = dict(dd)
                        continue
                    t = typed(sec, sec, gen_keys[sec])
                    conf[sec] = {k: v[0] for k, v in t.items()}
                    for n in want:
                        want[n][out[sec]] = {k: v[1] for k, v in t.items()}
                for n in want:
                    want[n]["defdict"] = dict(DD)
                for ni, (n, sub) in enumerate(zip(names, (subA, subB))):
                    if not any(sub):
                        conf[f"#config {n}"] = {}
                    for sec, on in zip(SECTIONS, sub):
                        if not on:
                            continue
                        s = f"#config {n} {sec}"
                        if sec == "defdict":
                            conf[s] = {"tau": f"[True, 0.{ni + 1}25, None, 0.0{ni + 1}, 1.5, True]", f"new{ni}": "[False, auxiliary]"}
                            want[n]["defdict"] = {"omega": DD["omega"], "tau": [True, float(f"0.{ni + 1}25"), None, ([float(f"0.0{ni + 1}")], [1.5]), True], f"new{ni}": [False, "auxiliary"]}
                            continue
                        t = typed(s, sec, own_keys[sec])
                        conf[s] = {k: v[0] for k, v in t.items()}
                        want[n][out[sec]] = {**want[n][out[sec]], **{k: v[1] for k, v in t.items()}}
                nm = f"config_{'_'.join(names)}_{''.join(map(str, subA))}_{''.join(map(str, subB))}"

                def go():
                    p.config = Config(conf)
                    return {n: p.get_config(n) for n in (names[0], None, names[1], names[0])}, p.config_names
                for _, (r, cn), _ in ck.run(nm, W, go) or []:
                    ck.fact(nm + "_names", "RT1_configparser.config_names", sorted(cn) == sorted(names), f"{cn} instead of {names}")
                    for n in want:
                        g = dict(lsq_kwargs=r[n]["lsq_kwargs"], fits_kwargs=r[n]["fits_kwargs"], defdict=r[n]["defdict"], V_props=r[n]["set_V_SRF"]["V_props"], SRF_props=r[n]["set_V_SRF"]["SRF_props"])
                        bad = [k for k in g if not (set(g[k]) == set(want[n][k]) and all(same(g[k][q], want[n][k][q]) for q in g[k]))]
                        ck.fact(f"{nm}_{n}", W, not bad and set(r[n]) == {"lsq_kwargs", "fits_kwargs", "defdict", "set_V_SRF"}, f"config {n}: {[(k, g[k], want[n][k]) for k in bad]}")


class Clock:
    """datetime.strptime by its contract"""
    @staticmethod
    def strptime(s, fmt):
        return Token(f"strptime({s}|{fmt})")

    def __getattr__(self, n):
        raise Unsupported(f"datetime.{n}")


def patched(thunk):
    """numbers and dates are converted from exactly the given text, whatever it is"""
    from rt1 import rtparse
    keep = {k: rtparse.__dict__.get(k) for k in ("float", "int", "datetime")}

    def conv(what):
        def f(s):
            if type(s) is not str:
                raise Unsupported(f"{what} of {s!r}")
            return Token(f"{what}({s.strip()})")
        return f
    try:
        rtparse.float, rtparse.int, rtparse.datetime = conv("float"), conv("int"), Clock()
        return thunk()
    finally:
        for k, v in keep.items():
            if v is None:
                rtparse.__dict__.pop(k, None)
            else:
                rtparse.__dict__[k] = v


def lists(fs, ck):
    """parameter definitions and list settings; number texts are opaque"""
    p = fs.parser()
    W = "RT1_configparser._parse_defdict"
    N = lambda s: Token(f"float({s})")
    seps = (", ", ",", " , ", ",\n", ",\t")
    for i, (fq, start, freq, rest, sep) in enumerate(itertools.product(("True", "False"), ("num_s", "auxiliary"), (None, "None", "2M", "index", "manual"), (("lo", "up"), ("lo", "up", "True"), ("lo", "up", "False")), seps)):
        if freq is None and rest != ("lo", "up"):
            continue
        parts = [fq, start] + ([] if freq is None else [freq, *rest])
        want = [fq == "True", "auxiliary" if start == "auxiliary" else N(start)]
        if freq is not None:
            want += [None if freq == "None" else freq, ([N("lo")], [N("up")]), rest[-1] == "True"]
        other = [False, N("q")]
        nm = f"defdict_{i}"

        def go():
            p.config = Config({LSQ: {}, FIT: {}, "RT1_V": {}, "RT1_SRF": {}, "defdict": {"first": "[" + sep.join(parts) + "]", "second": "[False,q]", "third": "[ " + sep.join(parts) + " ]"}})
            return patched(lambda: p.get_config()["defdict"])
        for _, r, _ in ck.run(nm, W, go) or []:
            ck.fact(nm, W, same(r, {"first": want, "second": other, "third": want}), f"{r} instead of {want} for {parts}")
    W = "RT1_configparser._parse_V_SRF"
    for P in ("V", "SRF"):
        for n in range(1, 6):
            for sep in seps:
                nm = f"coefficients_{P}_{n}_{seps.index(sep)}"

                def go():
                    text = "[" + sep.join(f"c{i}" for i in range(n)) + "]"
                    p.config = Config({LSQ: {}, FIT: {}, "defdict": {}, "RT1_V": {}, "RT1_SRF": {}, f"RT1_{P}": {"a": text}})
                    return patched(lambda: p.get_config()["set_V_SRF"][f"{P}_props"])
                for _, r, _ in ck.run(nm, W, go) or []:
                    ck.fact(nm, W, same(r, {"a": [N(f"c{i}") for i in range(n)]}), f"{r}")
        # linear combinations, with overriding components
        comps = {"A__": {f"{P}_name": "text", "t": "text", "ncoefs": "int", "frac": "float"}, "B__": {f"{P}_name": "text", "frac": "text"}, "C__": {f"{P}_name": "text", "t": "float"}}
        own = {"A__t": "float", "B__frac": "float", "C__frac": "text"}
        for m in range(1, 4):
            for sub in itertools.product((0, 1), repeat=len(own)):
                nm = f"lincomb_{P}_{m}_{''.join(map(str, sub))}"
                use = list(comps)[:m]
                sec = f"RT1_{P}"
                conf = {f"{P}_name": f"LinComb{P}", "tau": val(sec, "tau", "float")[0]}
                tree = {}
                for c in use:
                    tree[c] = [1, {}]
                    for k, t in comps[c].items():
                        a, b = val(sec, c + k, t)
                        conf[c + k] = a
                        if k == "frac":
                            tree[c][0] = b
                        else:
                            tree[c][1][k] = b
                tree2 = {c: [f, dict(d)] for c, (f, d) in tree.items()}
                oconf = {}
                for (k, t), on in zip(own.items(), sub):
                    if on and k[:3] in use:
                        a, b = val("own", k, t)
                        oconf[k] = a
                        if k.endswith("frac"):
                            tree2[k[:3]][0] = b
                        else:
                            tree2[k[:3]][1][k[3:]] = b
                head = {f"{P}_name": f"LinComb{P}", "tau": val(sec, "tau", "float")[1]}

                def go():
                    p.config = Config({LSQ: {}, FIT: {}, "defdict": {}, "RT1_V": {}, "RT1_SRF": {}, sec: conf, f"#config c {sec}": oconf})
                    return p.get_config("c")["set_V_SRF"][f"{P}_props"], p.get_config()["set_V_SRF"][f"{P}_props"]
                for _, (r1, r0), _ in ck.run(nm, W, go) or []:
                    for what, r, tr in (("own", r1, tree2), ("general", r0, tree)):
                        ch = r.get(f"{P}choices")
                        ok = set(r) == set(head) | {f"{P}choices"} and same(r["tau"], head["tau"]) and isinstance(ch, list) and len(ch) == len(tr)
                        ok = ok and all(same(c[0], t[0]) and set(c[1]) == set(t[1]) and all(same(c[1][k], t[1][k]) for k in t[1]) for c, t in zip(ch, tr.values()))
                        ck.fact(f"{nm}_{what}", W, ok, f"{r} instead of {list(tr.values())}")
    W = "RT1_configparser.get_process_specs"
    for n in range(0, 5):
        for sep in seps:
            for kind in ("float", "int", "", "datetime", "datetimefmt"):
                if kind.startswith("datetime") and "\t" in sep:
                    continue
                nm = f"list_{kind}_{n}_{seps.index(sep)}"
                tx = [f"t{i}" if not kind.startswith("datetime") else f"d {i}:00" for i in range(n)]
                fmt = " fmt= %d %H:%M" if kind == "datetimefmt" else ""
                pre = {"datetimefmt": "datetime__"}.get(kind, kind + "__" if kind else "")
                want = [t if not kind else Token(f"strptime({t}|{'%d %H:%M' if fmt else '%Y-%m-%d %H:%M:%S.%f'})") if kind.startswith("datetime") else Token(f"{kind}({t})") for t in tx]

                def go():
                    p.config = Config({"PROCESS_SPECS": {f"list__{pre}name": "[" + sep.join(tx) + "]" + fmt, "after": "None"}})
                    return patched(p.get_process_specs)
                for _, r, _ in ck.run(nm, W, go) or []:
                    ck.fact(nm, W, same(r, {"name": want, "after": None}), f"{r} instead of {want}")
    types = dict(int="int", float="float", bool="boolean")
    for i, order in enumerate(itertools.permutations(("int__a", "float__b", "bool__c", "plain"))):
        vals = {k: val("PROCESS_SPECS", k, types.get(k.split("__")[0], "text")) for k in order}

        def go():
            p.config = Config({"PROCESS_SPECS": {k: v[0] for k, v in vals.items()}})
            return p.get_process_specs()
        for _, r, _ in ck.run(f"specs_{i}", W, go) or []:
            ck.fact(f"specs_{i}", W, same(r, {k.split("__")[-1]: v[1] for k, v in vals.items()}), f"{r}")
    for i, (s, fmt) in enumerate(itertools.product(("D1", "D 2 x"), (None, "F", "F %d:%m"))):
        def go():
            p.config = Config({"PROCESS_SPECS": {"datetime__when": s + ("" if fmt is None else f" fmt={fmt}")}})
            return patched(p.get_process_specs)
        for _, r, _ in ck.run(f"date_{i}", W, go) or []:
            ck.fact(f"date_{i}", W, same(r, {"when": Token(f"strptime({s}|{fmt or '%Y-%m-%d %H:%M:%S.%f'})")}), f"{r}")


# ------------------------------------------------------------------ complete files
def number(rng):
    v = rng.choice([0., 1., -1., .5, rng.uniform(-3, 3), rng.uniform(0, 1) * 1e-6, 1e9 * rng.uniform(0, 1)])
    return rng.choice([repr(v), f"{v:.3e}", f"{v:g}", f"{int(v)}"])


def randfile(rng, names):
    """(text, {config: expected}, expected process specs)"""
    B = lambda: rng.choice([("True", True), ("False", False), ("yes", True), ("no", False), ("on", True), ("off", False), ("1", True), ("0", False), ("true", True), ("FALSE", False)])
    I = lambda: (lambda v: (str(v), v))(rng.randrange(-5, 2000))
    F = lambda: (lambda v: (v, float(v)))(number(rng))
    T = lambda: (lambda v: (v, v))(rng.choice(["jac", "trf", "a b c", "x = 3", "tau * t_2", "Some/Path.py", "50%", "# no comment", "[odd", "None?"]))
    mk = {"boolean": B, "int": I, "float": F, "text": lambda: rng.choice([T(), ("None", None)])}

    def kw(types):
        return {k: mk[types[k]]() for k in types if rng.random() < .6}

    def dd():
        o = {}
        for k in rng.sample(["omega", "tau", "t_v", "t_s", "N", "bsf"], rng.randrange(1, 6)):
            s, v = rng.choice([F(), F(), ("auxiliary", "auxiliary")])
            q = rng.choice(["True", "False"])
            t, w = [q, s], [q == "True", v]
            if rng.random() < .7:
                f = rng.choice(["None", "2M", "index", "D"])
                lo, up = F(), F()
                t += [f, lo[0], up[0]]
                w += [None if f == "None" else f, ([lo[1]], [up[1]])]
                i = rng.choice([None, True, False])
                if i is not None:
                    t += [str(i)]
                w += [bool(i)]
            sep = rng.choice([",", ", ", " ,  ", ",\n    "])
            o[k] = ("[" + sep.join(t) + "]", w)
        return o

    def vs(P, named):
        o = {}
        if named:
            o[f"{P}_name"] = (lambda v: (v, v))(rng.choice(["HenyeyGreenstein", "Rayleigh", "Isotropic"]))
        for k in ("tau", "omega", "t", "NormBRDF"):
            if rng.random() < .6:
                o[k] = rng.choice([F(), (lambda v: (v, v))(rng.choice(["omega", "tau * 2", "t_v**2"]))])
        if rng.random() < .5:
            o["ncoefs"] = (lambda v: (str(v), v))(rng.randrange(1, 20))
        if rng.random() < .4:
            c = [F() for _ in range(3)]
            o["a"] = ("[" + ", ".join(x[0] for x in c) + "]", [x[1] for x in c])
        return o
    gen = {LSQ: kw(LSQ_T), FIT: kw(FIT_T), "defdict": dd(), "RT1_V": vs("V", True), "RT1_SRF": vs("SRF", True)}
    make = {LSQ: lambda: kw(LSQ_T), FIT: lambda: kw(FIT_T), "defdict": dd, "RT1_V": lambda: vs("V", rng.random() < .3), "RT1_SRF": lambda: vs("SRF", rng.random() < .3)}
    own = {n: {s: make[s]() for s in SECTIONS if rng.random() < .5} for n in names}

    def dump(title, d):
        eq = rng.choice([" = ", "=", " : "])
        return f"[{title}]\n" + "".join(f"{k}{eq}{v[0]}\n" for k, v in d.items()) + rng.choice(["", "# comment\n", "\n"])
    parts = [dump(s, d) for s, d in gen.items()]
    for n in names:
        parts += [dump(f"#config {n} {s}", d) for s, d in own[n].items()] or [f"[#config {n}]\n"]
    parts += ["[CONFIGFILES]\nmodule__processing_cfg = nothing.py\n"]
    specs, want = [], {}
    DT = lambda: dtm.datetime(rng.randrange(1970, 2030), rng.randrange(1, 13), rng.randrange(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(10 ** 6))

    def L(n, mkr, pre):
        v = [mkr() for _ in range(rng.randrange(0, 5))]
        sep = rng.choice([",", ", ", "  , "])
        specs.append(f"list__{pre}{n} = [{sep.join(x[0] for x in v)}]")
        want[n] = [x[1] for x in v]
    for n, mkr, pre in (("i1", I, "int__"), ("f1", F, "float__"), ("b1", B, "bool__")):
        t = mkr()
        specs.append(f"{pre}{n} = {t[0]}")
        want[n] = t[1]
        L("l" + n, mkr, pre)
    L("words", lambda: (lambda v: (v, v))(rng.choice(["a", "B c", "x=1", "AbCd#"])), "")
    d = DT()
    specs.append(f"datetime__d1 = {d.strftime('%Y-%m-%d %H:%M:%S.%f')}")
    want["d1"] = d
    d = DT().replace(second=0, microsecond=0)
    specs.append(f"datetime__d2 = {d.strftime('%d.%m.%Y %H:%M')} {rng.choice(['fmt=', 'fmt= ', '  fmt='])}%d.%m.%Y %H:%M")
    want["d2"] = d
    ds = [DT().replace(second=0, microsecond=0) for _ in range(3)]
    specs.append("list__datetime__ds = [" + ", ".join(x.strftime("%d-%m-%y %H:%M") for x in ds) + "] fmt= %d-%m-%y %H:%M")
    want["ds"] = [dtm.datetime.strptime(x.strftime("%d-%m-%y %H:%M"), "%d-%m-%y %H:%M") for x in ds]
    specs += ["path__save_path = some/folder", "dumpfolder = dump", "path__abs = /a/b c", "path__up = /a/b/../c", "empty = None", "novalue", "text = some text", "ref = ${text} and ${dumpfolder}", "ref2 = ${CONFIGFILES:module__processing_cfg}"]
    want.update(save_path=Path("some/folder"), dumpfolder="dump", abs=Path("/a/b c"), up=Path("/a/c").resolve(), empty=None, novalue=None, text="some text", ref="some text and dump", ref2="nothing.py")
    rng.shuffle(specs)
    parts.append("[PROCESS_SPECS]\n" + "\n".join(specs) + "\n")
    rng.shuffle(parts)
    exp = {}
    for n in [None] + list(names):
        m = {s: {**{k: v[1] for k, v in gen[s].items()}, **({k: v[1] for k, v in own[n].get(s, {}).items()} if n else {})} for s in SECTIONS}
        exp[n] = dict(lsq_kwargs=m[LSQ], fits_kwargs=m[FIT], defdict=m["defdict"], set_V_SRF=dict(V_props=m["RT1_V"], SRF_props=m["RT1_SRF"]))
    return "\n".join(parts), exp, want


def typed_eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(typed_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(typed_eq(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def check(got, want):
    if not typed_eq(got, want):
        raise AssertionError(f"{got} instead of {want}")
    return True


def files(fs, ck):
    import random
    from rt1.rtfits import Fits, MultiFits
    W = "RT1_configparser"
    rng = ck.rng
    NAMES = [(), ("a",), ("cfg_0", "cfg_1"), ("x", "xy", "xyz"), ("defdict", "RT1_V")]

    def cases():
        for k in range(600 if ck.thorough() else 150):
            names = NAMES[k % 5]
            text, exp, specs = randfile(random.Random(rng.random()), names)

            def go(text=text, exp=exp, specs=specs, names=names, k=k):
                p = fs.parser(text)
                check(set(p.config_names), set(names))
                order = list(exp) if k % 2 else list(exp)[::-1]
                for n in order:
                    r = p.get_config(n)
                    check(r, exp[n])
                    # the returned settings belong to the caller
                    for d in (r["lsq_kwargs"], r["fits_kwargs"], r["defdict"], r["set_V_SRF"]["V_props"]):
                        for q in list(d):
                            if isinstance(d[q], list):
                                d[q].append("changed")
                            d[q] = "changed"
                for n in order[::-1]:
                    check(p.get_config(n), exp[n])
                s = p.get_process_specs()
                check(s, specs)
                s.clear()
                return check(p.get_process_specs(), specs)
            yield f"file {k} with the configs {names}", go, True

        def sections_of(f, exp):
            c = exp["fits_kwargs"]
            for k in ("sig0", "dB", "int_Q", "verbose", "lambda_backend", "_fnevals_input"):
                if k in c and not (k == "lambda_backend" and c[k] is None):      # (None: the available backend)
                    check(getattr(f, k), c[k])
            # (settings that are not given are filled up with None)
            check({k: list(v) for k, v in f.defdict.items()}, {k: (v + [None, ([None], [None]), None][len(v) - 2:]) for k, v in exp["defdict"].items()})
            check(f.set_V_SRF, exp["set_V_SRF"])
            check(f.lsq_kwargs, exp["lsq_kwargs"])
            return True
        for k in range(100 if ck.thorough() else 30):
            names = NAMES[k % 4]
            text, exp, specs = randfile(random.Random(rng.random()), names)

            def go(text=text, exp=exp, names=names):
                f = fs.parser(text).get_fitobject()
                if not names:
                    assert isinstance(f, Fits)
                    return sections_of(f, exp[None])
                assert isinstance(f, MultiFits)
                check(set(f.config_names), set(names))
                assert len(f.config_names) == len(names)
                return all(sections_of(getattr(f.configs, n), exp[n]) for n in names)
            yield f"fit-object {k} with the configs {names}", go, True

        # rejected settings
        def bad(text, use=lambda p: p.get_fitobject()):
            def go():
                use(fs.parser(text))
            return go
        for sec in ("PROCESS_SPECS", "CONFIGFILES", FIT, LSQ, "defdict", "RT1_V", "RT1_SRF"):
            t = BASE.replace(f"[{sec}]", f"[other_{sec}]")
            yield f"the section {sec} is missing", bad(t, lambda p: None), AssertionError
        for key in ("path__save_path = out\n", "dumpfolder = dump\n", "module__processing_cfg = nothing.py\n"):
            yield f"no {key.strip()}", bad(BASE.replace(key, ""), lambda p: None), AssertionError
        for s in ("#config a unknown", "#config a RT1_Z", "#config a b defdict", "#config a PROCESS_SPECS", "#config a CONFIGFILES", "#config", "#config a defdict x"):
            yield f"the section [{s}]", bad(BASE + f"[{s}]\n"), AssertionError
        renamed = BASE.replace("module__processing_cfg =", "module__own =")
        yield "a processing-module with another name", lambda: fs.parser(renamed.replace("module__own", "processing_cfg_module = own\nmodule__own")) is not None, True
        yield "no processing-module with the specified name", bad(BASE.replace("module__processing_cfg", "processing_cfg_module = own\nmodule__processing_cfg"), lambda p: None), AssertionError
        yield "no processing-module with the default name", bad(renamed, lambda p: None), AssertionError
        two = BASE + "[#config a defdict]\nomega = [False, .3]\n"
        yield "a config that is not defined", bad(two, lambda p: p.get_config("b")), AssertionError
        yield "a config of a file without configs", bad(BASE, lambda p: p.get_config("a")), AssertionError
        for t in ("omega = 0.2", "omega = [0.2, 0.3]", "omega = [maybe, 0.3]", "omega = True, 0.3"):
            yield f"the definition {t}", bad(BASE.replace("omega = [False, 0.2]", t), lambda p: p.get_config()), AssertionError
        for t in ("omega = [True, abc]", "omega = [True, 0.3, None, a, b]"):
            yield f"the definition {t}", bad(BASE.replace("omega = [False, 0.2]", t), lambda p: p.get_config()), ValueError
        yield "coefficients that are no list", bad(BASE.replace("tau = 0.3", "a = 0.3"), lambda p: p.get_config()), AssertionError
        yield "a list setting that is no list", bad(BASE + "list__int__x = 1, 2\n", lambda p: p.get_process_specs()), AssertionError
        for t in ("int__x = 1.5", "int__x = a", "float__x = a", "bool__x = maybe", "list__int__x = [1, b]", "datetime__x = 3.4.2020", "datetime__x = 2020-01-01 fmt=%d.%m.%Y"):
            yield f"the setting {t}", bad(BASE + t + "\n", lambda p: p.get_process_specs()), ValueError
        for t, s in (("sig0 = maybe", FIT), ("verbose = 1.5", LSQ), ("ftol = small", LSQ)):
            base = BASE.replace("sig0 = True", "").replace("verbose = 0", "").replace(f"[{s}]", f"[{s}]\n{t}")
            yield f"the setting {t}", bad(base, lambda p: p.get_config()), ValueError

        # modules
        def mods():
            a = fs.write("NAME = 'first'\n", "mod_a.py")
            b = fs.write("NAME = 'second'\n", "mod_b.py")
            p = fs.parser(BASE.replace("nothing.py", a + f"\nother = {b}\nmodule__extra = {b}\nanother = {b}"))
            m = p.get_all_modules()
            check({k: v.NAME for k, v in m.items()}, {"processing_cfg": "first", "extra": "second"})
            check(p.get_module("extra").NAME, "second")
            try:
                p.get_module("unknown")
            except AssertionError:
                pass
            else:
                raise AssertionError("an unknown module is not rejected")
            cfg = Path(fs.d) / "out2" / "dump" / "cfg"
            cfg.mkdir(parents=True)
            (cfg / "mod_b.py").write_text("NAME = 'copied'\n")
            q = fs.parser(BASE.replace("nothing.py", a + f"\nmodule__extra = {b}").replace("save_path = out", f"save_path = {fs.d}/out2"))
            check(q.get_module("extra", load_copy=True).NAME, "copied")
            return check(q.get_module("extra").NAME, "second")
        yield "modules", mods, True
    ck.battery("files", W, cases(), bound="random files of all documented settings with up to three configurations, the listed rejections")


def overrides(fs, ck):
    """the settings of a run: those of the file, except for the ones that are overridden"""
    import sys
    from rt1.rtprocess import RTprocess
    W = "RTprocess.override_config, RTprocess.setup, RTprocess._copy_cfg_and_modules"
    MOD = "from rt1.processing_config import rt1_processing_config\nclass processing_cfg(rt1_processing_config):\n    pass\n"
    POOL = {"PROCESS_SPECS": {"finalout_name": ("a.h5", "b.h5"), "int__n": (3, 4), "bool__q": (True, False)}, "fits_kwargs": {"dB": (True, False), "int_Q": (True,), "sig0": (False, True)},
            "least_squares_kwargs": {"max_nfev": (5, 7), "gtol": (1e-3, .5)}, "defdict": {"omega": ("[False, 0.25]", "[True, .3, None, ([.1], [.5])]")}, "RT1_V": {"tau": (.4, .5)}}

    def cases():
        rng = ck.rng
        for k in range(24 if ck.thorough() else 12):
            steps = []
            for _ in range(rng.randrange(1, 4)):
                secs = rng.sample(sorted(POOL), rng.randrange(0, 4))
                steps.append((rng.random() < .3, {s: {q: rng.choice(POOL[s][q]) for q in rng.sample(sorted(POOL[s]), rng.randrange(1, len(POOL[s]) + 1))} for s in secs}))

            def go(steps=steps, copy=bool(k % 2)):
                root = tempfile.mkdtemp(dir=fs.d)
                mod = os.path.join(root, f"rtv_c14_mod.py")
                with open(mod, "w") as o:
                    o.write(MOD)
                ini = os.path.join(root, "conf.ini")
                with open(ini, "w") as o:
                    o.write(BASE.replace("nothing.py", mod).replace("save_path = out", f"save_path = {root}"))
                want, keep = {}, list(sys.path)
                p = RTprocess(ini, autocontinue=True, copy=copy)
                for override, d in steps:
                    p.override_config(override=override, **d)
                    if override:
                        want = {}
                    for s, v in d.items():
                        want[s] = {**want.get(s, {}), **{a: str(b) for a, b in v.items()}}
                try:
                    for proc in ([p, RTprocess(ini, autocontinue=True, copy=copy)] if copy else [p]):      # (a copied file is used again)
                        proc.setup()
                        import configparser
                        ref = configparser.ConfigParser()
                        ref.optionxform = str
                        ref.read(ini)
                        got = {s: dict(proc.cfg.config[s]) for s in ref.sections()}
                        exp = {s: {**dict(ref[s]), **want.get(s, {})} for s in ref.sections()}
                        assert got == exp, f"settings {got} instead of {exp}"
                        specs = proc.cfg.get_process_specs()
                        for a, t in (("n", int), ("q", lambda x: x == "True")):
                            w = exp["PROCESS_SPECS"].get({"n": "int__n", "q": "bool__q"}[a])
                            assert (specs.get(a) if w is not None else None) == (t(w) if w is not None else None), f"{a}: {specs}"
                            assert w is None or getattr(proc.proc_cls, a) == t(w), f"{a} of the processing class"
                        f = proc.parent_fit
                        for a in ("sig0", "dB", "int_Q"):
                            if a in exp["fits_kwargs"]:
                                assert getattr(f, a) is (exp["fits_kwargs"][a] == "True"), f"{a}: {getattr(f, a)}"
                        assert float(f.set_V_SRF["V_props"]["tau"]) == float(exp["RT1_V"]["tau"]), f"{f.set_V_SRF}"
                        om = exp["defdict"]["omega"]
                        assert list(f.defdict["omega"])[:2] == ([False, .25] if "25" in om else [True, .3] if "True" in om else [False, .2]), f.defdict["omega"]
                finally:
                    sys.path[:] = keep
                return True
            yield f"overrides {steps}", go, True
    import contextlib
    import io
    import logging
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ck.battery("overrides", W, cases(), bound="12 sequences of up to 3 overrides")
    finally:
        logging.disable(logging.NOTSET)


def main(ck):
    ck.assume("configparser: a section maps its keys to the texts of the file, getint / getfloat / getboolean convert the text of that key or raise (replaced by this contract; real in the battery)")
    ck.assume("float, int and datetime.strptime convert the text they are given (python)")
    ck.assume("the last entry of a parameter definition is written as True or False; list entries contain no commas")
    ck.opaque_only = True
    with Files() as fs:
        for part in (sections, mergeconf, lists, files, overrides):
            ck.section(part, fs, ck)
    return "proof"
