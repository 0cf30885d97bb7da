"""The name ``np`` of the rt1 modules is bound to this proxy while the code is
executed symbolically: every function is numpy's own; only object arrays in the
result are viewed as SymArray (so that later ufuncs stay symbolic) and ufuncs
without an object loop (isnan, isfinite, ..) go to apply_ufunc."""
import contextlib
import sys

import numpy as np

from .term import Sym, SymArray, SymFloat, apply_ufunc, tosym, Unsupported

_OBJ_UFUNC = {"isnan", "isfinite", "expm1", "log1p", "deg2rad", "rad2deg", "radians", "degrees"}


def _view(r):
    if type(r) is np.ndarray and r.dtype == object:
        return r.view(SymArray)
    if type(r) in (list, tuple):
        return type(r)(_view(x) for x in r)
    return r


def _objarg(a):
    return isinstance(a, (Sym, SymFloat)) or (isinstance(a, np.ndarray) and a.dtype == object)


def _any_all(kind, a, *r, **k):
    a = np.asarray(a)
    if a.dtype == object and not r and not k:
        f = any if kind == "any" else all
        return f(bool(x) for x in a.ravel())
    return getattr(np, kind)(a, *r, **k)


# float buffers created by the code (np.empty(n, dtype=float), np.fromiter(..,
# dtype=float)) become object buffers, so that they can carry symbolic values
OBJFLOAT = False
_COUNT = [0]


def _isfloat(dt):
    try:
        return dt is float or (dt is not None and np.dtype(dt).kind == "f")
    except TypeError:
        return False


def _floatfill(v):
    return _objarg(v) or isinstance(v, (float, np.floating)) or isinstance(v, np.ndarray) and v.dtype.kind == "f"


def _objbuf(f, name):
    def g(*a, **k):
        a = list(a)
        if name == "fromiter":
            it = list(a[0])
            dt = k.get("dtype", a[1] if len(a) > 1 else None)
            if _isfloat(dt) and any(_objarg(x) for x in it):
                cnt = k.get("count", a[2] if len(a) > 2 else -1)
                if cnt not in (-1, None) and cnt > len(it):
                    raise ValueError("iterator too short")
                o = np.empty(len(it) if cnt in (-1, None) else cnt, dtype=object)
                for i in range(len(o)):
                    o[i] = it[i]
                return o.view(SymArray)
            a[0] = it
            return _view(f(*a, **k))
        pos = {"empty": 1, "zeros": 1, "ones": 1, "full": 2}[name]
        dt = k.get("dtype", a[pos] if len(a) > pos else None)
        explicit = "dtype" in k or len(a) > pos
        if (explicit and _isfloat(dt)) or (not explicit and name != "full") or (name == "full" and not explicit and _floatfill(k.get("fill_value", a[1] if len(a) > 1 else None))):
            shape = k.get("shape", a[0] if a else None)
            o = np.empty(shape, dtype=object)
            if name == "empty":
                from .term import var
                for i in np.ndindex(*o.shape):
                    _COUNT[0] += 1
                    o[i] = var(f"uninitialised_{_COUNT[0]}")
            else:
                o[...] = {"zeros": 0., "ones": 1.}.get(name) if name != "full" else k.get("fill_value", a[1] if len(a) > 1 else None)
            return o.view(SymArray)
        return _view(f(*a, **k))
    return g


class NP:
    def __getattr__(self, name):
        f = getattr(np, name)
        if OBJFLOAT and name in ("empty", "zeros", "ones", "full", "fromiter"):
            return _objbuf(f, name)
        if (isinstance(f, type) and name != "vectorize") or not callable(f):
            return f
        if isinstance(f, np.ufunc) and name in _OBJ_UFUNC:
            def g(*a, **k):
                if any(_objarg(x) for x in a):
                    return _view(apply_ufunc(name, [np.asarray(x) if isinstance(x, SymArray) else x for x in a]))
                return f(*a, **k)
            return g
        if isinstance(f, np.ufunc):
            def h(*a, **k):
                if not k and any(_objarg(x) for x in a):
                    return _view(apply_ufunc(name, [np.asarray(x) if isinstance(x, SymArray) else x for x in a]))
                return _view(f(*a, **k))
            h.__dict__["reduce"] = f.reduce
            return h
        if name in ("any", "all"):
            return lambda a, *r, **k: _any_all(name, a, *r, **k)
        if name == "unique":
            def uq(a, *r, **k):
                x = np.asarray(a)
                if x.dtype != object or r or k:
                    return _view(f(a, *r, **k))
                els = []
                for e in x.ravel():
                    if not any(tosym(e) is tosym(q) for q in els):
                        els.append(e)
                # distinct terms are treated as distinct values (only the count and
                # the single value are used by the code under verification)
                o = np.empty(len(els), dtype=object)
                o[:] = els
                return o.view(SymArray)
            return uq
        if name == "vectorize":
            def vec(pyfunc, *r, **k):
                v = f(pyfunc, *r, **k)
                if r or set(k) - {"otypes", "doc"}:
                    return v

                def call(*a, **kw):
                    if kw or not any(_objarg(x) for x in a):
                        return v(*a, **kw)
                    bc = np.broadcast(*[np.asarray(x, dtype=object) for x in a])
                    o = np.empty(bc.shape, dtype=object)
                    o.ravel()[:] = [pyfunc(*x) for x in bc] if o.shape else o.ravel()
                    if not o.shape:
                        return pyfunc(*a)
                    return o.view(SymArray)
                return call
            return vec
        if name == "isscalar":
            return lambda x: isinstance(x, (Sym, SymFloat)) or np.isscalar(x)
        if name == "isclose" or name == "allclose":
            def ac(a, b, *r, **k):
                if _objarg(a) or _objarg(b):
                    raise Unsupported("allclose on symbolic values")
                return f(a, b, *r, **k)
            return ac

        def w(*a, **k):
            return _view(f(*a, **k))

        return w


PROXY = NP()


@contextlib.contextmanager
def installed():
    mods = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "rt1" and getattr(m, "np", None) is np]
    for m in mods:
        m.np = PROXY
    try:
        yield
    finally:
        for m in mods:
            m.np = np
