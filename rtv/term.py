"""Symbolic real-number values that the *real* rt1 code is executed with.

``Sym`` is an immutable, hash-consed expression node.  CPython runs the
functions of /repo unchanged; every arithmetic operator and every numpy ufunc
that meets a ``Sym`` builds the expression of the value the code computes.
Branching on a ``Sym`` comparison consults the active :class:`Paths` explorer,
which enumerates every feasible outcome by re-execution.
"""

import math
import random
from fractions import Fraction

import numpy as np

PI = math.pi
LN10 = math.log(10.0)

_intern = {}


class Unsupported(Exception):
    """the code left the fragment the symbolic executor understands"""


def _snap(f):
    """exact reading of a floating point constant.

    A float that is (to 15 digits) a small rational multiple of pi, 1/pi, ln 10 or
    1/ln 10 or the root of a small rational (and no small rational itself) is read as that real number; every
    other float is read as the decimal it prints as when that has at most 12
    significant digits (0.1 -> 1/10), and exactly otherwise.
    """
    if f != f or f in (math.inf, -math.inf):
        raise Unsupported(f"non-finite constant {f}")
    if f == 0 or f == int(f):
        return const(Fraction(int(f)))
    r = Fraction(f).limit_denominator(4096)
    if abs(float(r) - f) <= 2 * math.ulp(f):
        return const(r)
    dec = repr(f)
    if len(dec.replace("-", "").replace(".", "").lstrip("0").split("e")[0]) <= 12:
        return const(Fraction(dec))
    pi, l10 = var("pi"), fn("log", const(Fraction(10)))
    for base, mk in (
        (PI, lambda q: q * pi),
        (1 / PI, lambda q: q / pi),
        (LN10, lambda q: q * l10),
        (1 / LN10, lambda q: q / l10),
        (PI * PI, lambda q: q * pi * pi),
        (1 / (PI * PI), lambda q: q / (pi * pi)),
        (PI * 10 / LN10, lambda q: const(Fraction(10)) * q * pi / l10),
    ):
        q = Fraction(f / base).limit_denominator(720)
        if q != 0 and abs(float(q) * base - f) <= 1e-14 * abs(f):
            return mk(const(q))
    # the square root of a rational (sympy evaluates Rational ** 1.5 numerically)
    for base, mk in ((1.0, lambda r: r), (1 / PI, lambda r: r / pi), (PI, lambda r: r * pi)):
        x = f / base
        q = Fraction(x * x).limit_denominator(4096)
        if q != 0 and abs(q.numerator) < 4096 and abs(float(q) - x * x) <= 2e-14 * x * x:
            r = _pow(const(q), Fraction(1, 2))
            return mk(r if f > 0 else const(-1) * r)
    return const(Fraction(f))


def _mk(cls, op, args):
    # nodes are interned for ever, so an argument is identified by its id()
    key = (op, tuple(id(a) if isinstance(a, Sym) else a for a in args))
    o = _intern.get(key)
    if o is None:
        o = object.__new__(cls)
        o.op = op
        o.args = args
        o._hash = hash((len(_intern) + 1) * 0x9E3779B97F4A7C15)
        _intern[key] = o
    return o


def const(fr):
    return _mk(Sym, "c", (Fraction(fr),))


def var(name):
    return _mk(Sym, "v", (name,))


def fn(name, *args):
    args = tuple(tosym(a) for a in args)
    return _mk(Sym, "f", (name,) + args)


ZERO = None
ONE = None


def tosym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymFloat):
        return x.sym
    if isinstance(x, (bool, np.bool_)):
        return const(int(x))
    if isinstance(x, (int, np.integer)):
        return const(int(x))
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, (float, np.floating)):
        return _snap(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return tosym(x.item())
    if isinstance(x, complex):
        if x.imag == 0:
            return tosym(x.real)
        raise Unsupported("complex constant")
    mod = type(x).__module__
    if mod.startswith("sympy") or mod.startswith("symengine"):
        from .fromsympy import from_sympy

        return from_sympy(x)
    raise Unsupported(f"cannot read {type(x)} as a real number")


def _isnum(s, v):
    return s.op == "c" and s.args[0] == v


def _bin(op, a, b):
    a, b = tosym(a), tosym(b)
    if a.op == "c" and b.op == "c":
        x, y = a.args[0], b.args[0]
        if op == "+":
            return const(x + y)
        if op == "-":
            return const(x - y)
        if op == "*":
            return const(x * y)
        if op == "/" and y != 0:
            return const(x / y)
    if op == "+":
        if _isnum(a, 0):
            return b
        if _isnum(b, 0):
            return a
    elif op == "-":
        if _isnum(b, 0):
            return a
    elif op == "*":
        if _isnum(a, 0) or _isnum(b, 0):
            return const(0)
        if _isnum(a, 1):
            return b
        if _isnum(b, 1):
            return a
    elif op == "/":
        if _isnum(b, 1):
            return a
        if _isnum(b, 0):
            raise Unsupported("division by the constant zero")
    return _mk(Sym, op, (a, b))


def _pow(a, b):
    a, b = tosym(a), tosym(b)
    if b.op == "c":
        e = b.args[0]
        if e == 0:
            return const(1)
        if e == 1:
            return a
        if a.op == "c" and e.denominator == 1 and (a.args[0] != 0 or e > 0):
            return const(a.args[0] ** int(e))
        return _mk(Sym, "^", (a, e))
    if _isnum(a, 1):
        return const(1)
    # a ** b = exp(b log a); for a constant base this is an identity, for a
    # symbolic one it presumes a > 0 (recorded by the normaliser)
    return fn("exp", b * fn("log", a))


_UF1 = {
    "exp", "cos", "sin", "tan", "log", "log10", "sqrt", "arccos", "arcsin",
    "arctan", "sign", "absolute", "log2", "fabs", "square", "expi",
}


def _call1(name, x):
    x = tosym(x)
    if name in ("absolute", "fabs"):
        name = "abs"
    if name == "square":
        return x * x
    if name == "tan":
        return fn("sin", x) / fn("cos", x)
    if name == "log10":
        return fn("log", x) / fn("log", const(10))
    if name == "log2":
        return fn("log", x) / fn("log", const(2))
    if name == "sqrt":
        return _pow(x, Fraction(1, 2))
    if x.op == "c":
        v = x.args[0]
        if v == 0 and name in ("sin", "arcsin", "arctan"):
            return const(0)
        if v == 0 and name in ("cos", "exp"):
            return const(1)
        if v == 1 and name == "log":
            return const(0)
        if name == "sign":
            return const((v > 0) - (v < 0))
        if name == "abs":
            return const(abs(v))
    return fn(name, x)


_UFUNC2 = {
    "add": "+", "subtract": "-", "multiply": "*", "divide": "/",
    "true_divide": "/",
}


def _elementwise(f, *xs):
    """apply the scalar function to broadcast object arrays"""
    arrs = []
    for x in xs:
        if isinstance(x, np.ndarray):
            arrs.append(x)
        else:
            o = np.empty((), dtype=object)
            o[()] = x
            arrs.append(o)
    b = np.broadcast(*arrs)
    out = np.empty(b.shape, dtype=object)
    its = [np.broadcast_to(a, b.shape) for a in arrs]
    for idx in np.ndindex(*b.shape):
        out[idx] = f(*(i[idx] for i in its))
    return out if b.shape else out[()]


class _Ops:
    def _lift(self, f, *xs):
        if any(isinstance(x, np.ndarray) for x in xs):
            return _elementwise(f, *xs)
        try:
            return f(*xs)
        except Unsupported:
            raise

    def __add__(self, o):
        return self._b("+", self, o)

    def __radd__(self, o):
        return self._b("+", o, self)

    def __sub__(self, o):
        return self._b("-", self, o)

    def __rsub__(self, o):
        return self._b("-", o, self)

    def __mul__(self, o):
        return self._b("*", self, o)

    def __rmul__(self, o):
        return self._b("*", o, self)

    def __truediv__(self, o):
        return self._b("/", self, o)

    def __rtruediv__(self, o):
        return self._b("/", o, self)

    def __pow__(self, o):
        return self._lift(_pow, self, o)

    def __rpow__(self, o):
        return self._lift(_pow, o, self)

    def __neg__(self):
        return self._b("*", -1, self)

    def __pos__(self):
        return tosym(self)

    def __abs__(self):
        return _call1("abs", self)

    @staticmethod
    def _foreign(o):
        return not isinstance(
            o, (Sym, SymFloat, int, float, Fraction, np.generic, np.ndarray)
        ) and not type(o).__module__.startswith(("sympy", "symengine"))

    def _b(self, op, a, b):
        if self._foreign(a) or self._foreign(b):
            return NotImplemented
        for x in (a, b):
            if type(x).__module__.startswith(("sympy", "symengine")) and getattr(x, "free_symbols", None):
                # an open sympy expression: stay on the sympy side
                import operator

                import sympy as sp

                f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[op]
                return f(sp.sympify(a), sp.sympify(b))
        return self._lift(lambda x, y: _bin(op, x, y), a, b)

    # comparisons -> SymBool
    def _cmp(self, rel, a, b):
        if self._foreign(a) or self._foreign(b):
            return NotImplemented
        return self._lift(lambda x, y: SymBool.make(rel, x, y), a, b)

    def __lt__(self, o):
        return self._cmp("<", self, o)

    def __le__(self, o):
        return self._cmp("<=", self, o)

    def __gt__(self, o):
        return self._cmp("<", o, self)

    def __ge__(self, o):
        return self._cmp("<=", o, self)

    def __eq__(self, o):
        if self is o:
            return True
        return self._cmp("==", self, o)

    def __ne__(self, o):
        if self is o:
            return False
        r = self._cmp("==", self, o)
        if r is NotImplemented:
            return r
        if isinstance(r, np.ndarray):
            return _elementwise(lambda x: ~x if isinstance(x, SymBool) else not x, r)
        return ~r if isinstance(r, SymBool) else not r

    def __bool__(self):
        raise Unsupported("truth value of a symbolic real")

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != "__call__" or kw.get("out") is not None:
            raise Unsupported(f"ufunc {ufunc.__name__}.{method}")
        return apply_ufunc(ufunc.__name__, inputs)

    def __array_function__(self, func, types, args, kwargs):
        if func is np.broadcast_arrays or func is np.isscalar:
            pass
        args = tuple(_strip(a) for a in args)
        kwargs = {k: _strip(v) for k, v in kwargs.items()}
        return func(*args, **kwargs)


def _aslist(x):
    x = [np.asarray(i) if isinstance(i, np.ndarray) else i for i in x]
    if all(not isinstance(i, np.ndarray) or i.shape == x[0].shape for i in x) and isinstance(x[0], np.ndarray):
        o = np.empty((len(x),) + x[0].shape, dtype=object)
        for k, i in enumerate(x):
            o[k] = i
        return o
    o = np.empty(np.shape(x) if not any(isinstance(i, (Sym, SymFloat)) for i in x) else (len(x),), dtype=object)
    for k, i in enumerate(x):
        o[k] = i
    return o


def _strip(a):
    if isinstance(a, (Sym, SymFloat)):
        o = np.empty((), dtype=object)
        o[()] = tosym(a)
        return o
    if isinstance(a, (list, tuple)):
        return type(a)(_strip(x) for x in a)
    return a


def apply_ufunc(name, inputs):
    inputs = [_aslist(x) if isinstance(x, (list, tuple)) else x for x in inputs]
    if name in _UF1:
        return _elementwise(lambda x: _call1(name, x), *inputs)
    if name in _UFUNC2:
        return _elementwise(lambda x, y: _bin(_UFUNC2[name], x, y), *inputs)
    if name in ("power", "float_power"):
        return _elementwise(_pow, *inputs)
    if name == "negative":
        return _elementwise(lambda x: _bin("*", -1, x), *inputs)
    if name == "positive":
        return inputs[0]
    if name == "reciprocal":
        return _elementwise(lambda x: _bin("/", 1, x), *inputs)
    if name == "expm1":
        return _elementwise(lambda x: _call1("exp", x) - 1, *inputs)
    if name == "log1p":
        return _elementwise(lambda x: _call1("log", 1 + tosym(x)), *inputs)
    if name in ("deg2rad", "radians"):
        return _elementwise(lambda x: tosym(x) * var("pi") / 180, *inputs)
    if name in ("rad2deg", "degrees"):
        return _elementwise(lambda x: tosym(x) * 180 / var("pi"), *inputs)
    if name == "isnan":
        # the real-number semantics has no NaN
        return _elementwise(lambda x: False, *inputs)
    if name == "isfinite":
        return _elementwise(lambda x: True, *inputs)
    rel = {"less": "<", "less_equal": "<=", "equal": "=="}
    if name in rel:
        return _elementwise(lambda x, y: SymBool.make(rel[name], x, y), *inputs)
    if name in ("greater", "greater_equal"):
        r = "<" if name == "greater" else "<="
        return _elementwise(lambda x, y: SymBool.make(r, y, x), *inputs)
    if name == "not_equal":
        return _elementwise(lambda x, y: ~SymBool.make("==", x, y), *inputs)
    if name == "expn":
        return _elementwise(lambda n, x: fn("expn", n, x), *inputs)
    if name in ("logical_and", "logical_or", "logical_not"):
        f = {"logical_and": lambda a, b: bool(a) and bool(b),
             "logical_or": lambda a, b: bool(a) or bool(b),
             "logical_not": lambda a: not bool(a)}[name]
        return _elementwise(f, *inputs)
    if name in ("maximum", "fmax"):
        return _elementwise(lambda a, b: a if bool(b <= a) else b, *inputs)
    if name in ("minimum", "fmin"):
        return _elementwise(lambda a, b: a if bool(a <= b) else b, *inputs)
    raise Unsupported(f"ufunc {name}")


class Sym(_Ops):
    __slots__ = ("op", "args", "_hash")
    __array_priority__ = 1000

    def __hash__(self):
        return self._hash

    # methods numpy's object loops look up
    def exp(self):
        return _call1("exp", self)

    def expm1(self):
        return _call1("exp", self) - 1

    def log1p(self):
        return _call1("log", self + 1)

    def cos(self):
        return _call1("cos", self)

    def sin(self):
        return _call1("sin", self)

    def tan(self):
        return _call1("tan", self)

    def log(self):
        return _call1("log", self)

    def log10(self):
        return _call1("log10", self)

    def log2(self):
        return _call1("log2", self)

    def sqrt(self):
        return _call1("sqrt", self)

    def arccos(self):
        return _call1("arccos", self)

    def arcsin(self):
        return _call1("arcsin", self)

    def arctan(self):
        return _call1("arctan", self)

    def sign(self):
        return _call1("sign", self)

    def deg2rad(self):
        return self * var("pi") / 180

    def rad2deg(self):
        return self * 180 / var("pi")

    radians = deg2rad
    degrees = rad2deg

    def square(self):
        return self * self

    def conjugate(self):
        return self

    def __repr__(self):
        return show(self)

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def _sympy_(self):
        import sympy as sp

        if self.op == "c":
            return sp.Rational(self.args[0].numerator, self.args[0].denominator)
        return sympy_atom(self)()


_atoms = {}


def sympy_atom(s):
    """a nullary sympy function standing for a symbolic real (lambdify calls _imp_)"""
    if s not in _atoms:
        import sympy as sp

        _atoms[s] = type(f"K{len(_atoms)}_rtv", (sp.Function,), {
            "nargs": 0, "rtv_sym": s, "_imp_": staticmethod(lambda s=s: s), "is_real": True, "__module__": __name__,
        })
        globals()[_atoms[s].__name__] = _atoms[s]
    return _atoms[s]


class SymFloat(_Ops, float):
    """a symbolic scalar that is also an instance of ``float``"""

    __array_priority__ = 1001

    def __new__(cls, sym, sample=0.7):
        o = float.__new__(cls, sample)
        o.sym = sym
        return o

    def __hash__(self):
        return hash(self.sym)

    def __repr__(self):
        return repr(self.sym)


ZERO = const(0)
ONE = const(1)
pi = var("pi")


class SymBool:
    __slots__ = ("rel", "a", "b", "neg")

    def __init__(self, rel, a, b, neg=False):
        self.rel, self.a, self.b, self.neg = rel, a, b, neg

    @staticmethod
    def make(rel, a, b):
        a, b = tosym(a), tosym(b)
        if a is b:
            return rel != "<"
        if a.op == "c" and b.op == "c":
            x, y = a.args[0], b.args[0]
            return {"<": x < y, "<=": x <= y, "==": x == y}[rel]
        return SymBool(rel, a, b)

    def __invert__(self):
        return SymBool(self.rel, self.a, self.b, not self.neg)

    def logical_not(self):
        return ~self

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)

    __rand__ = __and__
    __ror__ = __or__

    def __bool__(self):
        r = Paths.decide(self.rel, self.a, self.b)
        return (not r) if self.neg else r

    def __repr__(self):
        s = f"{self.a} {self.rel} {self.b}"
        return f"not({s})" if self.neg else s


class Infeasible(Exception):
    pass


class Paths:
    """depth-first enumeration of the outcomes of symbolic branches"""

    active = None

    def __init__(self, assume=(), maxpaths=64):
        self.assume = list(assume)  # [(rel, a, b, truth)]
        self.maxpaths = maxpaths

    @classmethod
    def decide(cls, rel, a, b):
        self = cls.active
        if self is None:
            raise Unsupported(f"branch on {a} {rel} {b} outside path exploration")
        return self._decide(rel, a, b)

    def _known(self, rel, a, b):
        facts = self.assume + self.trail
        for r, x, y, t in facts:
            if r == rel and x is a and y is b:
                return t
        for r, x, y, t in facts:
            # strict / non-strict consequences
            if x is a and y is b:
                if r == "<" and t and rel == "<=":
                    return True
                if r == "<" and t and rel == "==":
                    return False
                if r == "<=" and not t and rel in ("<", "=="):
                    return False
                if r == "==" and t:
                    return rel != "<"
            if x is b and y is a:
                if r == "<" and t:
                    return False
                if r == "<=" and t and rel == "<":
                    return False
                if r == "<=" and not t:
                    return rel != "=="
                if r == "==" and t:
                    return rel != "<"
        return None

    def _nonneg(self, t):
        """0 <= t follows from the sign of its parts"""
        if t.op == "c":
            return t.args[0] >= 0
        if self._known("<=", const(0), t) is True:
            return True
        if t.op in ("+", "*", "/"):
            return all(self._nonneg(x) for x in t.args)
        if t.op == "^" and not isinstance(t.args[1], Sym) and t.args[1] == int(t.args[1]):
            return int(t.args[1]) % 2 == 0 or self._nonneg(t.args[0])
        return t.op == "f" and t.args[0] == "exp"

    def _decide(self, rel, a, b):
        k = self._known(rel, a, b)
        if k is None and rel == "<=" and a is const(0) and self._nonneg(b):
            k = True
        if k is not None:
            return k
        k = self._guard(rel, a, b)
        if k is not None:
            self.trail.append((rel, a, b, k))
            return k
        i = self.pos
        self.pos += 1
        if i < len(self.choices):
            c = self.choices[i]
        else:
            self.choices.append(True)
            c = True
        self.trail.append((rel, a, b, c))
        return c

    def _guard(self, rel, a, b):
        """a comparison with a constant of magnitude < 1e-50 guards against exact zeros: only the
        outcome of ordinary points is followed (and remains as a hypothesis of the obligations)"""
        tiny = lambda t: t.op == "c" and 0 < abs(t.args[0]) < 1e-50
        if not (tiny(a) or tiny(b)):
            return None
        import mpmath
        got = set()
        rng = random.Random(7)
        vs = sorted(free_vars(a) | free_vars(b))
        for _ in range(12):
            try:
                x, y = (evalf(t, env) for env in [{v: mpmath.mpf(rng.uniform(0.1, 1.3)) for v in vs}] for t in (a, b))
            except Exception:
                return None
            got.add(bool({"<": x < y, "<=": x <= y, "==": x == y}[rel]))
        return got.pop() if len(got) == 1 else None

    def run(self, thunk):
        """yields (path_condition, result) for every path of thunk()"""
        self.choices = []
        out = []
        prev = Paths.active
        try:
            while True:
                self.pos = 0
                self.trail = []
                Paths.active = self
                try:
                    out.append((list(self.trail), thunk(), None))
                    out[-1] = (list(self.trail), out[-1][1], None)
                except Unsupported:
                    raise
                except Exception as ex:  # an exception is an outcome of the path
                    out.append((list(self.trail), None, ex))
                if len(out) > self.maxpaths:
                    raise Unsupported("too many paths")
                self.choices = self.choices[: self.pos]
                while self.choices and self.choices[-1] is False:
                    self.choices.pop()
                if not self.choices:
                    return out
                self.choices[-1] = False
        finally:
            Paths.active = prev


def show(s, limit=4000):
    op = s.op
    if op == "c":
        return str(s.args[0])
    if op == "v":
        return s.args[0]
    if op == "f":
        return f"{s.args[0]}({', '.join(show(a) for a in s.args[1:])})"
    if op == "^":
        return f"({show(s.args[0])})^{s.args[1]}"
    return f"({show(s.args[0])} {op} {show(s.args[1])})"


def subterms(s, seen=None):
    seen = set() if seen is None else seen
    stack = [s]
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        for a in t.args:
            if isinstance(a, Sym):
                stack.append(a)
    return seen


def free_vars(s):
    return {t.args[0] for t in subterms(s) if t.op == "v" and t.args[0] != "pi"}


def subst(s, m, memo=None):
    """simultaneous replacement of nodes (keys: Sym)"""
    memo = {} if memo is None else memo
    if s in m:
        return m[s]
    if s in memo:
        return memo[s]
    op = s.op
    if op in "cv":
        r = s
    elif op == "f":
        r = fn(s.args[0], *[subst(a, m, memo) for a in s.args[1:]])
        if s.args[0] in _UF1:
            r = _call1(s.args[0], r.args[1])
    elif op == "^":
        r = _pow(subst(s.args[0], m, memo), s.args[1])
    else:
        r = _bin(op, subst(s.args[0], m, memo), subst(s.args[1], m, memo))
    memo[s] = r
    return r


def evalf(s, env, uf=None, memo=None, mp=None):
    """numeric value; env: name -> number, uf: (name, *args) -> number"""
    if mp is None:
        import mpmath as mp
    memo = {} if memo is None else memo
    if s in memo:
        return memo[s]
    op = s.op
    if op == "c":
        r = mp.mpf(s.args[0].numerator) / s.args[0].denominator
    elif op == "v":
        r = mp.pi + 0 if s.args[0] == "pi" else mp.mpmathify(env[s.args[0]])
    elif op == "f":
        a = [evalf(x, env, uf, memo, mp) for x in s.args[1:]]
        n = s.args[0]
        if n == "exp":
            r = mp.exp(a[0])
        elif n == "cos":
            r = mp.cos(a[0])
        elif n == "sin":
            r = mp.sin(a[0])
        elif n == "log":
            r = mp.log(a[0])
        elif n == "arccos":
            r = mp.acos(a[0])
        elif n == "arcsin":
            r = mp.asin(a[0])
        elif n == "arctan":
            r = mp.atan(a[0])
        elif n == "sign":
            r = mp.sign(a[0])
        elif n == "abs":
            r = abs(a[0])
        elif n == "gamma":
            r = mp.gamma(a[0])
        elif n == "expi":
            r = mp.ei(a[0])
        elif n == "expn":
            r = mp.expint(a[0], a[1])
        elif n == "delta":
            r = mp.mpf(1 if a[0] == a[1] else 0)
        else:
            if uf is None:
                raise KeyError(n)
            r = uf(n, *a)
    elif op == "^":
        e = s.args[1]
        r = mp.power(
            evalf(s.args[0], env, uf, memo, mp), mp.mpf(e.numerator) / e.denominator
        )
    else:
        x = evalf(s.args[0], env, uf, memo, mp)
        y = evalf(s.args[1], env, uf, memo, mp)
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y,
             "/": lambda: x / y}[op]()
    memo[s] = r
    return r


class SymArray(np.ndarray):
    """object array of Syms whose ufuncs all go through :func:`apply_ufunc`"""

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        base = [np.asarray(x) if isinstance(x, SymArray) else x for x in inputs]
        if method == "__call__":
            r = apply_ufunc(ufunc.__name__, base)
            if out is not None:
                out[0][...] = r
                return out[0]
        else:
            kw.pop("where", None)
            r = getattr(ufunc, method)(*base, **kw)
        if isinstance(r, np.ndarray) and r.dtype == object:
            return r.view(SymArray)
        return r


def symarray(names):
    names = np.asarray(names, dtype=object)
    a = np.empty(names.shape, dtype=object)
    for idx in np.ndindex(*a.shape):
        n = names[idx]
        a[idx] = var(n) if isinstance(n, str) else tosym(n)
    return a.view(SymArray)
