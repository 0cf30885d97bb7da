"""Symbolic integers (z3) for code with integer arithmetic: the real function is
executed on them; every branch that depends on a symbol is explored with both
outcomes that are feasible (complete path enumeration), loops over a symbolic
range are entered once with an arbitrary index (their bodies carry no state)."""
import z3

from .term import Unsupported


class _Ctx:
    def __init__(self):
        self.pc, self.plan, self.k = [], [], 0
        self.todo = []


CTX = None


def _e(x):
    if isinstance(x, ZInt):
        return x.e
    if isinstance(x, bool) or not isinstance(x, int):
        raise Unsupported(f"{x!r} in integer arithmetic")
    return z3.IntVal(x)


class ZBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        c = CTX
        if c is None:
            raise Unsupported("truth value of a symbolic condition")
        if c.k < len(c.plan):
            v = c.plan[c.k]
        else:
            feas = []
            for val in (True, False):
                s = z3.Solver()
                s.set("timeout", 20000)
                s.add(c.pc + [self.e if val else z3.Not(self.e)])
                if s.check() != z3.unsat:
                    feas.append(val)
            if not feas:
                raise Unsupported("contradictory path")
            v = feas[0]
            if len(feas) == 2:
                c.todo.append(c.plan + [False])
            c.plan = c.plan + [v]
        c.k += 1
        if c.k > 200:
            raise Unsupported("too many branches")
        c.pc.append(self.e if v else z3.Not(self.e))
        return v

    def __and__(self, o):
        return ZBool(z3.And(self.e, o.e))

    def __or__(self, o):
        return ZBool(z3.Or(self.e, o.e))

    def __invert__(self):
        return ZBool(z3.Not(self.e))


class ZInt:
    def __init__(self, e):
        self.e = z3.Int(e) if isinstance(e, str) else e

    def __repr__(self):
        return f"ZInt({self.e})"

    __hash__ = None

    def __add__(self, o):
        return ZInt(self.e + _e(o))
    __radd__ = __add__

    def __sub__(self, o):
        return ZInt(self.e - _e(o))

    def __rsub__(self, o):
        return ZInt(_e(o) - self.e)

    def __mul__(self, o):
        return ZInt(self.e * _e(o))
    __rmul__ = __mul__

    def __neg__(self):
        return ZInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return ZInt(z3.If(self.e < 0, -self.e, self.e))

    def _div(self, a, b):
        # floor division of python; z3 rounds such that the remainder is >= 0
        if bool(ZBool(b == 0)):
            raise ZeroDivisionError("integer division by zero")
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        return ZInt(self._div(self.e, _e(o)))

    def __rfloordiv__(self, o):
        return ZInt(self._div(_e(o), self.e))

    def __mod__(self, o):
        b = _e(o)
        return ZInt(self.e - b * self._div(self.e, b))

    def __rmod__(self, o):
        a = _e(o)
        return ZInt(a - self.e * self._div(a, self.e))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __eq__(self, o):
        return ZBool(self.e == _e(o))

    def __ne__(self, o):
        return ZBool(self.e != _e(o))

    def __lt__(self, o):
        return ZBool(self.e < _e(o))

    def __le__(self, o):
        return ZBool(self.e <= _e(o))

    def __gt__(self, o):
        return ZBool(self.e > _e(o))

    def __ge__(self, o):
        return ZBool(self.e >= _e(o))

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise Unsupported("a concrete number is needed")
    __int__ = __float__ = __truediv__ = __rtruediv__ = __index__


def zmin(a, b):
    return z3.If(a <= b, a, b)


def zmax(a, b):
    return z3.If(a >= b, a, b)


class ZSeq:
    """an arbitrary sequence of symbolic length; a slice is the pair of its limits"""

    def __init__(self, n, lo=None, hi=None):
        self.n = n
        self.lo, self.hi = (z3.IntVal(0), n) if lo is None else (lo, hi)

    def zlen(self):
        return ZInt(self.hi - self.lo)

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported("item of an arbitrary sequence")
        L = self.hi - self.lo

        def lim(x, default):
            if x is None:
                return default
            x = _e(x)
            return zmax(zmin(z3.If(x < 0, x + L, x), L), z3.IntVal(0))
        a, b = lim(s.start, z3.IntVal(0)), lim(s.stop, L)
        return ZSeq(self.n, self.lo + a, self.lo + zmax(a, b))

    def __len__(self):
        raise Unsupported("concrete length")

    def __iter__(self):
        raise Unsupported("iteration over an arbitrary sequence")


class ZRange:
    """range with symbolic limits: iterated once with an arbitrary member"""
    log = []

    def __init__(self, *a):
        a = [_e(x) for x in a]
        self.start, self.stop, self.step = (z3.IntVal(0), a[0], z3.IntVal(1)) if len(a) == 1 else (a[0], a[1], z3.IntVal(1)) if len(a) == 2 else a
        ZRange.log.append(self)

    def __iter__(self):
        k = z3.Int(f"k{len(ZRange.log)}")
        self.k = k
        CTX.pc += [k >= 0, self.step > 0, self.start + k * self.step < self.stop]
        yield ZInt(self.start + k * self.step)


def zlen(x):
    return x.zlen() if isinstance(x, ZSeq) else len(x)


def paths(thunk, assume=(), limit=500):
    """all feasible executions: (path condition, result)"""
    global CTX
    todo, out = [[]], []
    while todo:
        if len(out) >= limit:
            raise Unsupported("too many paths")
        c = _Ctx()
        c.plan, c.pc = todo.pop(), list(assume)
        ZRange.log = []
        CTX = c
        try:
            r = thunk()
        finally:
            CTX = None
        todo += c.todo
        out.append((c.pc, r, list(ZRange.log)))
    return out


def valid(pc, goal):
    """a solver that is unsatisfiable iff the goal follows"""
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(pc)
    s.add(z3.Not(goal))
    return s
