"""Opaque values: a function that only moves them around behaves the same for
every value (parametricity), so one execution with opaque values proves the
result for all values.  Any operation that would look at the value raises
Unsupported, and the obligation stays open."""
import contextlib
import copy

from .term import Unsupported


class Token:
    """an arbitrary value; ``origin`` survives copying, ``gen`` counts the copies"""
    __slots__ = ("name", "gen")

    def __init__(self, name, gen=0):
        self.name, self.gen = name, gen

    def __repr__(self):
        return f"<{self.name}>"

    def __deepcopy__(self, memo):
        if id(self) not in memo:
            memo[id(self)] = Token(self.name, self.gen + 1)
        return memo[id(self)]

    def __copy__(self):
        return self

    __hash__ = object.__hash__


CONCRETE = False     # tokens stand for ordinary numbers (only to find out if the code fails for them as well)


def _no(op):
    def f(self, *a, **k):
        if CONCRETE:
            v = 1 + sum(map(ord, self.name)) / 997.
            a = [1 + sum(map(ord, x.name)) / 997. if isinstance(x, Token) else x for x in a]
            return self.name if op in ("str",) else getattr(v, f"__{op}__")(*a, **k) if hasattr(v, f"__{op}__") else NotImplemented
        raise Unsupported(f"{op} of an opaque value")
    return f


for _op in ("bool len iter getitem setitem contains call lt le gt ge eq ne add radd sub rsub mul rmul truediv rtruediv pow rpow neg pos abs float int index complex round mod rmod floordiv "
            "rfloordiv and or xor invert enter exit next reversed str format").split():
    setattr(Token, f"__{_op}__", _no(_op))
Token.__hash__ = object.__hash__


@contextlib.contextmanager
def concrete():
    global CONCRETE
    CONCRETE = True
    try:
        yield
    finally:
        CONCRETE = False


def same(a, b):
    """the same value: equal structure, tokens of the same origin"""
    if isinstance(a, Token) or isinstance(b, Token):
        return isinstance(a, Token) and isinstance(b, Token) and a.name == b.name
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def mutables(x, seen=None):
    """ids of everything reachable that can be changed (tokens count as changeable)"""
    seen = {} if seen is None else seen
    if id(x) in seen or x is None or isinstance(x, (bool, int, float, str, bytes, type)):
        return seen
    if isinstance(x, tuple):
        for y in x:
            mutables(y, seen)
        return seen
    seen[id(x)] = x
    if isinstance(x, Token):
        return seen
    if isinstance(x, dict):
        for k, v in x.items():
            mutables(v, seen)
    elif isinstance(x, (list, set)):
        for v in x:
            mutables(v, seen)
    elif hasattr(x, "__dict__"):
        for v in vars(x).values():
            mutables(v, seen)
    return seen


def shared(a, b):
    A, B = mutables(a), mutables(b)
    return [A[i] for i in A if i in B]
