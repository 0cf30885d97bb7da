"""Normal forms of Sym expressions: rational functions over generators.

This module is *not* trusted for accepting anything: it finds the equality,
derives the certificates (common denominator, cofactors of sin^2+cos^2-1 and of
the square roots) and the Lean back end re-checks all of it.  It is used
directly only to decide which obligations are worth sending to Lean and to look
for counterexamples.
"""

from fractions import Fraction
from math import gcd

from .term import Sym, Unsupported, const, fn, tosym, var, _call1, _pow, subterms

F0, F1 = Fraction(0), Fraction(1)


def padd(p, q, c=F1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, F0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for g, e in n:
        v = d.get(g, F0) + e
        if v:
            d[g] = v
        else:
            d.pop(g, None)
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > 400000:
        raise Unsupported("polynomial too large")
    r = {}
    for m, a in p.items():
        for n, b in q.items():
            k = mmul(m, n)
            v = r.get(k, F0) + a * b
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def ppow(p, n):
    r = {(): F1}
    b = p
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def mpow(m, e):
    return tuple((g, x * e) for g, x in m)


def pkey(p):
    return tuple(sorted(p.items()))


def _squarefree(n):
    """n = k*k * product(primes), primes distinct"""
    k, out, p = 1, [], 2
    while p * p <= n and p < 100000:
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        k *= p ** (e // 2)
        if e % 2:
            out.append(p)
        p += 1
    if n > 1:
        out.append(n)
    return k, out


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


class Norm:
    """reduce: use sin^2 = 1 - cos^2 and r^2 = P eagerly"""

    def __init__(self, reduce=True, facts=(), logsplit=True):
        self.logsplit = logsplit
        self.reduce = reduce
        self.gens = []  # index -> (kind, data, Sym)
        self.gidx = {}
        self.atoms = []  # denominators: index -> poly
        self.aidx = {}
        self.memo = {}
        self.sq = {}  # generator index -> poly it squares to (as Rat poly, d={})
        self.arcs = {}
        self.positive = set()
        self.pos_syms = set()
        self.need_pos = set()
        self.exp_eqs = {}
        self.facts = facts

    # ---- generators -------------------------------------------------------
    def gen(self, kind, data, sym):
        k = (kind, data)
        i = self.gidx.get(k)
        if i is None:
            i = len(self.gens)
            self.gens.append((kind, data, sym))
            self.gidx[k] = i
        return i

    def pgen(self, kind, data, sym, e=F1):
        return {((self.gen(kind, data, sym), e),): F1}

    # ---- rational function arithmetic ------------------------------------
    def red(self, p):
        """apply the square rules of sin and sqrt generators"""
        if not self.reduce or not self.sq:
            return p
        sq = self.sq
        while True:
            hit = None
            for m in p:
                for g, e in m:
                    if g in sq and (e >= 2 or e < 0):
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                return p
            r = {}
            for m, c in p.items():
                for g, e in m:
                    if g in sq and e >= 2:
                        rest = tuple((h, x) for h, x in m if h != g)
                        k = int(e // 2)
                        left = e - 2 * k
                        base = {mmul(rest, ((g, left),) if left else ()): c}
                        r = padd(r, pmul(base, ppow(sq[g], k)))
                        break
                else:
                    v = r.get(m, F0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
            p = r
            if not any(g in sq and e >= 2 for m in p for g, e in m):
                return p

    def mk(self, n, d=None):
        n = self.red(n)
        d = {k: v for k, v in (d or {}).items() if v}
        if not n:
            return Rat({}, {})
        # a negative power of a sin / sqrt generator goes to the denominator
        if d:
            for k in list(d):
                while d.get(k, 0) > 0:
                    q = self.exactdiv(n, self.atoms[k])
                    if q is None:
                        break
                    n = q
                    d[k] -= 1
                if d.get(k) == 0:
                    del d[k]
        return Rat(n, d)

    def exactdiv(self, n, p):
        """n / p when it divides exactly as (Laurent) polynomials"""
        if len(n) < len(p) or len(n) > 3000:
            return None
        lead = max(p, key=self._ord)
        lc = p[lead]
        q = {}
        rem = dict(n)
        steps = 0
        invlead = mpow(lead, -1)
        while rem:
            steps += 1
            if steps > 2000 + len(n):
                return None
            m = max(rem, key=self._ord)
            k = mmul(m, invlead)
            if any(
                self.gens[g][0] != "exp" and e < 0 and e < self._minexp(n, g)
                for g, e in k
            ):
                return None
            c = rem[m] / lc
            q[k] = q.get(k, F0) + c
            rem = padd(rem, pmul({k: c}, p), -F1)
            if len(rem) > 6 * len(n) + 50:
                return None
            if rem and self._ord(max(rem, key=self._ord)) >= self._ord(m):
                return None
        return {k: v for k, v in q.items() if v}

    def _minexp(self, n, g):
        return min((dict(m).get(g, F0) for m in n), default=F0)

    def _ord(self, m):
        # lexicographic by generator index (small index = most significant)
        d = dict(m)
        return tuple(d.get(g, F0) for g in range(len(self.gens)))

    def const(self, c):
        return Rat({(): c} if c else {}, {})

    def dpoly(self, d):
        r = {(): F1}
        for k, e in d.items():
            r = pmul(r, ppow(self.atoms[k], e))
        return r

    def add(self, a, b, c=F1):
        if not b.n:
            return a
        if not a.n:
            return Rat({m: c * k for m, k in b.n.items()}, b.d)
        L = dict(a.d)
        for k, e in b.d.items():
            L[k] = max(L.get(k, 0), e)
        na = pmul(a.n, self.dpoly({k: e - a.d.get(k, 0) for k, e in L.items()}))
        nb = pmul(b.n, self.dpoly({k: e - b.d.get(k, 0) for k, e in L.items()}))
        return self.mk(padd(na, nb, c), L)

    def mul(self, a, b):
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = d.get(k, 0) + e
        return self.mk(pmul(a.n, b.n), d)

    def inv(self, a):
        if not a.n:
            raise Unsupported("division by zero")
        num = self.dpoly(a.d)
        c, mono, facs = self.factor(a.n)
        inv = {mpow(mono, -1): 1 / c}
        d = {}
        # s^-1 -> s / (1-c^2): keeps sin and sqrt generators out of denominators
        if self.reduce:
            extra = {(): F1}
            m2 = {}
            for g, e in mono:
                if g in self.sq and e > 0:
                    extra = pmul(extra, {((g, e),): F1})
                    c2, mo2, f2 = self.factor(self.sq[g])
                    inv = pmul(inv, {mmul(((g, e),), mpow(mo2, -e)): 1 / c2**int(e)})
                    for k, x in f2.items():
                        d[k] = d.get(k, 0) + x * int(e)
            if extra != {(): F1}:
                # inv currently carries g^-e * g^e -> 1 ; multiply by g^e
                inv = pmul(inv, extra)
        for k, x in facs.items():
            d[k] = d.get(k, 0) + x
        return self.mk(pmul(num, inv), d)

    def content(self, p):
        """(monomial gcd, p / it)"""
        it = iter(p)
        g = dict(next(it))
        keys = set(g)
        for m in p:
            keys |= {a for a, _ in m}
        mins = {}
        for k in keys:
            mins[k] = min(dict(m).get(k, F0) for m in p)
        mono = tuple(sorted((k, v) for k, v in mins.items() if v))
        im = mpow(mono, -1)
        return mono, {mmul(m, im): c for m, c in p.items()}

    def atom(self, p):
        """index and scalar: p = scalar * atom"""
        lead = max(p, key=self._ord)
        cs = list(p.values())
        num = 0
        den = 1
        for c in cs:
            num = gcd(num, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
        s = Fraction(num, den)
        if p[lead] < 0:
            s = -s
        q = {m: c / s for m, c in p.items()}
        k = pkey(q)
        i = self.aidx.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(q)
            self.aidx[k] = i
        return i, s

    def factor(self, p):
        """p = c * monomial * prod atoms^e"""
        mono, q = self.content(p)
        if len(q) == 1:
            ((m, c),) = q.items()
            return c, mmul(mono, m), {}
        # known atom?
        i, s = self._try_known(q)
        if i is not None:
            return s, mono, {i: 1}
        facs = {}
        c = F1
        import sympy as sp

        used = sorted({g for m in q for g, _ in m})
        scale = {}
        for g in used:
            L = 1
            for m in q:
                e = dict(m).get(g, F0)
                L = L * e.denominator // gcd(L, e.denominator)
            scale[g] = L
        syms = sp.symbols(f"g0:{len(used)}")
        idx = {g: j for j, g in enumerate(used)}
        terms = {}
        for m, k in q.items():
            ex = [0] * len(used)
            for g, e in m:
                ex[idx[g]] = int(e * scale[g])
            terms[tuple(ex)] = sp.Rational(k.numerator, k.denominator)
        P = sp.Poly(terms, *syms, domain="QQ")
        if len(q) > 60:
            fl = (sp.Integer(1), [(P, 1)])
        else:
            fl = P.factor_list()
        lc, lst = fl
        c = Fraction(int(sp.Rational(lc).p), int(sp.Rational(lc).q))
        for f, e in lst:
            d = {}
            for ex, k in f.terms():
                k = sp.Rational(k)
                m = tuple(
                    (used[j], Fraction(x, scale[used[j]])) for j, x in enumerate(ex) if x
                )
                d[m] = Fraction(int(k.p), int(k.q))
            i, s = self.atom(d)
            c *= s**e
            facs[i] = facs.get(i, 0) + e
        return c, mono, facs

    def _try_known(self, q):
        lead = max(q, key=self._ord)
        for i, a in enumerate(self.atoms):
            if len(a) == len(q) and set(a) == set(q):
                s = q[lead] / a[lead]
                if all(q[m] == s * a[m] for m in q):
                    return i, s
        return None, None

    def key(self, a):
        return (pkey(a.n), tuple(sorted(a.d.items())))

    def powr(self, a, e):
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return self.powr(self.inv(a), Fraction(-n))
            r = self.const(F1)
            for _ in range(n):
                r = self.mul(r, a)
            return r
        if e.denominator != 2:
            raise Unsupported(f"power {e}")
        r = self.sqrt(a)
        return self.powr(r, Fraction(e.numerator))

    def sqrt(self, a):
        if not a.n:
            return a
        c, mono, facs = self.factor(a.n)
        facs = dict(facs)
        for k, v in a.d.items():
            facs[k] = facs.get(k, 0) - v
        out = self.const(F1)

        def isq(x):
            from math import isqrt

            r = isqrt(x)
            return r if r * r == x else None

        neg = c < 0
        if neg:
            c = -c
        pn, pd = isq(c.numerator), isq(c.denominator)
        inner = {}
        if pn is not None and pd is not None:
            out = self.mul(out, self.const(Fraction(pn, pd)))
            cc = F1
        else:
            # sqrt(n/d) = k/d * product of the square roots of primes
            k, primes = _squarefree(c.numerator * c.denominator)
            out = self.mul(out, self.const(Fraction(k, c.denominator)))
            for q in primes:
                out = self.mul(out, self._rt(self.const(Fraction(q))))
            cc = F1
        if neg:
            cc = -cc
        # even powers of factors are pulled out only for generators known positive
        im = []
        om = []
        for g, x in mono:
            if self.gens[g][0] == "exp" or g in self.positive:
                om.append((g, x / 2))
            else:
                im.append((g, x))
        out = self.mul(out, Rat({tuple(om): F1}, {}))
        inner_r = self.mul(self.const(cc), Rat({tuple(im): F1}, {}))
        for k, v in facs.items():
            base = Rat(self.atoms[k], {})
            if v < 0:
                base = self.inv(base)
                v = -v
            inner_r = self.mul(inner_r, self.powr(base, Fraction(v)))
        if self.key(inner_r) == self.key(self.const(F1)):
            return out
        # sqrt(N/D) = sqrt(N*D)/D with D > 0 presumed
        if inner_r.d:
            D = Rat(self.dpoly(inner_r.d), {})
            inner2 = self.mk(pmul(inner_r.n, D.n), {})
            root = self._rt(inner2)
            return self.mul(out, self.mul(root, self.inv(D)))
        return self.mul(out, self._rt(inner_r))

    def _rt(self, a):
        k = self.key(a)
        g = self.gen("rt", k, None)
        if self.gens[g][2] is None:
            self.gens[g] = ("rt", k, _pow(self.to_sym(a), Fraction(1, 2)))
        self.sq.setdefault(g, a.n)
        return Rat({((g, F1),): F1}, {})

    # ---- expressions ------------------------------------------------------
    def rat(self, s):
        s = tosym(s)
        r = self.memo.get(s)
        if r is None:
            # iterative post-order to survive deep terms
            stack = [s]
            while stack:
                t = stack[-1]
                if t in self.memo:
                    stack.pop()
                    continue
                kids = [a for a in t.args if isinstance(a, Sym) and a not in self.memo]
                if kids:
                    stack.extend(kids)
                    continue
                self.memo[t] = self._rat(t)
                stack.pop()
            r = self.memo[s]
        return r

    def _rat(self, s):
        op = s.op
        if op == "c":
            return self.const(s.args[0])
        if op == "v":
            for lhs, rhs in self.facts:
                if lhs is s:
                    return self.rat(rhs)
            return Rat(self.pgen("v", s.args[0], s), {})
        if op == "^":
            return self.powr(self.rat(s.args[0]), s.args[1])
        if op == "f":
            return self.call(s)
        a, b = self.rat(s.args[0]), self.rat(s.args[1])
        if op == "+":
            return self.add(a, b)
        if op == "-":
            return self.add(a, b, -F1)
        if op == "*":
            return self.mul(a, b)
        return self.mul(a, self.inv(b))

    def call(self, s):
        name = s.args[0]
        for lhs, rhs in self.facts:
            if lhs is s:
                return self.rat(rhs)
        xs = [self.rat(a) for a in s.args[1:]]
        if name == "exp":
            return self.exp(xs[0], s)
        if name in ("cos", "sin"):
            return self.trig(name, xs[0])
        if name == "log" and self.logsplit:
            return self.log(xs[0])
        if name == "arccos":
            # arccos(cos t) = t on [0, pi] (precondition of every caller)
            x = xs[0]
            if len(x.n) == 1 and not x.d:
                ((m, c),) = x.n.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    kind, data, _ = self.gens[m[0][0]]
                    if kind == "cos":
                        return self.rat(self.arcs[data])
        k = tuple(self.key(x) for x in xs)
        return Rat(self.pgen("f", (name,) + k, s), {})

    def exp(self, x, s):
        if not x.n:
            return self.const(F1)
        if x.d:
            # exp(N/D): one generator per monomial of N over D
            dk = tuple(sorted(x.d.items()))
        else:
            dk = ()
        mono = []
        out = Rat({(): F1}, {})
        for m, c in x.n.items():
            if not dk and len(m) == 1 and m[0][1] == 1:
                kind, data, sym = self.gens[m[0][0]]
                if kind == "log":  # exp(c * log p) = p**c
                    base = self.rat(data[1])
                    if c.denominator in (1, 2):
                        out = self.mul(out, self.powr(base, c))
                        continue
            g = self.gen("exp", (m, dk), None)
            if self.gens[g][2] is None:
                e = self.to_sym(Rat({m: F1}, dict(dk)))
                self.gens[g] = ("exp", (m, dk), fn("exp", e))
            mono.append((g, c))
        return self.mul(out, Rat({tuple(sorted(mono)): F1}, {}))

    def trig(self, name, x):
        # split off multiples of pi
        if x.d:
            return self._trig_atom(name, x)
        pi_m = None
        for (m, c) in x.n.items():
            if len(m) == 1 and m[0][1] == 1 and self.gens[m[0][0]][:2] == ("v", "pi"):
                pi_m = m
                break
        n = dict(x.n)
        k = n.pop(pi_m, F0) if pi_m else F0
        # addition theorem over the remaining monomials
        parts = []
        for m, c in sorted(n.items()):
            if not m:
                parts.append(({(): c}, F1, 1))
                continue
            if c.denominator == 1 and abs(c) <= 6:
                parts.append(({m: F1}, F1 if c > 0 else -F1, int(abs(c))))
            else:
                parts.append(({m: abs(c)}, F1 if c > 0 else -F1, 1))
        C, S = self.const(F1), self.const(F0)
        if k:
            q = 2 * k
            if q.denominator == 1:
                q = int(q) % 4
                C = self.const(Fraction([1, 0, -1, 0][q]))
                S = self.const(Fraction([0, 1, 0, -1][q]))
            else:
                parts.append(({pi_m: abs(k)}, F1 if k > 0 else -F1, 1))
        for p, sg, mult in parts:
            c1 = self._trig_atom("cos", Rat(p, {}))
            s1 = self.mul(self.const(sg), self._trig_atom("sin", Rat(p, {})))
            for _ in range(mult):
                C, S = (
                    self.add(self.mul(C, c1), self.mul(S, s1), -F1),
                    self.add(self.mul(S, c1), self.mul(C, s1)),
                )
        return C if name == "cos" else S

    def _trig_atom(self, name, x):
        k = self.key(x)
        sym = self.to_sym(x)
        self.arcs[k] = sym
        gc = self.gen("cos", k, fn("cos", sym))
        gs = self.gen("sin", k, fn("sin", sym))
        self.sq[gs] = {(): F1, ((gc, Fraction(2)),): -F1}
        g = gc if name == "cos" else gs
        return Rat({((g, F1),): F1}, {})

    def log(self, x):
        if not x.n:
            raise Unsupported("log 0")
        c, mono, facs = self.factor(x.n)
        facs = dict(facs)
        for k, e in x.d.items():
            facs[k] = facs.get(k, 0) - e
        out = self.const(F0)
        if c < 0:
            # keep the sign with one non-monomial factor
            if facs:
                k0 = next(iter(facs))
                if facs[k0] % 2:
                    return self._logatom(x)
            else:
                return self._logatom(x)
        import sympy as sp

        for p, e in list(sp.factorint(c.numerator).items()) if c.numerator != 1 else []:
            out = self.add(out, self._logconst(p), Fraction(e))
        for p, e in list(sp.factorint(c.denominator).items()) if c.denominator != 1 else []:
            out = self.add(out, self._logconst(p), Fraction(-e))
        for g, e in mono:
            kind, data, sym = self.gens[g]
            if kind == "exp":
                m, dk = data
                out = self.add(out, self.mul(self.const(e), Rat({m: F1}, dict(dk))))
            else:
                self.need_pos.add(g)
                out = self.add(out, self.mul(self.const(e), self._logatom(Rat({((g, F1),): F1}, {}))))
        for k, e in facs.items():
            if e:
                out = self.add(out, self.mul(self.const(Fraction(e)), self._logatom(Rat(self.atoms[k], {}))))
        return out

    def _logconst(self, p):
        return self._logatom(self.const(Fraction(int(p))))

    def _logatom(self, x):
        # log 10 is kept as log 2 + log 5
        if list(x.n) == [()] and not x.d and x.n[()] == 10:
            return self.add(self._logconst(2), self._logconst(5))
        k = self.key(x)
        sym = self.to_sym(x)
        g = self.gen("log", (k, sym), fn("log", sym))
        return Rat({((g, F1),): F1}, {})

    # ---- back to Sym --------------------------------------------------------
    def gsym(self, g):
        return self.gens[g][2]

    def psym(self, p):
        out = None
        for m, c in sorted(p.items()):
            t = const(c)
            neg = None
            for g, e in m:
                b = self.gsym(g)
                if e > 0:
                    t = t * _pow(b, e)
                else:
                    neg = _pow(b, -e) if neg is None else neg * _pow(b, -e)
            if neg is not None:
                t = t / neg
            out = t if out is None else out + t
        return const(0) if out is None else out

    def to_sym(self, r):
        n = self.psym(r.n)
        if not r.d:
            return n
        d = None
        for k, e in sorted(r.d.items()):
            a = _pow(self.psym(self.atoms[k]), Fraction(e))
            d = a if d is None else d * a
        return n / d

    def iszero(self, s):
        return not self.rat(s).n


def equal(a, b, facts=()):
    n = Norm(True, facts)
    return n.iszero(tosym(a) - tosym(b))
