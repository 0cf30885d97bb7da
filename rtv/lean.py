"""Lean 4 / Mathlib back end.

An obligation is turned into one Lean theorem whose *statement* is the plain
printing of the terms extracted from the executed code and of the contract, and
whose proof is generated from the (untrusted) normal forms of ``norm.py``.  Only
Lean's kernel decides.
"""

import os
import re
import subprocess
import tempfile
import time
from fractions import Fraction

from math import gcd

from .norm import F1, Norm, Rat, padd, pmul
from .term import Sym, Unsupported, const, fn, subterms, tosym, var, _pow

HEADER = """import Mathlib.Analysis.SpecialFunctions.Trigonometric.Deriv
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Inverse
import Mathlib.Analysis.SpecialFunctions.Log.Deriv
import Mathlib.Analysis.SpecialFunctions.Sqrt
import Mathlib.Analysis.SpecialFunctions.ExpDeriv
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.Positivity
import Mathlib.Tactic.Ring
import Mathlib.Data.Real.Sign
set_option linter.all false
set_option maxHeartbeats 1600000
set_option maxRecDepth 10000
theorem rtv_sqrt (b k Q q : ℝ) (hQ : Q ^ 2 = q) (h0 : 0 ≤ k * Q) (hb : b = k ^ 2 * q) : Real.sqrt b = k * Q := by
  rw [hb, ← hQ, ← mul_pow, Real.sqrt_sq h0]
theorem rtv_sqrt_pow (s k Q q kp : ℝ) (j : ℕ) (h : s = k * Q) (hQ : Q ^ 2 = q) (hk : k ^ (2 * j + 1) * q ^ j = kp) :
    s ^ (2 * j + 1) = kp * Q := by
  rw [h, ← hk, ← hQ]; ring
theorem rtv_sqrt_inv (s k Q q kp : ℝ) (m j : ℕ) (hm : m + 1 = 2 * j) (h : s = k * Q) (hQ : Q ^ 2 = q)
    (hk : kp * k ^ m * q ^ j = 1) : (s ^ m)⁻¹ = kp * Q := by
  symm; apply eq_inv_of_mul_eq_one_left
  rw [h, ← hk, ← hQ, ← pow_mul, ← hm, mul_pow, pow_succ]; ring
"""

_KNOWN = {"exp": "Real.exp", "cos": "Real.cos", "sin": "Real.sin", "log": "Real.log",
          "arccos": "Real.arccos", "abs": "abs", "arcsin": "Real.arcsin", "arctan": "Real.arctan"}


def num(c):
    c = Fraction(c)
    s = f"({abs(c.numerator)}:ℝ)"
    if c.denominator != 1:
        s = f"({s}/{c.denominator})"
    return f"(-{s})" if c < 0 else s


def lname(n):
    n = re.sub(r"[^A-Za-z0-9_]", "_", n)
    return "v_" + n


class Printer:
    def __init__(self, over=None):
        self.over = over or {}  # Sym -> lean text
        self.memo = {}
        self.ufs = {}
        self.vars = set()

    def __call__(self, s):
        r = self.memo.get(s)
        if r is None:
            r = self._p(s)
            self.memo[s] = r
        return r

    def _p(self, s):
        if s in self.over:
            return self.over[s]
        op = s.op
        if op == "c":
            return num(s.args[0])
        if op == "v":
            if s.args[0] == "pi":
                return "Real.pi"
            self.vars.add(s.args[0])
            return lname(s.args[0])
        if op == "f":
            n = s.args[0]
            a = [self(x) for x in s.args[1:]]
            if n in _KNOWN:
                return f"({_KNOWN[n]} {' '.join(a)})"
            self.ufs[n] = len(a)
            return f"(F_{n} {' '.join(a)})"
        if op == "^":
            e = s.args[1]
            b = self(s.args[0])
            if e.denominator == 1:
                n = int(e)
                return f"({b} ^ {n})" if n >= 0 else f"(({b} ^ {-n})⁻¹)"
            if e.denominator == 2:
                n = e.numerator
                r = f"(Real.sqrt {b})"
                if n == 1:
                    return r
                return f"({r} ^ {n})" if n >= 0 else f"(({r} ^ {-n})⁻¹)"
            raise Unsupported(f"power {e} in Lean")
        return f"({self(s.args[0])} {op} {self(s.args[1])})"



class _PlainPrinter(Printer):
    def _p(self, s):
        if s.op == "v" and s.args[0].startswith("@"):
            return s.args[0][1:]
        return super()._p(s)


def isapp(t):
    return t.op == "f" or (t.op == "^" and t.args[1].denominator != 1)


class Theorem:
    """one Lean theorem under construction.

    hyps: list of (kind, Sym[, Sym]) with kind in pos | ne | nonneg | le | lt | eq
    """

    def __init__(self, name, hyps=(), over=None):
        self.name = name
        self.pr = Printer(over)
        self.hyps = list(hyps)
        self.lines = []
        self.lemmas = []
        self.extra = []  # (name, text): definedness hypotheses added by the generator
        self._extra_seen = {}
        self._eqs = {}
        self.extra_binders = []
        self._busy = False
        self.k = 0

    def fresh(self, p):
        self.k += 1
        return f"{p}{self.k}"

    # ---- context ----------------------------------------------------------
    def is_pos(self, s):
        return any(k == "pos" and h is s for k, h, *_ in self.hyps)

    def ne_of(self, s):
        """proof term of (printed s) ≠ 0"""
        p = self.pr(s)
        for i, (k, h, *_) in enumerate(self.hyps):
            if h is s and k == "ne":
                return f"hy{i}"
            if h is s and k == "pos":
                return f"(ne_of_gt hy{i})"
        if s.op == "f" and s.args[0] == "exp":
            return "(Real.exp_ne_zero _)"
        if s.op == "v" and s.args[0] == "pi":
            return "Real.pi_ne_zero"
        if s.op == "f" and s.args[0] == "log" and s.args[1].op == "c" and s.args[1].args[0] > 1:
            return "(ne_of_gt (Real.log_pos (by norm_num)))"
        if s.op == "^" and s.args[1] == Fraction(1, 2) and self.is_pos(s.args[0]):
            i = [j for j, h in enumerate(self.hyps) if h[0] == "pos" and h[1] is s.args[0]][0]
            return f"(ne_of_gt (Real.sqrt_pos.mpr hy{i}))"
        # positivity
        if self._syn_pos(s):
            return "(ne_of_gt (by positivity))"
        if self._busy:
            return self.assume_ne(s)
        self._busy = True
        try:
            r = self._scaled(s, ("pos", "ne"))
        finally:
            self._busy = False
        if r:
            c, k, src, e = r
            src = f"(ne_of_gt {src})" if k == "pos" else src
            return f"(by rw [{e}]; exact mul_ne_zero (by norm_num) {src})"
        return self.assume_ne(s)

    def assume_ne(self, s):
        if s not in self._extra_seen:
            n = f"dx{len(self.extra)}"
            self._extra_seen[s] = n
            self.extra.append((n, f"{self.pr(s)} ≠ 0", s))
        return self._extra_seen[s]

    def _syn_pos(self, s):
        if self.is_pos(s):
            return True
        if s.op == "c":
            return s.args[0] > 0
        if s.op == "v":
            return s.args[0] == "pi"
        if s.op == "f":
            return s.args[0] == "exp"
        if s.op in "*/+":
            return self._syn_pos(s.args[0]) and self._syn_pos(s.args[1])
        if s.op == "^":
            return self._syn_pos(s.args[0])
        return False

    # ---- identities -------------------------------------------------------
    def prove_eq(self, lhs, rhs):
        """adds the lemmas and returns the name of a `have` for lhs = rhs"""
        lhs, rhs = tosym(lhs), tosym(rhs)
        key = (lhs, rhs)
        if key in self._eqs:
            return self._eqs[key]
        h = self.fresh("e")
        if self.pr(lhs) == self.pr(rhs):
            self.lines.append(f"  have {h} : {self.pr(lhs)} = {self.pr(rhs)} := rfl")
            self._eqs[key] = h
            return h
        call = self._core(lhs, rhs)
        self.lines.append(f"  have {h} : {self.pr(lhs)} = {self.pr(rhs)} := {call}")
        self._eqs[key] = h
        return h

    def _core(self, lhs, rhs):
        N = Norm(True, logsplit=False)
        for k, hsym, *_ in self.hyps:
            if k == "pos":
                N.pos_syms.add(hsym)
        if N.rat(lhs - rhs).n:
            raise NotEqual(lhs, rhs)
        _scale_exp(N)
        gsyms, gvar = {}, {}

        def gv(g):
            if g not in gvar:
                v = var(f"@g{len(gvar)}")
                gvar[g] = v
                gsyms[v] = g
            return gvar[g]

        def ppoly(p):
            out = None
            for m, c in sorted(p.items()):
                t, d = const(c), None
                for g, e in m:
                    if e.denominator != 1:
                        raise Unsupported("fractional power of an atom")
                    b = gv(g)
                    if e > 0:
                        t = t * _pow(b, e)
                    else:
                        d = _pow(b, -e) if d is None else d * _pow(b, -e)
                if d is not None:
                    t = t / d
                out = t if out is None else out + t
            return const(0) if out is None else out

        def prat(r):
            n = ppoly(r.n)
            d = None
            for k, e in sorted(r.d.items()):
                a = _pow(ppoly(N.atoms[k]), Fraction(e))
                d = a if d is None else d * a
            return n if d is None else n / d

        appvar = {}  # app Sym -> (plain var, canonical Rat, plain canonical)

        def plain(s, memo, final):
            """final: applications replaced by their canonical polynomials"""
            if s in memo:
                return memo[s]
            if s.op == "c":
                r = s
            elif s.op == "v":
                r = gv(N.gen("v", s.args[0], s))
            elif isapp(s):
                rr = N.rat(s)
                one = len(rr.n) == 1 and not rr.d
                same = False
                if one:
                    ((m, c),) = rr.n.items()
                    same = c == 1 and len(m) == 1 and m[0][1] == 1 and N.gens[m[0][0]][2] is s
                if same:
                    r = gv(m[0][0])
                elif final:
                    r = prat(rr)
                else:
                    if s not in appvar:
                        appvar[s] = (var(f"@a{len(appvar)}"), rr, prat(rr))
                    r = appvar[s][0]
                    # an application power such as sqrt(P)^3
            elif s.op == "^":
                r = _pow(plain(s.args[0], memo, final), s.args[1])
            else:
                a, b = plain(s.args[0], memo, final), plain(s.args[1], memo, final)
                from .term import _bin

                r = _bin(s.op, a, b)
            memo[s] = r
            return r

        m1, m2 = {}, {}
        L0, R0 = plain(lhs, m1, False), plain(rhs, m1, False)
        L, R = plain(lhs, m2, True), plain(rhs, m2, True)
        M = Norm(False)
        diff = M.rat(L - R)
        mono, n1 = M.content(diff.n) if diff.n else ((), {})
        cof = {}
        rest = dict(n1)
        sq = [(v, g) for v, g in gsyms.items() if g in N.sq]
        sqp = {}
        for v, g in sq:
            P = ppoly(N.sq[g])
            sqp[v] = P
        sq = [(v, g) for v, g in gsyms.items() if g in N.sq]
        progress = True
        while rest and progress:
            progress = False
            for v, g in sq:
                if v not in sqp:
                    sqp[v] = ppoly(N.sq[g])
                gi = M.gen("v", v.args[0], v)
                P = M.rat(sqp[v])
                if P.d:
                    raise Unsupported("square with denominator")
                while True:
                    hit = next((m for m in rest if dict(m).get(gi, 0) >= 2), None)
                    if hit is None:
                        break
                    progress = True
                    c = rest[hit]
                    d = dict(hit)
                    d[gi] -= 2
                    low = tuple(sorted((a, b) for a, b in d.items() if b))
                    cof[v] = padd(cof.get(v, {}), {low: c})
                    rest = padd(rest, {hit: -c})
                    rest = padd(rest, pmul({low: c}, P.n))
        if rest:
            raise Unsupported("certificate construction failed")
        pp = _PlainPrinter()
        dens = []
        for t in subterms(L) | subterms(R):
            if t.op == "/":
                dens.append(t.args[1])
            elif t.op == "^" and t.args[1] < 0:
                dens.append(t.args[0])
        for b in list(dens):
            todo = [b]
            while todo:
                x = todo.pop()
                if x.op == "^" and x.args[1] > 0:
                    dens.append(x.args[0])
                    todo.append(x.args[0])
                elif x.op in "*/":
                    dens += x.args
                    todo += x.args
        dens = [b for b in dict.fromkeys(dens) if b.op != "c"]
        dens.sort(key=lambda b: len(subterms(b)))
        ne_g, ne_a, denp = set(), set(), []
        for b in dens:
            r = M.rat(b)
            c, mo, fa = M.factor(r.n)
            ne_g |= {g for g, e in mo}
            ne_a |= set(fa) | set(r.d)
            denp.append((b, r, c, mo, fa))
        ne_g |= {g for g, e in mono if e < 0}
        ne_a |= set(diff.d)
        # atoms of M are polynomials in the plain variables
        allv = {t for x in (L0, R0, L, R) for t in subterms(x) if t.op == "v"}
        hyps, args = [], []  # binder text / actual proof at the call site
        ne = {}
        back = {v: N.gens[g][2] for v, g in gsyms.items()}

        def real(s):
            from .term import subst

            return subst(s, back)

        for g in sorted(ne_g):
            v = M.gens[g][2]
            allv.add(v)
            ne["g", g] = f"n_{v.args[0][1:]}"
            hyps.append((ne["g", g], f"{pp(v)} ≠ 0"))
            args.append(self.ne_of(back[v]))
        for k in sorted(ne_a):
            a = M.psym(M.atoms[k])
            allv |= {t for t in subterms(a) if t.op == "v"}
            ne["a", k] = f"n_A{k}"
            hyps.append((ne["a", k], f"{pp(a)} ≠ 0"))
            args.append(self.ne_atom(real(a)))
        for v in cof:
            a = sqp[v]
            allv |= {v} | {t for t in subterms(a) if t.op == "v"}
            hyps.append((f"s_{v.args[0][1:]}", f"{pp(v)} ^ 2 = {pp(a)}"))
            args.append(self.square_fact(N, gsyms[v], real(a)))
        for s, (v, rr, pl) in appvar.items():
            allv |= {t for t in subterms(pl) if t.op == "v"}
        for s, (v, rr, pl) in appvar.items():
            hyps.append((f"h_{v.args[0][1:]}", f"{pp(pl)} = {pp(v)}"))
            args.append(f"(Eq.symm {self.app_eq(N, s, rr, real(pl))})")
        vs = sorted(allv, key=lambda v: v.args[0])
        back2 = dict(back)
        back2.update({v: s for s, (v, _, _) in appvar.items()})
        nm = f"{self.name}_c{len(self.lemmas)}"
        T = [f"theorem {nm}"]
        T += [f" ({v.args[0][1:]} : ℝ)" for v in vs]
        T += [f" ({h} : {t})" for h, t in hyps]
        T = ["".join(T) + f" :\n    {pp(L0)} = {pp(R0)} := by"]
        if appvar:
            T.append("  subst " + " ".join(f"h_{v.args[0][1:]}" for _, (v, _, _) in appvar.items()))

        # every denominator is rewritten to a product of the atoms A_k, which are
        # generalised to variables while the fractions are cleared
        atoms = sorted(ne_a)
        for k in atoms:
            T.append(f"  obtain ⟨A{k}, hA{k}⟩ : ∃ y, y = {pp(M.psym(M.atoms[k]))} := ⟨_, rfl⟩")
            T.append(f"  rw [← hA{k}] at n_A{k}")
        un = ("simp only [" + ", ".join(f"hA{k}" for k in atoms) + "]; ") if atoms else ""
        un2 = f"(try {un[:-2]}) <;> " if atoms else ""
        fin = f"all_goals (first | ({un2}ring1) | (field_simp; done) | (field_simp; {un2}ring1))"

        def facform(mo, fa, c):
            parts = [num(c)] if c != 1 else []
            for g, e in mo:
                b = pp(M.gens[g][2])
                parts.append(b if e == 1 else f"{b} ^ {int(e)}")
            for k, e in sorted(fa.items()):
                parts.append(f"A{k}" if e == 1 else f"A{k} ^ {e}")
            return " * ".join(f"({p})" for p in parts) if parts else "(1:ℝ)"

        names = []
        for i, (b, r, c, mo, fa) in enumerate(denp):
            if b.op == "v":
                continue
            pos = tuple((g, e) for g, e in mo if e > 0)
            neg = tuple((g, -e) for g, e in mo if e < 0)
            rhs = facform(pos, fa, c)
            if neg or r.d:
                rhs = f"({rhs}) / ({facform(neg, r.d, F1)})"
            pre = "".join(f"(try rw [{x}]); " for x in reversed(names)) if any(t.op == "/" or (t.op == "^" and t.args[1] < 0) for t in subterms(b)) else ""
            T.append(f"  have d{i} : {pp(b)} = {rhs} := by")
            T.append(f"    {pre}{fin}")
            names.append(f"d{i}")
        rws = "".join(f"(try rw [{x}]); " for x in reversed(names))
        if not cof:
            if dens:
                T.append(f"  {rws}{fin}")
            else:
                T.append("  ring")
        else:
            negm = tuple((g, -e) for g, e in mono if e < 0)
            posm = tuple((g, e) for g, e in mono if e > 0)
            n1s = M.psym(n1)
            comb = " + ".join(
                f"({pp(M.psym(q))}) * s_{v.args[0][1:]}" for v, q in cof.items()
            )
            T.append(f"  have hN : {pp(n1s)} = 0 := by linear_combination {comb}")
            T.append(
                f"  have key : ({pp(L)}) - ({pp(R)}) = ({facform(posm, {}, F1)}) * "
                f"({pp(n1s)}) / ({facform(negm, diff.d, F1)}) := by"
            )
            T.append(f"    clear hN; {rws}{fin}")
            T.append("  rw [hN, mul_zero, zero_div] at key")
            T.append("  exact sub_eq_zero.mp key")
        self.lemmas.append("\n".join(T))
        actual = " ".join(self.pr(back2[v]) for v in vs)
        return f"{nm} {actual} " + " ".join(args)

    def ne_atom(self, s):
        if self._syn_pos(s):
            return "(ne_of_gt (by positivity))"
        for i, (k, h, *_) in enumerate(self.hyps):
            if k not in ("ne", "pos"):
                continue
            # the atom is the hypothesis' term up to a rational factor
            n = Norm(True, logsplit=False)
            try:
                q = n.rat(h / s)
            except Unsupported:
                continue
            if len(q.n) == 1 and not q.d and list(q.n) == [()]:
                c = q.n[()]
                if h is s:
                    return f"hy{i}" if k == "ne" else f"(ne_of_gt hy{i})"
                e = self.prove_eq(h, const(c) * s)
                src = f"hy{i}" if k == "ne" else f"(ne_of_gt hy{i})"
                return f"(fun h0 => {src} (by rw [{e}, h0{', mul_zero' if c != 1 else ''}]))"
        return self.assume_ne(s)

    def square_fact(self, N, g, P):
        kind, data, sym = N.gens[g]
        if kind == "sin":
            x = self.pr(sym.args[1])
            return f"(by have := Real.sin_sq_add_cos_sq {x}; linarith)"
        if kind == "rt":
            base = sym.args[0]
            e = self.prove_eq(base, P) if base is not P else None
            return f"(by rw [Real.sq_sqrt {self.nonneg_of(base)}]{'; exact ' + e if e else ''})"
        raise Unsupported(f"square of {kind}")

    def nonneg_of(self, s):
        for i, (k, h, *_) in enumerate(self.hyps):
            if k in ("pos", "nonneg"):
                if h is s:
                    return f"hy{i}" if k == "nonneg" else f"(le_of_lt hy{i})"
        for i, (k, h, *_) in enumerate(self.hyps):
            if k in ("pos", "nonneg"):
                n = Norm(True, logsplit=False)
                if not n.rat(h - s).n:
                    e = self.prove_eq(s, h)
                    src = f"hy{i}" if k == "nonneg" else f"(le_of_lt hy{i})"
                    return f"(by rw [{e}]; exact {src})"
        if self._syn_pos(s):
            return "(by positivity)"
        r = self._scaled(s, ("pos", "nonneg"))
        if r:
            c, k, src, e = r
            src = f"(le_of_lt {src})" if k == "pos" else src
            return f"(by rw [{e}]; exact mul_nonneg (by norm_num) {src})"
        raise Unsupported(f"cannot show {s} >= 0")

    def _scaled(self, s, kinds):
        """s = c * h for a hypothesis h on the sign of h, c > 0 rational"""
        for i, (k, h, *_) in enumerate(self.hyps):
            if k not in kinds or k not in ("pos", "nonneg", "ne"):
                continue
            n = Norm(True, logsplit=False)
            a, b = n.rat(s), n.rat(h)
            if not a.n or not b.n or set(a.n) != set(b.n) or a.d != b.d:
                continue
            m = next(iter(a.n))
            c = a.n[m] / b.n[m]
            if c <= 0 or n.rat(s - const(c) * h).n:
                continue
            return c, k, f"hy{i}", self.prove_eq(s, const(c) * h)
        return None

    def app_eq(self, N, s, rr, canon):
        """name of a have:  printed s = printed canon"""
        key = (s, canon)
        if key in self._eqs:
            return self._eqs[key]
        P = self.pr
        L, R = P(s), P(canon)
        if s.op == "^":  # x ** (k/2)
            body = self._sqrt_eq(N, s, rr, canon)
        else:
            name = s.args[0]
            if name == "exp":
                body = self._exp_eq(N, s, rr, canon)
            elif name in ("cos", "sin"):
                body = self._trig_eq(N, s, canon)
            elif name == "arccos" and s.args[1].op == "f" and s.args[1].args[0] == "cos":
                t = s.args[1].args[1]
                lo = [i for i, h in enumerate(self.hyps) if h[0] == "nonneg" and h[1] is t]
                hi = [i for i, h in enumerate(self.hyps) if h[0] == "le" and h[1] is t and h[2] is var("pi")]
                if not lo or not hi:
                    raise Unsupported("arccos (cos t) without 0 <= t <= pi")
                e = "" if canon is t else f".trans {self.prove_eq(t, canon)}"
                body = f"(Real.arccos_cos hy{lo[0]} hy{hi[0]}){e}"
            else:
                if canon.op != "f":
                    raise Unsupported(f"canonical form of {name}")
                es = []
                for a, b in zip(s.args[1:], canon.args[1:]):
                    if a is not b:
                        es.append(self.prove_eq(a, b))
                body = "by rw [" + ", ".join(dict.fromkeys(es)) + "]"
        h = self.fresh("q")
        self.lines.append(f"  have {h} : {L} = {R} := {body}")
        self._eqs[key] = h
        return h

    def _exp_eq(self, N, s, rr, canon):
        # canon = prod gen_exp^k   (k integer, possibly negative)
        if len(rr.n) != 1 or rr.d:
            raise Unsupported("exp normal form")
        ((m, c),) = rr.n.items()
        if c != 1:
            raise Unsupported("exp normal form")
        tot = None
        parts = []
        for g, e in m:
            kind, data, sym = N.gens[g]
            if kind != "exp":
                raise Unsupported("exp of a logarithm in Lean")
            parts.append((sym, int(e)))
        tot = const(0)
        for sym, e in parts:
            tot = tot + const(e) * sym.args[1]
        ea = self.prove_eq(s.args[1], tot)
        P = self.pr
        # exp(sum k_i x_i) = prod exp(x_i)^k_i by a generic lemma
        L = [f"by\n    rw [{ea}]"]
        # build:  exp(k x) = exp x ^ k
        acc = None
        for sym, e in parts:
            x = sym.args[1]
            kx = const(e) * x
            piece = _pow(sym, Fraction(e))
            h = self.fresh("x")
            if e == 1:
                pf = "by rfl" if P(kx) == P(x) else "by ring_nf"
                pf = "rfl"
            elif e > 0:
                pf = f"by rw [← Real.exp_nat_mul]; norm_num"
            elif e == -1:
                pf = f"by rw [← Real.exp_neg]; congr 1; ring"
            else:
                pf = f"by rw [← Real.exp_nat_mul, ← Real.exp_neg]; congr 1; push_cast; ring"
            if e > 0:
                rhs = P(piece)
            else:
                rhs = f"({P(_pow(sym, Fraction(-e)))})⁻¹"
            self.lines.append(f"  have {h} : Real.exp {P(kx)} = {rhs} := {pf}")
            if acc is None:
                acc = (kx, h, rhs)
            else:
                s2 = acc[0] + kx
                h2 = self.fresh("x")
                r2 = f"({acc[2]} * {rhs})"
                self.lines.append(
                    f"  have {h2} : Real.exp {P(s2)} = {r2} := by rw [Real.exp_add, {acc[1]}, {h}]"
                )
                acc = (s2, h2, r2)
        R = P(canon)
        if acc is None:
            return f"by rw [{ea}]; simp"
        return f"by rw [{ea}, {acc[1]}]; first | done | ring1 | (field_simp; done) | (field_simp; ring1)"

    def _trig_eq(self, N, s, canon):
        name, arg = s.args
        x = N.rat(arg)
        if x.d or (len(x.n) == 1 and canon.op == "f"):
            # a single atom in canonical form
            if canon.op == "f":
                return f"by rw [{self.prove_eq(arg, canon.args[1])}]"
        # re-run the splitting of Norm.trig
        pi_m = None
        for m, c in x.n.items():
            if len(m) == 1 and m[0][1] == 1 and N.gens[m[0][0]][:2] == ("v", "pi"):
                pi_m = m
        tot = None
        for m, c in sorted(x.n.items()):
            t = N.to_sym(Rat({m: c}, {}))
            if m != pi_m and c.denominator == 1 and abs(c) <= 6 and m:
                t = N.to_sym(Rat({m: Fraction(1)}, {}))
                sg = 1 if c > 0 else -1
                for _ in range(int(abs(c))):
                    u = t if sg > 0 else const(-1) * t
                    tot = u if tot is None else tot + u
                continue
            tot = t if tot is None else tot + t
        e = self.prove_eq(arg, tot)
        return (
            f"by rw [{e}]; simp only [neg_mul, one_mul, Real.cos_add, Real.sin_add, Real.cos_pi, Real.sin_pi, "
            "Real.cos_neg, Real.sin_neg, Real.cos_pi_div_two, Real.sin_pi_div_two]; first | done | ring1"
        )

    def _sqrt_eq(self, N, s, rr, canon):
        """sqrt(b)^n = kp * Q with Q the product of the canonical root(s)"""
        base, e = s.args
        n = e.numerator
        P = self.pr

        def split(r):
            roots = None
            out = {}
            for m, c in r.n.items():
                rs = tuple(sorted(g for g, _ in m if N.gens[g][0] == "rt"))
                if any(x != 1 for g, x in m if N.gens[g][0] == "rt") or (roots is not None and rs != roots):
                    raise Unsupported("square root normal form")
                roots = rs
                out[tuple(x for x in m if N.gens[x[0]][0] != "rt")] = c
            return roots or (), N.to_sym(Rat(out, dict(r.d)))
        u = N.rat(_pow(base, Fraction(1, 2)))
        roots, kap = split(u)
        roots2, kp = split(rr)
        if roots != roots2:
            raise Unsupported("square root normal form")
        rsyms = [N.gens[g][2] for g in roots]
        qsyms = [x.args[0] for x in rsyms]
        one = "(1:ℝ)"
        Q = "(" + " * ".join(P(x) for x in rsyms) + ")" if rsyms else one
        q = const(1)
        for x in qsyms:
            q = q * x
        qt = "(" + " * ".join(P(x) for x in qsyms) + ")" if qsyms else one
        nn = [f"Real.sq_sqrt {self.nonneg_of(x)}" for x in qsyms]
        hQ = "(one_pow 2)" if not nn else f"({nn[0]})" if len(nn) == 1 else f"(by simp only [mul_pow]; rw [{', '.join(nn)}])"
        E1 = self.prove_eq(base, kap * kap * q)
        k = P(kap)
        h0 = f"(by first | positivity | exact mul_nonneg {self._nonneg_try(kap)} (by positivity))"
        h = self.fresh("r")
        self.lines.append(f"  have {h} : Real.sqrt {P(base)} = {k} * {Q} := rtv_sqrt _ {k} {Q} {qt} {hQ} {h0} ({E1}.trans (by ring1))")
        canon_t = f"(by ring1 : {P(kp)} * {Q} = {P(canon)})"
        if n > 0:
            j = (n - 1) // 2
            t = const(1)
            for _ in range(j):
                t = t * q
            E2 = self.prove_eq(_pow(kap, Fraction(n)) * t, kp)
            if n == 1:
                return f"({h}.trans (by rw [show {k} = {P(kp)} from (show {k} = {P(_pow(kap, Fraction(1)) * t)} by ring1).trans {E2}])).trans {canon_t}"
            return (f"(rtv_sqrt_pow _ {k} {Q} {qt} {P(kp)} {j} {h} {hQ} ((show _ = {P(_pow(kap, Fraction(n)) * t)} by ring1).trans {E2})).trans {canon_t}")
        m = -n
        j = (m + 1) // 2
        t = kp * _pow(kap, Fraction(m))
        for _ in range(j):
            t = t * q
        E3 = self.prove_eq(t, const(1))
        return (f"(rtv_sqrt_inv _ {k} {Q} {qt} {P(kp)} {m} {j} (by norm_num) {h} {hQ} ((show _ = {P(t)} by ring1).trans {E3})).trans {canon_t}")

    def _nonneg_try(self, s):
        try:
            return self.nonneg_of(s)
        except Unsupported:
            return "(by positivity)"

    # ---- derivatives ------------------------------------------------------
    def prove_deriv(self, x, f, fp, opaque=None):
        """have h : HasDerivAt (fun x => f) fp x0   (x: variable Sym)

        opaque: app Sym -> (lean function name, derivative Sym, have-name)
        """
        self.opaque = opaque or {}
        xn = self.pr(x)
        memo = {}
        h, d = self._deriv(x, f, memo)
        hn = self.fresh("hd")
        if d is fp:
            self.lines.append(f"  have {hn} : HasDerivAt (fun {xn} => {self.pr(f)}) {self.pr(fp)} {xn} := {h}")
        else:
            e = self.prove_eq(d, fp)
            self.lines.append(
                f"  have {hn} : HasDerivAt (fun {xn} => {self.pr(f)}) {self.pr(fp)} {xn} := {h}.congr_deriv {e}"
            )
        return hn

    def _deriv(self, x, f, memo):
        if f in memo:
            return memo[f]
        P, xn = self.pr, self.pr(x)
        fun = lambda s: f"(fun {xn} => {P(s)})"
        dep = x in subterms(f) or any(t in self.opaque for t in subterms(f))

        def emit(s, d, pf):
            h = self.fresh("D")
            self.lines.append(f"  have {h} : HasDerivAt {fun(s)} {P(d)} {xn} := {pf}")
            memo[s] = (h, d)
            return memo[s]

        if f in self.opaque:
            _, d, hn = self.opaque[f]
            memo[f] = (hn, d)
            return memo[f]
        if not dep:
            return emit(f, const(0), f"(hasDerivAt_const {xn} {P(f)}).congr_deriv (by norm_num)")
        if f is x:
            return emit(f, const(1), f"(hasDerivAt_id' {xn}).congr_deriv (by norm_num)")
        op = f.op
        if op in "+-*/":
            a, b = f.args
            ha, da = self._deriv(x, a, memo)
            hb, db = self._deriv(x, b, memo)
            if op == "+":
                raw, d, pf = f"({P(da)} + {P(db)})", da + db, f"{ha}.add {hb}"
            elif op == "-":
                raw, d, pf = f"({P(da)} - {P(db)})", da - db, f"{ha}.sub {hb}"
            elif op == "*":
                raw = f"({P(da)} * {P(b)} + {P(a)} * {P(db)})"
                d, pf = da * b + a * db, f"{ha}.mul {hb}"
            else:
                raw = f"(({P(da)} * {P(b)} - {P(a)} * {P(db)}) / {P(b)} ^ 2)"
                d = (da * b - a * db) / _pow(b, Fraction(2))
                pf = f"{ha}.div {hb} {self._ne_expr(b)}"
            if P(d) != raw:
                # constant folding of zeros and ones: plain ring fact
                return emit(f, d, f"({pf}).congr_deriv (by first | ring1 | simp)")
            return emit(f, d, f"({pf})")
        if op == "^":
            a, e = f.args
            ha, da = self._deriv(x, a, memo)
            if e.denominator == 1 and e > 0:
                n = int(e)
                d = const(n) * _pow(a, Fraction(n - 1)) * da
                return emit(f, d, f"({ha}.pow {n}).congr_deriv (by first | (norm_num; done) | (push_cast; ring1) | ring1)")
            if e.denominator == 1:
                n = int(-e)
                ne = self._ne_expr(a)
                d = const(-n) * da / _pow(a, Fraction(n + 1))
                return emit(
                    f, d,
                    f"(({ha}.pow {n}).inv (pow_ne_zero _ {ne})).congr_deriv "
                    f"(by have hz := {ne}; field_simp <;> ring_nf)",
                )
            raise Unsupported("derivative of a root in Lean")
        if op == "f":
            n = f.args[0]
            a = f.args[1]
            ha, da = self._deriv(x, a, memo)
            if n == "exp":
                return emit(f, f * da, f"{ha}.exp.congr_deriv (by first | rfl | ring1 | simp)")
            if n == "cos":
                return emit(f, const(-1) * fn("sin", a) * da, f"{ha}.cos.congr_deriv (by first | ring1 | simp)")
            if n == "sin":
                return emit(f, fn("cos", a) * da, f"{ha}.sin.congr_deriv (by first | ring1 | simp)")
            if n == "log":
                ne = self._ne_expr(a)
                return emit(f, da / a, f"({ha}.log {ne}).congr_deriv (by first | rfl | ring1 | simp)")
        raise Unsupported(f"derivative of {f.op} {f.args[0]}")

    def _ne_expr(self, s):
        """proof of printed s ≠ 0 for an arbitrary expression"""
        for i, (k, h, *_) in enumerate(self.hyps):
            if h is s:
                if k == "ne":
                    return f"hy{i}"
                if k == "pos":
                    return f"(ne_of_gt hy{i})"
        if s.op == "c":
            return "(by norm_num)"
        if s.op == "v" or isapp(s):
            return self.ne_of(s)
        if s.op in "*/":
            f = "mul_ne_zero" if s.op == "*" else "div_ne_zero"
            return f"({f} {self._ne_expr(s.args[0])} {self._ne_expr(s.args[1])})"
        if s.op == "^" and s.args[1].denominator == 1:
            b = self._ne_expr(s.args[0])
            return f"(pow_ne_zero _ {b})" if s.args[1] > 0 else f"(inv_ne_zero (pow_ne_zero _ {b}))"
        if self._syn_pos(s):
            return "(ne_of_gt (by positivity))"
        return self.ne_atom(s)

    # ---- output -----------------------------------------------------------
    def text(self, statement, last):
        hy = []
        for i, h in enumerate(self.hyps):
            k, s = h[0], h[1]
            t = {
                "pos": lambda: f"0 < {self.pr(s)}",
                "ne": lambda: f"{self.pr(s)} ≠ 0",
                "nonneg": lambda: f"0 ≤ {self.pr(s)}",
                "le": lambda: f"{self.pr(s)} ≤ {self.pr(h[2])}",
                "lt": lambda: f"{self.pr(s)} < {self.pr(h[2])}",
                "eq": lambda: f"{self.pr(s)} = {self.pr(h[2])}",
            }[k]()
            hy.append(f"(hy{i} : {t})")
        hy += [f"({n} : {t})" for n, t, _ in self.extra]
        body = "\n".join(self.lines)
        vs = "".join(f" {lname(v)}" for v in sorted(self.pr.vars))
        vs = f" ({vs.strip()} : ℝ)" if vs else ""
        ufs = "".join(
            f" (F_{n} : {' → '.join(['ℝ'] * (a + 1))})" for n, a in sorted(self.pr.ufs.items())
        )
        eb = "".join(" " + b for b in self.extra_binders)
        out = "\n".join(self.lemmas)
        out += f"\ntheorem {self.name}{vs}{ufs}{eb}\n    {' '.join(hy)} :\n    {statement} := by\n{body}\n  exact {last}\n"
        return out


class NotEqual(Exception):
    pass


def _scale_exp(N):
    """choose exponential units such that all exponents become integers"""
    lcm = {}
    pools = [r.n for r in N.memo.values()] + list(N.atoms) + list(N.sq.values())
    for p in pools:
        for m in p:
            for g, e in m:
                if e.denominator != 1 and N.gens[g][0] == "exp":
                    L = lcm.get(g, 1)
                    lcm[g] = L * e.denominator // gcd(L, e.denominator)
    if not lcm:
        return
    for g, L in lcm.items():
        kind, (m, dk), sym = N.gens[g]
        N.gens[g] = (kind, (m, dk), fn("exp", N.to_sym(Rat({m: Fraction(1, L)}, dict(dk)))))

    def fix(p):
        return {tuple((g, e * lcm.get(g, 1)) for g, e in m): c for m, c in p.items()}

    for r in N.memo.values():
        r.n = fix(r.n)
    N.atoms[:] = [fix(a) for a in N.atoms]
    for g in list(N.sq):
        N.sq[g] = fix(N.sq[g])


def run_lean(text, timeout=600, keep=None):
    """returns (errors by theorem name, raw output, seconds)"""
    d = tempfile.mkdtemp(prefix="rtv_lean_")
    p = os.path.join(d, "Ob.lean")
    with open(p, "w") as f:
        f.write(text)
    if keep:
        with open(keep, "w") as f:
            f.write(text)
    t0 = time.time()
    try:
        r = subprocess.run(
            ["lean", p], capture_output=True, text=True, timeout=timeout, cwd=d
        )
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = "TIMEOUT", 124
    finally:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)
    return rc, out, time.time() - t0


def lean_id(n):
    return "t_" + re.sub(r"[^A-Za-z0-9]+", "_", n).strip("_")
