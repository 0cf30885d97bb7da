"""Obligation manager: collects the obligations of one property, lets Lean / z3
decide them, runs the bounded stand-ins on the real code, writes the evidence
and prints the verdict."""

import contextlib
import hashlib
import json
import math
import os
import pickle
import random
import re
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

import mpmath
import numpy as np

from . import lean, npproxy
from .term import Infeasible, Paths, Sym, SymFloat, Unsupported, const, evalf, free_vars, show, subst, subterms, tosym, var

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
AXIOMS_OK = {"propext", "Classical.choice", "Quot.sound"}


def uf_num(name, *args):
    """a deterministic positive smooth interpretation of an uninterpreted function"""
    h = hashlib.sha256(name.encode()).digest()
    v = mpmath.mpf(h[0]) / 256
    for i, a in enumerate(args):
        v += a * (mpmath.mpf(h[1 + i % 30]) / 200 + mpmath.mpf("0.21"))
    return mpmath.mpf("0.7") + mpmath.mpf("0.4") * mpmath.sin(v)


DOM = {"omega": (0.02, 0.9), "tau": (0.05, 2.0), "bsf": (0.05, 0.9), "NB": (0.05, 2.0), "I0": (0.3, 3.0)}


class HarnessLimit(BaseException):
    """something that the stand-ins of a harness do not provide"""


class Hang(BaseException):
    pass


_set_handler = signal.signal


@contextlib.contextmanager
def time_limit(seconds):
    """a case that does not end is noticed (the exception passes handlers of Exception)"""
    if threading.current_thread() is not threading.main_thread():
        yield
        return

    def late(*a):
        raise Hang()
    old = _set_handler(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, seconds, 2)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _set_handler(signal.SIGALRM, old)


class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []  # dict(name, where, status, backend, ...)
        self.theorems = []  # (index into obs, Theorem text, name)
        self.bounded = []
        self.viol = []
        self.known = []
        self.assumptions = []
        self.functions = set()
        self.samples = []
        self.solver = {}
        self.evals = 0
        self.distinct = set()
        self.bscope = []
        self.limit = 200  # seconds for a single case of a battery
        self.rng = random.Random(seed)
        self.nprng = np.random.default_rng(seed)
        self.deep = False
        self.libs = {}  # lemma library -> text

    # ------------------------------------------------------------- bookkeeping
    def assume(self, *txt):
        for t in txt:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def _ob(self, name, where, backend, **k):
        o = dict(name=name, where=where, backend=backend, status="open", **k)
        self.obs.append(o)
        for w in where.split(","):
            self.functions.add(w.strip())
        return o

    def undecided(self, name, where, why, backend="executor"):
        o = self._ob(name, where, backend)
        o["status"], o["why"] = "undecided", str(why)[:400]

    def violation(self, name, where, detail, failing_input=True):
        self.viol.append(dict(obligation=name, where=where, failing_input=failing_input, detail=detail))

    opaque_only = False      # the values in the obligations are opaque (no symbolic numbers)

    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------ symbolic execution
    def run(self, name, where, thunk, assume=(), expect_exc=False, maxpaths=64):
        """[(hyps, result, exception)] of the real code, or None (undecided)"""
        try:
            P = Paths(assume=list(assume), maxpaths=maxpaths)
            with npproxy.installed():
                out = P.run(thunk)
        except (Unsupported, RecursionError) as e:
            self.undecided(name, where, f"unsupported: {e}")
            return None
        except Exception as e:
            self.undecided(name, where, f"executor: {type(e).__name__}: {e}")
            return None
        res = []
        for trail, r, ex in out:
            hy = [relhyp(*t) for t in list(assume) + trail]
            hy = [h for h in hy if h is not None]
            if ex is not None and not expect_exc:
                why = f"the code raised {type(ex).__name__}: {ex} under {trail}"
                if self.opaque_only and self._fails(thunk):
                    self.fact(name, where, False, why + " (also for ordinary values)")
                else:
                    self.undecided(name, where, why)
                return None
            res.append((hy, r, ex))
        return res

    def _fails(self, thunk):
        """the code raises an exception also if the opaque values are ordinary numbers"""
        from . import opaque
        try:
            with opaque.concrete():
                thunk()
        except (Unsupported, HarnessLimit):
            return False
        except Exception:
            return True
        return False

    # --------------------------------------------------------------- sampling
    def envs(self, terms, hyps, dom=None, n=3, tries=400):
        dom = {**DOM, **(dom or {})}
        vs = sorted(set().union(*[free_vars(tosym(t)) for t in terms], *[free_vars(x) for h in hyps for x in h[1:]]) if terms else set())
        rng = random.Random(self.seed * 7919 + 13)
        got = []
        for _ in range(tries):
            env = {}
            for v in vs:
                lo, hi = dom.get(v, dom.get(re.sub(r"\d+$", "", v), (0.1, 1.3)))
                env[v] = mpmath.mpf(rng.uniform(lo, hi))
            for h in hyps:
                # equality hypotheses fix a variable
                if h[0] == "eq" and h[1].op == "v":
                    env[h[1].args[0]] = evalf(h[2], env, uf_num)
            try:
                if all(holds(h, env) for h in hyps):
                    got.append(env)
            except Exception:
                pass
            if len(got) >= n:
                break
        return got

    # ------------------------------------------------------------ obligations
    def eq(self, name, where, code, spec, hyps=(), dom=None, replay=None, extra=None):
        """every component of code equals the component of spec"""
        code, spec = flat(code), flat(spec)
        if len(code) != len(spec):
            o = self._ob(name, where, "shape")
            o["status"] = "refuted"
            o["why"] = f"{len(code)} components instead of {len(spec)}"
            self._refuted(o, dict(got=[str(c)[:300] for c in code], want=[str(c)[:300] for c in spec]), replay, None)
            return
        many = len(code) > 1
        for i, (c, s) in enumerate(zip(code, spec)):
            self._eq1(f"{name}[{i}]" if many else name, where, c, s, list(hyps), dom, replay, extra)

    def _num_differs(self, c, s, envs):
        for env in envs:
            try:
                with mpmath.workdps(30):
                    a, b = evalf(c, env, uf_num), evalf(s, env, uf_num)
            except (KeyError, ZeroDivisionError, ValueError, TypeError):
                continue
            if not (mpmath.isfinite(a) and mpmath.isfinite(b)):
                continue
            if abs(a - b) > mpmath.mpf("1e-9") * (1 + abs(a) + abs(b)):
                return env, a, b
        return None

    def _eq1(self, name, where, c, s, hyps, dom, replay, extra=None):
        o = self._ob(name, where, "lean")
        try:
            c, s = tosym(c), tosym(s)
        except Exception as e:
            o["status"], o["why"] = "undecided", f"not a term: {type(c)} {e}"
            return
        envs = self.envs([c, s], hyps, dom)
        if not envs:
            o["status"], o["why"] = "undecided", "no point satisfying the hypotheses was found"
            return
        d = self._num_differs(c, s, envs)
        if d:
            env, a, b = d
            o["status"] = "refuted"
            self._refuted(o, dict(point={k: float(v) for k, v in env.items()}, code_value=float(mpmath.re(a)), contract_value=float(mpmath.re(b)),
                                  code_term=show(c)[:1500], contract_term=show(s)[:1500]), replay, env)
            return
        try:
            T = lean.Theorem(lean_name(self.pid, name), hyps=hyps)
            st = f"{T.pr(c)} = {T.pr(s)}"
            if extra:
                extra(T)
            h = T.prove_eq(c, s)
            self._guard_extra(o, T, envs, hyps)
            self._queue(o, T.text(st, h), T.name)
        except lean.NotEqual as e:
            o["status"], o["why"] = "undecided", f"normal forms differ: {str(e)[:200]}"
        except (Unsupported, RecursionError, ArithmeticError, KeyError) as e:
            o["status"], o["why"] = "undecided", f"{type(e).__name__}: {str(e)[:200]}"
        except Exception as e:
            o["status"], o["why"] = "undecided", f"generator: {type(e).__name__}: {str(e)[:200]}"

    def _guard_extra(self, o, T, envs, hyps):
        """definedness side conditions must be satisfiable together with the hypotheses"""
        if T.extra:
            o["side_conditions"] = [f"{show(s)} != 0" for _, _, s in T.extra]
            ok = False
            for env in envs:
                try:
                    if all(abs(evalf(s, env, uf_num)) > 1e-12 for _, _, s in T.extra):
                        ok = True
                except Exception:
                    pass
            if not ok:
                raise Unsupported("side conditions are not satisfiable at the sampled points")

    def deriv(self, name, where, x, f, fp, hyps=(), opaque=None, dom=None, replay=None, abstract=None):
        """fp is the derivative of f with respect to the variable x.

        opaque: {application Sym: derivative Sym} for uninterpreted functions of x
        """
        o = self._ob(name, where, "lean")
        hyps = list(hyps)
        try:
            f, fp = tosym(f), tosym(fp)
            opaque = opaque or {}
            envs = self.envs([f, fp, x, *opaque.values()], hyps, dom)
            if not envs:
                raise Unsupported("no point satisfying the hypotheses was found")
            # numeric screening: the formal derivative
            T = lean.Theorem(lean_name(self.pid, name), hyps=hyps)
            def declare(T, opaque):
                op = {}
                for k, (app, d) in enumerate(opaque.items()):
                    T.pr.over[app] = f"(G{k} {T.pr(x)})"
                    op[app] = (f"G{k}", d, f"hG{k}")
                for k in range(len(opaque)):
                    T.extra_binders.append(f"(G{k} : ℝ → ℝ)")
                for k, (app, d) in enumerate(opaque.items()):
                    T.extra_binders.append(f"(hG{k} : HasDerivAt (fun {T.pr(x)} => G{k} {T.pr(x)}) {T.pr(d)} {T.pr(x)})")
                return op

            op = declare(T, opaque)
            dd = formal_diff(f, x, opaque)
            diff = self._num_differs(dd, fp, envs)
            if diff:
                env, a, b = diff
                o["status"] = "refuted"
                self._refuted(o, dict(point={k: float(v) for k, v in env.items()}, true_derivative=float(mpmath.re(a)), code_value=float(mpmath.re(b)),
                                      code_term=show(fp)[:1500], function_term=show(f)[:1500]), replay, env)
                return
            if abstract:
                # the callee's contracts: its result terms become functions with known derivatives
                sub, op2 = abstract
                f2, fp2 = subst(f, sub), subst(fp, sub)
                if f2 is not f or fp2 is not fp:
                    o["modular"] = True
                    f, fp = f2, fp2
                    hyps = [(h[0], *[subst(q, sub) for q in h[1:]]) for h in hyps]
                    used = subterms(f) | subterms(fp)
                    opaque = {a: d for a, d in {**opaque, **op2}.items() if a in used}
                    T = lean.Theorem(lean_name(self.pid, name), hyps=hyps)
                    op = declare(T, opaque)
            st = f"HasDerivAt (fun {T.pr(x)} => {T.pr(f)}) {T.pr(fp)} {T.pr(x)}"
            h = T.prove_deriv(x, f, fp, opaque=op)
            self._guard_extra(o, T, envs, hyps)
            self._queue(o, T.text(st, h), T.name)
        except lean.NotEqual as e:
            o["status"], o["why"] = "undecided", f"normal forms differ: {str(e)[:200]}"
        except Exception as e:
            o["status"], o["why"] = "undecided", f"{type(e).__name__}: {str(e)[:300]}"

    def raw(self, name, where, text, thm, lib=None):
        """a Lean theorem with a hand-written proof, decided by the kernel as well"""
        o = self._ob(name, where, "lean")
        self._queue(o, text, thm, lib)

    def lemmas(self, lib, where="contract"):
        """a file of contract-level lemmas; every theorem in it is an obligation"""
        txt = open(os.path.join(VERIF, "rtv", "lemmas", lib + ".lean")).read()
        self.libs[lib] = txt
        for n in re.findall(r"^theorem (\w+)", txt, re.M):
            o = self._ob(n, where, "lean", note="lemma over the contracts")
            self._queue(o, "", n, lib)

    def fact(self, name, where, ok, why="", backend="execution", detail=None):
        """an obligation decided by complete evaluation (no free input left)"""
        o = self._ob(name, where, backend)
        o["status"] = "proved" if ok else "refuted"
        if not ok:
            o["why"] = str(why)[:400]
            self._refuted(o, detail or dict(why=str(why)[:1500]), None, None)

    def _queue(self, o, text, thm, lib=None):
        o["theorem"] = thm
        self.theorems.append((o, text, thm, lib))

    def _refuted(self, o, detail, replay, env):
        o["detail"] = detail
        if replay is not None and env is not None:
            try:
                got, want = replay({k: float(v) for k, v in env.items()})
                detail["replay_got"], detail["replay_want"] = jsonable(got), jsonable(want)
                if same(got, want, 1e-7):
                    o["status"], o["why"] = "undecided", "the real code agrees with the contract at the counterexample"
                    return
                self.violation(o["name"], o["where"], detail, True)
                return
            except Exception as e:
                detail["replay_error"] = f"{type(e).__name__}: {e}"
                self.violation(o["name"], o["where"], detail, True)
                return
        self.violation(o["name"], o["where"], detail, False)

    # ------------------------------------------------------------------- z3
    def smt(self, name, where, solver, replay=None, note=None):
        """solver: a z3 Solver holding hypotheses and the negated goal"""
        import z3

        o = self._ob(name, where, "z3")
        if note:
            o["note"] = note
        solver.set("timeout", 60000)
        t = time.time()
        r = solver.check()
        o["secs"] = round(time.time() - t, 3)
        self.solver["z3"] = self.solver.get("z3", 0) + time.time() - t
        if r == z3.unsat:
            o["status"] = "proved"
        elif r == z3.sat:
            o["status"] = "refuted"
            self._refuted(o, dict(model=str(solver.model())[:1500]), replay, {"model": 0} if False else None)
        else:
            o["status"], o["why"] = "undecided", f"z3: {solver.reason_unknown()}"

    # ------------------------------------------------------- bounded stand-ins
    def battery(self, name, where, cases, rtol=1e-8, bound=""):
        """cases: iterable of (description, thunk, expected) on the real code"""
        t, n, bad, slow = time.time(), 0, 0, 0
        it = iter(cases)
        while True:
            try:
                case = next(it)
            except StopIteration:
                break
            except (Unsupported, HarnessLimit) as e:
                self.undecided(name, where, f"not provided by a stand-in: {e}")
                break
            except Exception as e:
                tb = traceback.extract_tb(sys.exc_info()[2])
                inrepo = [f for f in tb if "/rt1/" in f.filename]
                if inrepo:
                    bad += 1
                    self.violation(name, where, dict(case="while preparing a case", error=f"{type(e).__name__}: {e}", at=str(inrepo[-1])), True)
                    break
                traceback.print_exc()
                self.undecided(name, where, f"{type(e).__name__}: {e}")
                break
            desc, thunk, want = case
            n += 1
            self.distinct.add(hash((name, str(desc))))
            t1 = time.time()
            try:
                with time_limit(self.limit):
                    got = thunk()
                if isinstance(want, type) and issubclass(want, BaseException):
                    ok, msg = False, f"no {want.__name__} was raised"
                elif callable(want):
                    ok, msg = want(got), "the predicate does not hold"
                else:
                    ok, msg = same(got, want, rtol), "values differ"
            except Hang:
                got, ok, msg = None, False, f"no result within {self.limit} seconds"
                bad += 2
            except HarnessLimit as e:
                # the code needs something the stand-ins do not provide: nothing is decided
                self.undecided(name, where, f"not provided by a stand-in: {e}")
                n -= 1
                break
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
                if isinstance(want, type) and issubclass(want, BaseException):
                    ok, msg = isinstance(e, want), "another exception"
                else:
                    ok, msg = False, "exception: " + traceback.format_exc()[-600:]
            slow = max(slow, time.time() - t1)
            if n == 1 and len(self.samples) < 12:
                self.samples.append(dict(check=name, case=jsonable(desc), got=jsonable(got)))
            if not ok:
                bad += 1
                self.violation(name, where, dict(case=jsonable(desc), got=jsonable(got), want=jsonable(want), why=msg), True)
                if bad >= 3:
                    break
        self.evals += n
        for w in where.split(","):
            self.functions.add(w.strip())
        self.bounded.append(dict(name=name, where=where, cases=n, failed=bad, bound=bound, secs=round(time.time() - t, 2), slowest=round(slow, 2)))

    def section(self, f, *a, **kw):
        """one part of a contract; a part that cannot be applied stays open and leaves the others alone"""
        try:
            return f(*a, **kw)
        except Exception as e:
            traceback.print_exc()
            self.undecided(f.__name__, self.pid, f"{type(e).__name__}: {e}")

    def parallel(self, tasks, procs=4, grace=60):
        """
        independent sections in processes of their own: [(function, arguments), ...]

        The results of the sections are merged in the order of the tasks. A process that
        ends without a result leaves its section undecided. After a violation the
        remaining sections get some more seconds (a run that does not end takes its time).
        """
        def deltas():
            return dict(obs=self.obs, bounded=self.bounded, viol=self.viol, known=self.known, assumptions=self.assumptions, samples=self.samples, bscope=self.bscope)

        def child(path, f, args):
            before = {k: len(v) for k, v in deltas().items()}
            self.evals, self.distinct, self.functions, self.solver, self.theorems = 0, set(), set(), {}, []
            self.section(f, self, *args)
            out = {k: v[before[k]:] for k, v in deltas().items()}
            for k in ("viol", "samples", "bounded"):
                out[k] = [jsonable(x) for x in out[k]]
            assert not self.theorems
            out.update(evals=self.evals, distinct=self.distinct, functions=self.functions, solver=self.solver)
            with open(path + ".part", "wb") as o:
                pickle.dump(out, o)
            os.rename(path + ".part", path)

        d = tempfile.mkdtemp(prefix="rtv_par_")
        todo, pids, done, until = list(enumerate(tasks)), {}, {}, None
        try:
            while todo or pids:
                while todo and len(pids) < procs and until is None:
                    n, (f, args) = todo.pop(0)
                    sys.stdout.flush(), sys.stderr.flush()
                    pid = os.fork()
                    if pid == 0:
                        try:
                            os.setpgid(0, 0)
                            child(os.path.join(d, str(n)), f, args)
                        except BaseException:
                            traceback.print_exc()
                        finally:
                            sys.stdout.flush(), sys.stderr.flush()
                            os._exit(0)
                    pids[pid] = n
                pid, _ = os.waitpid(-1, os.WNOHANG)
                if pid in pids:
                    n = pids.pop(pid)
                    p = os.path.join(d, str(n))
                    if os.path.exists(p):
                        with open(p, "rb") as o:
                            done[n] = pickle.load(o)
                        if done[n]["viol"] and until is None:
                            until = time.time() + grace
                elif pid == 0:
                    time.sleep(.05)
                if until is not None and (time.time() > until or not pids):
                    break
        except ChildProcessError:
            pass
        finally:
            for pid in pids:
                for kill in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                    try:
                        kill()
                    except OSError:
                        pass
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            shutil.rmtree(d, ignore_errors=True)
        for n, (f, _) in enumerate(tasks):
            r = done.get(n)
            if r is None:
                self.undecided(f.__name__, self.pid, "stopped after a violation of another section" if until else "the process of this section ended without a result")
                continue
            self.assume(*r.pop("assumptions"))
            self.evals += r.pop("evals")
            self.distinct |= r.pop("distinct")
            self.functions |= r.pop("functions")
            for k, v in r.pop("solver").items():
                self.solver[k] = self.solver.get(k, 0) + v
            for k, v in r.items():
                getattr(self, k).extend(v)

    # ---------------------------------------------------------- known findings
    def known_finding(self, key, present, text):
        """a genuine defect recorded in known_findings.json; quiet if repaired"""
        for k in load_known():
            if k.get("property") == self.pid and k.get("key") == key and k.get("status") == "known":
                if present:
                    self.known.append((key, k["what"]))
                return True
        if present:
            self.violation(key, "known-finding", dict(what=text), True)
        return False

    # -------------------------------------------------------------------- lean
    def _lean(self):
        if not self.theorems:
            return
        import shutil

        files, libs = [], []
        for lib in sorted({it[3] or "" for it in self.theorems}):
            its = [it for it in self.theorems if (it[3] or "") == lib]
            ks = max(1, min(7 if self.libs else 8, len(its))) if not lib else (1 if len(its) < 40 else 3)
            mine, load = [[] for _ in range(ks)], [0] * ks
            for it in sorted(its, key=lambda x: -len(x[1])):
                k = load.index(min(load))
                mine[k].append(it)
                load[k] += len(it[1]) + 800
            files += mine
            libs += [lib] * ks
        control = f"rtv_control_{self.pid}"

        def one(k):
            items = files[k]
            txt = lean.HEADER
            if libs[k]:
                txt = "import Mathlib.Analysis.SpecialFunctions.Integrals.Basic\nimport Mathlib.Data.Nat.Choose.Central\nimport Mathlib.Tactic\n" + txt + self.libs[libs[k]] + "\n"
            for o, t, n, _ in items:
                o["_line"] = txt.count("\n") + 1
                txt += t + "\n"
                o["_end"] = txt.count("\n") + 1
            for o, t, n, _ in items:
                txt += f"#print axioms {n}\n"
            if k == 0:
                txt += f"theorem {control} (x : ℝ) : x + 1 = x := by ring1\n#print axioms {control}\n"
            rc, out, secs = lean.run_lean(txt, timeout=600 if self.thorough() else 330)
            return k, rc, out, secs

        with ThreadPoolExecutor(8) as ex:
            for k, rc, out, secs in ex.map(one, range(len(files))):
                self.solver["lean"] = self.solver.get("lean", 0) + secs
                acc = axioms(out)
                if k == 0:
                    c = acc.get(control)
                    self.control_rejected = not (c is not None and c <= AXIOMS_OK)
                    if not self.control_rejected:
                        raise RuntimeError("Lean accepted the false control theorem")
                for o, t, n, _ in files[k]:
                    a = acc.get(n)
                    if a is not None and a <= AXIOMS_OK:
                        o["status"] = "proved"
                    else:
                        o["status"] = "undecided"
                        m = next((m for m in re.finditer(r"Ob\.lean:(\d+):\d+: error([^\n]*)", out) if o["_line"] <= int(m.group(1)) <= o["_end"]), None)
                        o["why"] = ("TIMEOUT" if out == "TIMEOUT" else f"lean: axioms={sorted(a) if a else a} line {int(m.group(1)) - o['_line'] + 1}{m.group(2)[:300]}" if m else f"lean: axioms={a}")
                        if os.environ.get("RTV_DUMP"):
                            with open(os.path.join(os.environ["RTV_DUMP"], n + ".lean"), "w") as f:
                                f.write(lean.HEADER + t + "\n")
                    o.pop("_line", None)
                    o.pop("_end", None)

    # ------------------------------------------------------------------ finish
    def finish(self, level="proof", note=""):
        self._lean()
        os.makedirs(EVID, exist_ok=True)
        for f in os.listdir(EVID):
            if f.startswith(f"replay_{self.pid}_"):
                os.unlink(os.path.join(EVID, f))
        obs = self.obs
        n, ok = len(obs), sum(o["status"] == "proved" for o in obs)
        und = [o for o in obs if o["status"] in ("undecided", "open")]
        lines = []
        vi = sorted(self.viol, key=lambda v: not v["failing_input"])
        if any(v["failing_input"] for v in vi):
            # the proof failures without an own input are explained by the failing inputs
            extra = [v["obligation"] for v in vi if not v["failing_input"]]
            vi = [v for v in vi if v["failing_input"]]
            for v in vi:
                v["failed_obligations"] = extra[:20]
        for i, v in enumerate(vi[:5]):
            p = os.path.join(EVID, f"replay_{self.pid}_{i}.json")
            with open(p, "w") as f:
                json.dump(jsonable({**v, "property": self.pid, "rerun": f"python -m rtv.check {self.pid}"}), f, indent=1)
            lines.append(f"VIOLATION property={self.pid} replay={p}" + ("" if v["failing_input"] else " no-failing-input-found"))
        wall = time.time() - self.t0
        if n and level == "proof" and ok == 0 and not vi:
            level = "other"
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level=level,
            coverage=dict(
                obligations=n, discharged=ok,
                undischarged=[dict(name=o["name"], where=o["where"], why=str(o.get("why", o["status"]))[:500]) for o in und[:500]],
                undischarged_count=len(und),
                checker_cmd=f"/opt/venv/bin/python -m rtv.check {self.pid} (Lean 4 kernel via `lean`, acceptance read from `#print axioms`; z3 for integer obligations)",
                trusted_base=TRUSTED,
                functions_under_contract=sorted(self.functions),
                obligation_list=[{k: v for k, v in o.items() if k in ("name", "where", "backend", "status", "secs", "side_conditions", "theorem", "note")} for o in obs[:2000]],
                further_obligations=further(obs[2000:]),
                backends={b: sum(1 for o in obs if o["backend"] == b and o["status"] == "proved") for b in sorted({o["backend"] for o in obs})},
                solver_seconds={k: round(v, 2) for k, v in self.solver.items()},
                bounded_checks=self.bounded, bounded_note="bounded checks run the real code on concrete inputs; they are never counted as discharged obligations",
                evaluations=self.evals, distinct_nontrivial=len(self.distinct),
                rule="one case = one concrete evaluation of the real code compared with the contract; distinct = different inputs; all cases are non-degenerate random or enumerated inputs",
                samples=self.samples or [dict(obligation=o["name"]) for o in obs[:3]],
                control_theorem_rejected=getattr(self, "control_rejected", None),
                known_findings=[k for k, _ in self.known],
                explanation=note or "obligations are generated from the code in /repo on this run by executing it on symbolic reals",
            ),
            assumptions=self.assumptions + BASE_ASSUMPTIONS,
            wall_s=round(wall, 2), violations=len(vi),
        )
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as f:
            json.dump(jsonable(ev), f, indent=1)
        print(f"{self.pid}: {ok}/{n} obligations discharged, {len(und)} undecided, {self.evals} bounded evaluations, "
              f"{sum(b['failed'] for b in self.bounded)} failures, {wall:.1f}s")
        for o in und[:12]:
            print(f"  undecided: {o['name']} ({o['where']}): {o.get('why', '')[:200]}")
        for b in vi[:5]:
            print(f"  failed: {b['obligation']} ({b['where']}): {str(b['detail'])[:300]}")
        for k, t in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {t}")
        for ln in lines:
            print(ln)
        return 1 if lines else 0


def further(obs):
    """numbers of the obligations that are not listed one by one"""
    n = {}
    for o in obs:
        k = (o["where"], o["backend"], o["status"])
        n[k] = n.get(k, 0) + 1
    return [dict(where=w, backend=b, status=s, count=c) for (w, b, s), c in sorted(n.items())]


TRUSTED = [
    "Lean 4 kernel and Mathlib",
    "z3 (integer/sequence obligations)",
    "CPython executing the real functions of /repo; rtv/term.py (overloaded operators and numpy ufuncs on symbolic reals), which maps each executed operation to its real-number meaning",
    "rtv/lean.py printing of terms to Lean statements (the proofs themselves are checked by the kernel)",
    "numpy array plumbing (broadcasting, stacking, object arrays), sympy lambdify/diff producing code that is then executed symbolically",
]
BASE_ASSUMPTIONS = [
    "machine floating point is treated as exact real arithmetic; float constants are read as the simple real they denote (1/10, 4*pi, 10/ln 10)",
    "numpy/scipy elementary functions (exp, cos, sin, log, arccos, expi, expn) compute the real functions of that name",
]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def axioms(out):
    """theorem -> set of axioms, from `#print axioms` messages"""
    acc = {}
    for m in re.finditer(r"'([\w.]+)' depends on axioms: \[([^\]]*)\]", out):
        acc[m.group(1)] = {a.strip() for a in m.group(2).split(",") if a.strip()}
    for m in re.finditer(r"'([\w.]+)' does not depend on any axioms", out):
        acc[m.group(1)] = set()
    return acc


def lean_name(pid, name):
    return pid + "_" + re.sub(r"[^A-Za-z0-9]+", "_", name).strip("_")


def relhyp(rel, a, b, truth):
    a, b = tosym(a), tosym(b)
    z = const(0)
    if rel == "<":
        if truth:
            return ("pos", b) if a is z else ("lt", a, b)
        return ("nonneg", a) if b is z else ("le", b, a)
    if rel == "<=":
        if truth:
            return ("nonneg", b) if a is z else ("le", a, b)
        return ("pos", a) if b is z else ("lt", b, a)
    if rel == "==":
        if truth:
            return ("eq", a, b)
        return ("ne", a) if b is z else ("ne", a - b)
    return None


def holds(h, env):
    v = [evalf(x, env, uf_num) for x in h[1:]]
    return {"pos": lambda: v[0] > 0, "ne": lambda: abs(v[0]) > 1e-9, "nonneg": lambda: v[0] >= 0,
            "le": lambda: v[0] <= v[1], "lt": lambda: v[0] < v[1], "eq": lambda: abs(v[0] - v[1]) < 1e-9}[h[0]]()


def formal_diff(f, x, opaque):
    memo = {}
    one, zero = const(1), const(0)

    def go(s):
        if s in memo:
            return memo[s]
        if s in opaque:
            r = tosym(opaque[s])
        elif s is x:
            r = one
        elif s.op in "cv":
            r = zero
        elif s.op in "+-":
            a, b = go(s.args[0]), go(s.args[1])
            r = a + b if s.op == "+" else a - b
        elif s.op == "*":
            r = go(s.args[0]) * s.args[1] + s.args[0] * go(s.args[1])
        elif s.op == "/":
            r = (go(s.args[0]) * s.args[1] - s.args[0] * go(s.args[1])) / (s.args[1] * s.args[1])
        elif s.op == "^":
            r = const(s.args[1]) * s.args[0] ** const(s.args[1] - 1) * go(s.args[0])
        else:
            n, a = s.args[0], s.args[1:]
            if all(x not in subterms(b) and not any(k in subterms(b) for k in opaque) for b in a):
                r = zero
            else:
                d = go(a[0])
                from .term import fn
                one_ = {"exp": lambda: s, "cos": lambda: const(-1) * fn("sin", a[0]), "sin": lambda: fn("cos", a[0]),
                        "log": lambda: one / a[0]}.get(n)
                if one_ is None or len(a) != 1:
                    raise Unsupported(f"derivative of {n}")
                r = one_() * d
        memo[s] = r
        return r

    return go(f)


def flat(x):
    if isinstance(x, (Sym, SymFloat)):
        return [x]
    if isinstance(x, np.ndarray):
        return [y for y in np.asarray(x).ravel()]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def same(a, b, rtol=1e-8):
    if isinstance(b, dict) and isinstance(a, dict):
        return list(map(str, a)) == list(map(str, b)) and all(same(x, y, rtol) for x, y in zip(a.values(), b.values()))
    if isinstance(b, (str, bytes, bool, type(None))) or isinstance(a, (str, bytes, type(None))):
        return type(a) in (type(b), np.bool_) and a == b if not isinstance(b, bool) else (isinstance(a, (bool, np.bool_)) and bool(a) == b)
    if isinstance(b, (list, tuple)) and isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    try:
        if hasattr(a, "toarray"):
            a = a.toarray()
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            x, y = np.asarray(x.tolist()), np.asarray(y.tolist())
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "mMUSb" or y.dtype.kind in "mMUSb":
            return bool(np.all(x == y))
        x, y = x.astype(float), y.astype(float)
        sc = np.max(np.abs(y[np.isfinite(y)])) if y.size and np.any(np.isfinite(y)) else 0.0
        return bool(np.allclose(x, y, rtol=rtol, atol=rtol * max(sc, 1e-300) + 1e-15, equal_nan=True))
    except Exception:
        try:
            return bool(a == b)
        except Exception:
            return False


def jsonable(x, depth=0):
    if depth > 8:
        return str(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:60000]] if depth else [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (bool, int, str, type(None))):
        return x
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.size < 200 else f"array{x.shape}"
    if isinstance(x, (float, np.floating)):
        return float(x) if math.isfinite(x) else str(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    return str(x)[:600]
