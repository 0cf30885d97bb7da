"""C16  the results store returns what was written

The processing pipeline (worker -> queue -> combiner -> queue -> writer) is executed
with the real functions on opaque results under enumerated arrival schedules; the
HDF-files are written and read with the real pandas / PyTables, and every point at
which writing can be interrupted is enumerated.  Bounded: numbers of results, chunk
sizes and schedules are enumerated."""
import contextlib
import gc
import io
import itertools
import os
import queue
import shutil
import sys
import tempfile
import threading
import time
import warnings
from pathlib import Path

import numpy as np

from .. import fitmodels as fm
from ..model import *  # noqa: F401,F403
from ..oblig import HarnessLimit
from ..opaque import Token


class Crash(BaseException):
    pass


class Standin:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise HarnessLimit(f"{type(self).__name__}.{n}")


class _Val(Standin):
    def __init__(self, v):
        self.value = v


class _Queue(Standin):
    """schedule: positions at which the reader finds the queue empty for once"""

    def __init__(self, holes=(), on_empty=None):
        self.d, self.n, self.holes, self.on_empty = [], 0, set(holes), on_empty
        self.lock = threading.Lock()

    def put(self, x, *a, **k):
        with self.lock:
            self.d.append(x)

    put_nowait = put

    def get(self, *a, **k):
        with self.lock:
            if self.n in self.holes:
                self.holes.discard(self.n)
                raise queue.Empty
            if self.d:
                self.n += 1
                return self.d.pop(0)
        if self.on_empty:
            self.on_empty()
        time.sleep(.001)
        raise queue.Empty

    get_nowait = get

    def empty(self):
        return not self.d

    def qsize(self):
        return len(self.d)


class _Event(threading.Event):
    """(waiting without an end is noticed)"""
    def wait(self, timeout=None):
        ok = super().wait(20 if timeout is None else min(timeout, .2))
        self.n = 0 if ok else getattr(self, "n", 0) + 1
        if not ok and (timeout is None or self.n > 200):
            raise AssertionError("waits forever")
        return ok


class _Manager(Standin):
    def __init__(self):
        self.queues = []

    def Queue(self, *a):
        self.queues.append(_Queue())
        return self.queues[-1]

    Event = staticmethod(_Event)
    Lock = staticmethod(threading.Lock)
    RLock = staticmethod(threading.RLock)

    def Value(self, t, v, *a, **k):
        return _Val(v)

    def list(self, *a):
        return list(*a)

    def dict(self, *a):
        return dict(*a)

    def shutdown(self):
        pass


class _Process(Standin):
    """runs when it is joined (the order of events: all results, combiner, writer) or as a real thread"""
    conc = False

    def __init__(self, target=None, args=(), kwargs=None, name=None, **k):
        self.name, self.t, self.done = name, (lambda: target(*args, **(kwargs or {}))), False

    def start(self):
        if self.conc:
            self.th = threading.Thread(target=self.t, daemon=True)
            self.th.start()

    def join(self, *a):
        if self.conc:
            self.th.join(60)
        elif not self.done:
            self.done = True
            self.t()


class _Pool(Standin):
    def __init__(self, n=1, initializer=None, initargs=(), **k):
        if initializer:
            initializer(*initargs)

    def _res(self, f):
        class R:
            def get(self, *a):
                return f()

            def wait(self, *a):
                f()
        return R()

    def starmap_async(self, f, it, *a, **k):
        it = list(it)
        return self._res(lambda: [f(*i) for i in it])

    def map_async(self, f, it, *a, **k):
        it = list(it)
        return self._res(lambda: [f(i) for i in it])

    def starmap(self, f, it, *a, **k):
        return [f(*i) for i in it]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Ctx(Standin):
    def __init__(self, conc):
        self.Process = type("P", (_Process,), dict(conc=conc))
        self.Pool = _Pool
        self.Manager = _Manager
        for n in ("Queue", "Event", "Lock", "RLock", "Value"):
            setattr(self, n, getattr(_Manager(), n))


@contextlib.contextmanager
def quiet(conc=False):
    """the processing without processes, signals, output and waiting"""
    import pandas as pd
    from rt1 import _rtprocess_writer as W
    import logging
    keep = (W.mp.get_context, W.signal.signal, W.RT1_processor.start_print_thread, logging.getLogger("rt1").level)
    W.mp.get_context = lambda *a: _Ctx(conc)
    W.signal.signal = lambda *a: None

    def start(self):
        from timeit import default_timer
        self.p_start = default_timer()
    W.RT1_processor.start_print_thread = start
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield W, pd
    finally:
        logging.disable(logging.NOTSET)
        W.mp.get_context, W.signal.signal, W.RT1_processor.start_print_thread = keep[:3]


class Scratch:
    def __enter__(self):
        self.d, self.n = tempfile.mkdtemp(prefix="rtv_c16_"), 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def new(self, ext=".h5"):
        self.n += 1
        return os.path.join(self.d, f"f{self.n}{ext}")

    def drop(self, p):
        if os.path.exists(p):
            os.remove(p)


# ------------------------------------------------------------------- combining
def combining(ck):
    """nothing that has been put in the queue is lost, duplicated or assigned to another key"""
    W0 = "RT1_processor._combiner_process, RT1_processor._combine_results"
    forms = [{"const__reader_arg": 1, "res": 1}, {"const__metrics": 1, "cfg": {"res": 1, "tot": 1}}, {"cfg": {"res": 1}, "cfg2": {"res": 1}, "const__const__x": 1}, {"const": 1, "const__static": 1, "c": {}}]

    def key_of(item):
        for k, v in item.items():
            if k.startswith("const__"):
                yield k[7:], v
            elif isinstance(v, dict):
                for q, w in v.items():
                    yield f"{k}/{q}", w
            else:
                yield k, v

    def fill(form, i):
        return {k: {q: Token(f"{i}_{k}_{q}") for q in v} if isinstance(v, dict) else Token(f"{i}_{k}") for k, v in form.items()}
    nmax = 5 if ck.thorough() else 4
    for n in range(nmax + 1):
        for chunk in range(1, n + 2):
            for holes in itertools.chain.from_iterable(itertools.combinations(range(n + 1), r) for r in range(3)):
                for late in (False, True):
                    nm = f"combine_{n}_{chunk}_{''.join(map(str, holes)) or 'x'}_{int(late)}"

                    def go(n=n, chunk=chunk, holes=holes, late=late):
                        with quiet() as (W, pd):
                            p = W.RT1_processor(write_chunk_size=chunk, dst_path="unused")
                            p._setup_manager()
                            its = []
                            for i in range(n):
                                its.append(fill(forms[i % len(forms)], i))
                                if i % 2:
                                    its.append(None)                  # a failed fit
                            p.queue = _Queue(holes, on_empty=p.should_stop.set)
                            for i in its:
                                p.queue.put(i)
                            if not late:
                                p.should_stop.set()
                            p._combiner_process()
                            for t in threading.enumerate():
                                if t is not threading.current_thread() and not t.daemon:
                                    t.join(20)
                            return its, list(p.out_queue.d)
                    for _, (its, out), _ in ck.run(nm, W0, go) or []:
                        its = [i for i in its if i is not None]
                        want, got = {}, {}
                        for i in its:
                            for k, v in key_of(i):
                                want.setdefault(k, []).append(v.name)
                        parts = True
                        for o in out:
                            for k, v in o.items():
                                names = [x.name for x in v]
                                # (a piece holds consecutive results in the order of their arrival)
                                parts = parts and names == [x for x in want.get(k, []) if x in names]
                                got.setdefault(k, []).extend(names)
                        ok = {k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()}
                        ck.fact(nm, W0, ok and parts, f"{n} results in pieces of {chunk}: {got} instead of {want}")
                        # the rows of one result stay together: they are written in one step
                        split = any(len({j for j, o in enumerate(out) for k, v in key_of(i) if any(x is v for x in o.get(k, []))}) > 1 for i in its)
                        ck.fact(nm + "_whole", W0, not split, "the parts of one result are written separately")


# --------------------------------------------------------------------- pipeline
def result(pd, i, num, rng=None, rows=None):
    """the results of the i-th feature, stored under the number num"""
    r = np.random.default_rng(1000 + (i if isinstance(i, int) else abs(hash(i)) % 999))
    n = int(r.integers(1, 5)) if rows is None else rows
    dates = pd.date_range("2020-01-01", periods=n)
    multi = pd.MultiIndex.from_product([[num], dates], names=["ID", "date"])
    d = {"init_dict": pd.DataFrame({"a": [f"text {i}"], "b": ["same"]}, pd.Index([num], name="ID")),
         "dataset": pd.DataFrame({"sig": r.normal(size=n), "inc": r.normal(size=n)}, multi),
         "static": pd.Series([float(r.normal())], pd.Index([num], name="ID"), name="val").to_frame(),
         "cfg1": {"res": pd.DataFrame({"tau": r.normal(size=n)}, multi)}}
    return d


def frames(pd, d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            for q, w in v.items():
                out[f"{k}/{q}"] = w
        else:
            out[k[7:] if k.startswith("const__") else k] = v
    return out


def full_result(pd, i, arg, num):
    d = result(pd, i, num)
    df = pd.DataFrame({k: v for k, v in arg.items()}, pd.Index([num], name="ID"))
    return {"init_dict": d.pop("init_dict"), "const__reader_arg": df, **d}


def transformed(ID):
    s = str(ID)
    import keyword
    return s if s.isidentifier() and not keyword.iskeyword(s) else f"RT1_{s}"


def process(path, IDs, bad=(), chunk=3, conc=False, ncomb=1, nwrite=1, crash=None, cache=10, ID_getter=None, exc=Crash, slow=0):
    """one processing run of all IDs; returns the IDs that have been processed"""
    done = []
    with quiet(conc) as (W, pd):
        def fit(arg, *a):
            done.append(arg["ID"])
            time.sleep(slow)
            if arg["ID"] in bad:
                if bad.index(arg["ID"]) % 2:
                    return None
                raise ValueError("a fit that fails")
            arg = dict(arg)
            num = arg.pop("_RT1_ID_num")
            return full_result(pd, arg["ID"] if isinstance(arg["ID"], int) else sum(map(ord, arg["ID"])), arg, num)
        keep = pd.HDFStore.append
        count = itertools.count()

        def append(self, *a, **k):
            if crash is not None and next(count) == crash:
                raise exc("interrupted")
            return keep(self, *a, **k)
        pd.HDFStore.append = append
        try:
            with W.RT1_processor.writer_pool(n_worker=1, n_combiner=ncomb, n_writer=nwrite, dst_path=path, write_chunk_size=chunk, out_cache_size=cache) as w:
                if not conc:
                    w.should_wait.set()       # (the writer is started when all results are available)
                w.run_starmap(arg_list=[dict(ID=i) for i in IDs], process_func=fit, ID_getter=ID_getter)
            if crash is None and done:
                cnt, good = (int(x.value) for x in (w.p_totcnt, w.p_meancnt))
                want = len(done), len([i for i in done if i not in bad])
                assert (cnt, good) == want, f"{cnt} finished and {good} successful fits reported, {want} processed"
        except Crash:
            pass
        finally:
            pd.HDFStore.append = keep
    return done


def content(path, IDs, which=None):
    """checks that the store holds exactly the results of the IDs"""
    import pandas as pd
    from rt1.rtresults import HDFaccessor
    with quiet(), HDFaccessor(path) as h:
        tab = h.IDs
        names = list(tab.ID)
        assert sorted(names) == sorted(transformed(i) for i in IDs), f"IDs {names} instead of {IDs}"
        assert tab.index.is_unique, f"numbers {list(tab.index)}"
        for i in IDs:
            num = int(tab.index[names.index(transformed(i))])
            want = frames(pd, full_result(pd, i if isinstance(i, int) else sum(map(ord, i)), dict(ID=i), num))
            for k, w in want.items():
                ds = h.datasets
                for part in k.split("/"):
                    ds = getattr(ds, part)
                for g in (ds.get_id(num), ds.get_id(transformed(i)), ds.select(where=f"{'ID' if w.index.nlevels > 1 else 'index'} == {num}")):
                    assert len(g) == len(w) and list(g) == list(w), f"{i}: {k} has {len(g)} rows instead of {len(w)}"
                    assert list(g.index) == list(w.index), f"{i}: {k} index"
                    for c in w:
                        assert all(a == b for a, b in zip(g[c], w[c])), f"{i}: {k} {c}"
    return True


NAMES = [["a", "b", "c", "d", "e", "f", "g"], [3, 1, 2, 10, 0, 7, 5], ["site-1", "site-2", "1.5", "1.7", "x y", "1", "class"]]


def pipeline(ck, sc):
    W = "RT1_processor.run_starmap, RT1_processor._check_IDs, RT1_processor._save_file_process"

    def cases():
        rng = ck.rng
        for k in range(16 if ck.thorough() else 9):
            names = NAMES[k % 3][:rng.randrange(2, 8)]
            bad = rng.sample(names, k % 3 if k % 3 < len(names) else 0)
            opt = dict(chunk=rng.randrange(1, 5), ncomb=rng.randrange(1, 3), nwrite=rng.randrange(1, 3), conc=k % 4 == 3, cache=rng.choice([1, 2, 10]))

            def go(names=names, bad=bad, opt=opt):
                p = sc.new()
                done = process(p, names, bad, **opt)
                assert done == names, f"processed {done}"
                content(p, [i for i in names if i not in bad])
                # continued: only what is missing (in another order and with additional IDs)
                more = [*names[::-1], *([99] if isinstance(names[0], int) else ["new"])]
                done = process(p, more, chunk=2)
                assert done == [i for i in more if i in bad or i not in names], f"continued with {done}"
                content(p, more)
                assert process(p, names) == [], "all are finished already"
                content(p, more)
                sc.drop(p)
                return True
            yield f"process {names}, failing {bad}, {opt}", go, True
    ck.battery("processing", W, cases(), bound="up to 8 IDs, failing fits, pieces of up to 4 results, up to 2 combiners and writers")

    # interruption at every point at which something is written
    def crashes():
        for names in (["a", "b", "c", "d", "e"], [4, 2, 3, 9]):
            for chunk in (1, 2, 5):
                for c in range(0, 5 * -(-len(names) // chunk) + 1):
                    for exc in (Crash, ValueError):
                        if exc is ValueError and c % 3 and not ck.thorough():
                            continue

                        def go(names=names, chunk=chunk, c=c, exc=exc):
                            p = sc.new()
                            process(p, names, chunk=chunk, crash=c, exc=exc)
                            process(p, names[::-1], chunk=2)
                            content(p, names)
                            sc.drop(p)
                            return True
                        yield f"process {names} in pieces of {chunk}, interrupted at write {c} ({exc.__name__}), continued", go, True

        # a failing writer: the run ends
        for c in (0, 3, 7):
            def ends(c=c):
                p, names = sc.new(), ["a", "b", "c", "d", "e", "f"]
                process(p, names, chunk=1, crash=c, exc=ValueError, conc=True, cache=2, slow=.1)
                process(p, names, chunk=2)
                content(p, names)
                sc.drop(p)
                return True
            yield f"writing fails at write {c} while the fits are processed", ends, True
    ck.battery("interrupted", W, crashes(), bound="every write of 2 x 3 runs is interrupted once (writing a single table is atomic), then continued")

    # which IDs remain, for all sets of finished IDs
    def remaining():
        import pandas as pd
        from rt1.processing_config import rt1_processing_config
        for names in NAMES:
            names = names[:5] if ck.thorough() else names[:4]
            for fin in itertools.chain.from_iterable(itertools.combinations(range(len(names)), r) for r in range(1, len(names) + 1)):
                for nums in ([2 * i + 1 for i in range(len(fin))], list(range(len(fin)))[::-1]):
                    if nums == [0] or (len(fin) > 2 and nums[0] == 1 and not ck.thorough()):
                        continue

                    def go(names=names, fin=fin, nums=nums):
                        p = sc.new()
                        with quiet() as (W, _):
                            with pd.HDFStore(p, "a") as s:
                                s.append("reader_arg", pd.DataFrame({"ID": [names[i] for i in fin]}, pd.Index(nums, name="ID")), format="t", data_columns=["ID"], index=False, min_itemsize={"index": 99, "values": 99})
                            for getter in (None, lambda a: transformed(a["ID"])):
                                w = W.RT1_processor(dst_path=p)
                                w.arg_list = [dict(ID=i, other=j) for j, i in enumerate(names)]
                                w._check_IDs(get_ID=getter)
                                got = w.args_to_process
                                assert [(g["ID"], g["other"]) for g in got] == [(n, j) for j, n in enumerate(names) if j not in fin], f"to process: {got}"
                                new = [g["_RT1_ID_num"] for g in got]
                                assert len(set(new)) == len(new) and not set(new) & set(nums), f"numbers {new}, used {nums}"
                            # (the list of arguments can be reduced by the processing class)
                            res = Path(p + "_res")
                            res.mkdir()
                            shutil.copy(p, res / "fit_db.h5")
                            P = rt1_processing_config()
                            P.rt1_procsesing_respath = res
                            for getter in (None, lambda a: transformed(a["ID"])):
                                got = P.mask_existing_HDF_IDs([dict(ID=i, other=j) for j, i in enumerate(names)], get_ID=getter)
                                assert [(g["ID"], g["other"]) for g in got] == [(n, j) for j, n in enumerate(names) if j not in fin], f"not masked: {got}"
                                new = [g["_RT1_ID_num"] for g in got]
                                assert len(set(new)) == len(new) and not set(new) & set(nums), f"numbers {new}, used {nums} (masked)"
                            shutil.rmtree(res)
                            got = P.mask_existing_HDF_IDs([dict(ID=i) for i in names])
                            assert [g["ID"] for g in got] == names and len({g["_RT1_ID_num"] for g in got}) == len(names), f"without a store: {got}"
                            # the exported IDs of a container are found as well
                            w.arg_list = [dict(ID=transformed(i)) for i in names]
                            w._check_IDs()
                            assert [g["ID"] for g in w.args_to_process] == [transformed(n) for j, n in enumerate(names) if j not in fin], f"exported: {w.args_to_process}"
                            w.arg_list = [dict(ID=os.path.join("folder", f"{i}.dump")) for i in names]
                            w._check_IDs()
                            assert len(w.args_to_process) == len(names) - len(fin), f"dumps: {w.args_to_process}"
                        sc.drop(p)
                        return True
                    yield f"finished {[names[i] for i in fin]} of {names} with the numbers {nums}", go, True
    ck.battery("remaining", "RT1_processor._check_IDs, rt1_processing_config.mask_existing_HDF_IDs", remaining(), bound="all sets of finished IDs of 3 lists of 4 IDs (thorough: 5)")


# ---------------------------------------------------------------------- reading
def reading(ck, sc):
    import pandas as pd
    from rt1.rtresults import HDFaccessor
    W = "HDFaccessor._get_nids_iter, HDFaccessor._get_vals_with_IDs, HDFaccessor._get_id, _subselector"
    stores = []
    rng = ck.nprng
    for nums in ([0, 1, 2, 3, 4, 5, 6], [5, 0, 12, 3, 4], [7]):
        p = sc.new()
        want = {}
        with quiet(), pd.HDFStore(p, "a") as s:
            parts = {}
            for j, n in enumerate(nums):
                for k, v in frames(pd, full_result(pd, n + 40, dict(ID=f"site_{n}" if n % 2 else f"{n}"), n)).items():
                    parts.setdefault(k, []).append(v)
            three = pd.MultiIndex.from_tuples([(n, c, i) for n in nums for c in "xy" for i in range(1 + n % 2)], names=["ID", "cfg", "n"])
            parts["res_dict"] = [pd.DataFrame({"v": rng.normal(size=len(three))}, three)]
            for k, v in parts.items():
                want[k] = pd.concat(v)
                s.append(k, want[k], format="t", data_columns=["ID"] if k == "reader_arg" else [], index=False, min_itemsize={"index": 99, "values": 99})
        stores.append((p, nums, want))

    def rows_of(w, ids):
        lv = w.index.get_level_values(0)
        return pd.concat([w[lv == i] for i in ids]) if ids else w[:0]

    def get(h, k):
        d = h.datasets
        for q in k.split("/"):
            d = getattr(d, q)
        return d

    def eqf(a, b):
        return len(a) == len(b) and list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and all(x == y for c in b for x, y in zip(a[c], b[c]))

    def cases():
        for p, nums, want in stores:
            for k, w in want.items():
                for n in range(1, len(nums) + 2):
                    for chunk in [None] + (list(range(1, n + 2)) if ck.thorough() or n < 3 else sorted({1, 2, n, n + 1})):
                        def go(p=p, nums=nums, k=k, w=w, n=n, chunk=chunk):
                            with quiet(), HDFaccessor(p) as h:
                                for start in [None] + (list(range(len(nums))) if ck.thorough() else sorted({0, 1, len(nums) // 2, len(nums) - 1} & set(range(len(nums))))):
                                    use = nums[start:]
                                    got = list(get(h, k).get_nids_iter(n, start=start, read_chunksize=chunk))
                                    m = min(n, len(nums))
                                    sizes = [use[i:i + m] for i in range(0, len(use), m)]
                                    assert len(got) == len(sizes), f"{len(got)} pieces of {n} IDs, start {start}"
                                    for g, s in zip(got, sizes):
                                        assert list(dict.fromkeys(g.index.get_level_values(0))) == s, f"IDs {list(dict.fromkeys(g.index.get_level_values(0)))} instead of {s} (start {start})"
                                        assert eqf(g, rows_of(w, s)), f"rows of {s} (start {start})"
                                    first = get(h, k).get_nids(n, start=start, read_chunksize=chunk)
                                    assert eqf(first, rows_of(w, sizes[0])), f"first {n} (start {start})"
                            return True
                        yield f"{k} of the IDs {nums}: {n} at a time in chunks of {chunk}", go, True
                # explicitly selected IDs
                for r in range(1, min(len(nums), 3) + 1):
                    for sel in list(itertools.permutations(nums, r))[::1 if r == 1 else 11 if not ck.thorough() else 2]:
                        def go(p=p, nums=nums, k=k, w=w, sel=sel):
                            with quiet(), HDFaccessor(p) as h:
                                names = dict(zip(h.IDs.index, h.IDs.ID))
                                for chunk in (None, 1, 3):
                                    for ids in (list(sel), tuple(sel), [names[i] for i in sel]):
                                        g = get(h, k).get_nids(ids, read_chunksize=chunk)
                                        assert eqf(g.sort_index(kind="stable"), rows_of(w, sorted(sel)).sort_index(kind="stable")), f"selected {ids} in chunks of {chunk}: {list(g.index.get_level_values(0))}"
                                i = sel[0]
                                for a in (i, names[i]):
                                    assert eqf(get(h, k).get_id(a), rows_of(w, [i])), f"get_id({a})"
                                assert eqf(get(h, k).get_nids(names[i]), rows_of(w, [i])), f"get_nids({names[i]})"
                                cols = list(w.columns)[:1]
                                if k != "reader_arg":
                                    for g in (get(h, k).get_id(i, columns=cols), get(h, k).get_nids([i], columns=cols), get(h, k).get_id(i, read_chunksize=1, columns=cols)):
                                        assert eqf(g, rows_of(w, [i])[cols]), f"the column {cols} of {i}: {g.columns}"
                            return True
                        yield f"{k}: selected {sel} of {nums}", go, True

                def ids(p=p, nums=nums, k=k, w=w):
                    with quiet(), HDFaccessor(p, set_ID=True) as h:
                        names = dict(zip(h.IDs.index, h.IDs.ID))
                        assert names == {i: (f"site_{i}" if i % 2 else f"RT1_{i}") for i in nums}, names
                        for g, s in [(get(h, k).get_nids(n, read_chunksize=c), nums[:n]) for n in (1, 2, len(nums)) for c in (None, 1)] + [(get(h, k).get_id(i), [i]) for i in nums] + [(get(h, k).select(), nums)]:
                            v = rows_of(w, s)
                            assert list(g.index.get_level_values(0)) == [names[i] for i in v.index.get_level_values(0)], f"{k}: names {list(g.index.get_level_values(0))}"
                            vals = [c for c in v if k != "reader_arg"]
                            assert all(np.array_equal(g[c].values, v[c].values) for c in vals), f"{k}: values"
                    return True
                yield f"{k} of {nums} with names", ids, True
    ck.battery("read", W, cases(), bound="3 stores with up to 7 IDs (1-3 index levels), all numbers of IDs, chunk sizes and starts")


def indexed(ck, sc):
    """the columns of a store can be indexed, layers can be read by their key"""
    import pandas as pd
    from rt1._rtprocess_writer import RT1_processor
    from rt1.rtresults import HDFaccessor
    W = "RT1_processor.create_index, RT1_processor.get_data"

    def cases():
        for nums in ([3, 0, 11, 2], [7]):
            def go(nums=nums):
                with quiet():
                    p = sc.new()
                    parts, want = {}, {}
                    for n in nums:
                        for k, v in frames(pd, full_result(pd, n + 40, dict(ID=f"site_{n}"), n)).items():
                            parts.setdefault(k, []).append(v)
                    with pd.HDFStore(p, "a") as s:
                        for k, v in parts.items():
                            want[k] = pd.concat(v)
                            s.append(k, want[k], format="t", data_columns=["ID"] if k == "reader_arg" else [], index=False, min_itemsize={"index": 99, "values": 99})

                    def check():
                        for k, w in want.items():
                            cfg, key = k.split("/") if "/" in k else (None, k)
                            got = RT1_processor.get_data(p, key, cfg)
                            assert got.equals(w), f"{k}: {got}"
                            assert RT1_processor.get_data(p, key, cfg, start=1).equals(w[1:]), f"{k}: rows from 1"
                            with HDFaccessor(p) as h:
                                d = h.datasets
                                for q in k.split("/"):
                                    d = getattr(d, q)
                                for n in nums:
                                    assert d.get_id(n).equals(w[w.index.get_level_values(0) == n]), f"{k}: {n}"
                                assert d.get_nids(len(nums)).equals(w), k
                    check()
                    for kw in ({}, dict(idx_levels="all"), dict(idx_levels=["ID"]), dict(keys=["reader_arg"], kind="full", optlevel=9), dict(idx_levels=["nothing"])):
                        RT1_processor.create_index(p, **kw)
                        check()
                    for bad in ((None, "nothing"), (None, [k for k in want if "/" in k][0].split("/")[1])):
                        try:
                            RT1_processor.get_data(p, bad[1], bad[0])
                        except (AssertionError, KeyError):
                            continue
                        raise AssertionError(f"{bad} is not rejected")
                    sc.drop(p)
                return True
            yield f"IDs {nums}", go, True
    ck.battery("index", W, cases(), bound="2 stores, 5 kinds of indexes")


# ------------------------------------------------------------------------- fits
def samefit(a, b, model=True):
    """the loaded fit a represents the fit b"""
    import pandas as pd
    assert (a.sig0, a.dB, a.int_Q, a.ID) == (b.sig0, b.dB, b.int_Q, b.ID), f"settings {(a.sig0, a.dB, a.int_Q, a.ID)} instead of {(b.sig0, b.dB, b.int_Q, b.ID)}"
    from rt1.rtfits import _RT1_defdict  # noqa: F401

    def norm(d):
        return repr([(k, [x.tolist() if isinstance(x, (np.ndarray, np.generic)) else tuple(np.asarray(q).tolist() for q in x) if isinstance(x, tuple) else x for x in v]) for k, v in d.items()])
    assert norm(a.defdict) == norm(b.defdict), f"defdict {norm(a.defdict)} instead of {norm(b.defdict)}"
    assert {k: list(map(float, v)) for k, v in a.res_dict.items()} == {k: list(map(float, v)) for k, v in b.res_dict.items()}, f"results {a.res_dict} instead of {b.res_dict}"
    assert {k: v for k, v in a.lsq_kwargs.items()} == {k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in b.lsq_kwargs.items()}, f"lsq_kwargs {a.lsq_kwargs}"
    if getattr(a, "dataset", None) is not None:
        assert a.dataset.index.equals(b.dataset.index) and all(np.array_equal(a.dataset[c], b.dataset[c]) for c in b.dataset) and list(a.dataset) == list(b.dataset), "dataset"
        if model:
            x, y = a.calc_model(return_components=True), b.calc_model(return_components=True)
            assert np.allclose(x, y, rtol=1e-12, equal_nan=True), "model"
            assert np.allclose(a.res_df, b.res_df, rtol=1e-12), "res_df"
    if getattr(b, "aux_data", None) is not None:
        assert isinstance(a.aux_data, pd.DataFrame) and np.array_equal(a.aux_data.values, b.aux_data.values), "aux_data"
    return True


def write(W, pd, path, dicts, chunk=3):
    p = W.RT1_processor(write_chunk_size=chunk, dst_path=path)
    p._setup_manager()
    p.p_max.value = len(dicts)
    for d in dicts:
        p.queue.put(d)
    p.should_stop.set()
    p._combiner_process()
    for t in threading.enumerate():
        if t is not threading.current_thread() and not t.daemon:
            t.join(20)
    p.combiner_ready.set()
    p._save_file_process()
    assert not p._stop.is_set(), "the results could not be written"


def variants(rng):
    """descriptions of fits: (name, Fits keyword arguments)"""
    import copy
    D = fm.DEFS

    def dd(**k):
        d = copy.deepcopy(D)
        d.update(k)
        return d

    def vs(omega, tau, NormBRDF, t, **k):
        from rt1 import surface as S, volume as V
        return V.HenyeyGreenstein(t=t, ncoefs=3, omega=omega, tau=2 * tau), S.LinCombSRF([(.3, S.Isotropic()), (.7, S.HenyeyGreenstein(t=.25, ncoefs=3))], NormBRDF=NormBRDF)
    n = 12
    yield "plain", dict(), None
    yield "units", dict(sig0=True, dB=True), None
    yield "interaction and interpolation", dict(int_Q=True, defdict=dd(omega=[True, .3, "3D", ([.01], [.6]), True])), None
    yield "numpy numbers", dict(defdict=dd(omega=[True, np.float64(.3), "2D", (np.array([.01]), np.array([.6]))], bsf=[False, np.float64(.2)])), dict(gtol=np.float64(1e-9), max_nfev=np.int64(2))
    yield "unbounded", dict(defdict=dd(tau=[True, .4, None, ([0.], [np.inf])])), dict(max_nfev=2, x_scale=np.ones(4), loss="soft_l1")
    yield "linear combination", dict(vs=vs, defdict=dd(t=[True, .2, None, ([.01], [.9])])), None
    yield "manual", dict(defdict=dd(omega=[True, .3, "manual", ([.01], [.6])], tau=[True, .4, "manual + 3D", ([.01], [.9])]),
                         ds=fm.dataset(rng, n, omega_dyn=np.arange(n) // 5, tau_dyn=np.arange(n) % 2)), None
    yield "set as dict", dict(vs=dict(V_props=dict(V_name="HenyeyGreenstein", t=np.float64(.3), ncoefs=3, omega="omega", tau="tau"), SRF_props=dict(SRF_name="HenyeyGreenstein", t=.25, ncoefs=3, NormBRDF="NormBRDF"))), None


def fits(ck, sc):
    from rt1.rtresults import HDFaccessor
    import pandas as pd
    W = "Fits._get_fit_to_hdf_dict, HDFaccessor._load_fit"
    IDs = ["a", "site-1", "5", "1.5", "class"]
    numbers = [3, 1, 2, 10, 0]

    def mk(i, rng, k, lsq, arg=None, aux=False, run=True, IDs=IDs):
        f = fm.simple(rng, **k)
        f.lsq_kwargs = dict(max_nfev=2) if lsq is None else lsq
        f.ID = IDs[i % 5]
        f.reader_arg = dict(ID=IDs[i % 5], x=.5 * i, n=i, text=f"t{i}", **(arg or {}))
        if aux:
            f.aux_data = pd.DataFrame({"aux": rng.normal(size=4)}, pd.date_range("2020-01-01", periods=4))
        if run:
            f.performfit()
        return f

    def cases():
        rng = np.random.default_rng(11)
        for name, k, lsq in variants(rng):
            def go(k=k, lsq=lsq, name=name):
                with quiet() as (Wr, _):
                    p = sc.new()
                    fs = [mk(i, rng, k, lsq, aux=i != 9, IDs=numbers if name in ("units", "manual") else IDs) for i in range(4)]
                    nums = [3, 0, 7, 1]
                    write(Wr, pd, p, [f._get_fit_to_hdf_dict(ID=n) for f, n in zip(fs, nums)], chunk=2)
                    with HDFaccessor(p) as h:
                        for f, n in zip(fs, nums):
                            for ID in (n, transformed(f.reader_arg["ID"])):
                                g = h.load_fit(ID)
                                samefit(g, f)
                                assert g.reader_arg == f.reader_arg and all(type(g.reader_arg[q]) is type(f.reader_arg[q]) for q in f.reader_arg), f"reader_arg {g.reader_arg} instead of {f.reader_arg}"
                    sc.drop(p)
                return True
            yield f"fits written and loaded: {name}", go, True

            def less(k=k, lsq=lsq):
                with quiet() as (Wr, _):
                    p = sc.new()
                    fs = [mk(i, rng, k, lsq) for i in range(2)]
                    write(Wr, pd, p, [f._get_fit_to_hdf_dict(ID=n, save_data=False, save_auxdata=False) for n, f in enumerate(fs)])
                    with HDFaccessor(p) as h:
                        for n, f in enumerate(fs):
                            g = h.load_fit(n)
                            dyn = [c for c in f.dataset if c.endswith("_dyn")]
                            assert (list(g.dataset) if g.dataset is not None else []) == sorted(dyn), f"only {sorted(dyn)} is required to re-create the results"
                            g.dataset = f.dataset
                            samefit(g, f)
                    sc.drop(p)
                return True
            yield f"fits without data: {name}", less, True

        def odd():
            """reader-arguments that can not be stored: the ID is kept"""
            with quiet() as (Wr, _):
                p = sc.new()
                fs = [mk(i, rng, {}, None, arg=dict(paths=["x", "y"])) for i in range(4)]
                write(Wr, pd, p, [f._get_fit_to_hdf_dict(ID=i) for i, f in enumerate(fs[:2])])
                with HDFaccessor(p) as h:
                    assert list(h.IDs.ID) == [transformed(f.reader_arg["ID"]) for f in fs[:2]], list(h.IDs.ID)
                    for i, f in enumerate(fs[:2]):
                        samefit(h.load_fit(transformed(f.reader_arg["ID"])), f)
                sc.drop(p)
            return True
        yield "fits with list-arguments", odd, True

        def multi():
            from rt1.rtfits import MultiFits
            with quiet() as (Wr, _):
                for kw in (dict(), dict(save_data=False), dict(save_res_df=False)):
                    p, ms = sc.new(), []
                    vs = {n: (k, l) for n, k, l in variants(rng)}
                    for i in range(3):
                        ds = vs["manual"][0]["ds"] if i % 2 else fm.dataset(rng, 12)
                        m = MultiFits()
                        for c, v in (("first", "manual" if i % 2 else "plain"), ("second", "units" if i % 2 else "linear combination")):
                            k = {q: w for q, w in vs[v][0].items() if q != "ds"}
                            f = fm.simple(rng, **{**k, "dB": False}, ds=ds)
                            f.lsq_kwargs = dict(max_nfev=2)
                            m.add_config(c, f)
                        m.set_dataset(ds)
                        m.set_aux_data(pd.DataFrame({"aux": rng.normal(size=4)}, pd.date_range("2020-01-01", periods=4)))
                        m.set_ID(IDs[i])
                        m.set_reader_arg(dict(ID=IDs[i], n=i, x=.25 * i))
                        [q() for q in m.accessor.performfit().values()]
                        ms.append(m)
                    same = [m for i, m in enumerate(ms) if i % 2 == 0], [m for i, m in enumerate(ms) if i % 2]
                    for grp in same:
                        sc.drop(p)
                        write(Wr, pd, p, [m._get_fit_to_hdf_dict(ID=4 - i, **kw) for i, m in enumerate(grp)], chunk=1)
                        with HDFaccessor(p) as h:
                            for i, m in enumerate(grp):
                                g = h.load_fit(4 - i)
                                assert list(g.config_names) == list(m.config_names) and g.reader_arg == m.reader_arg and g.ID == m.ID, f"{g.config_names} {g.reader_arg} {g.ID}"
                                if kw.get("save_data") is False:
                                    dyn = sorted(c for c in m.dataset if c.endswith("_dyn"))
                                    assert (list(g.dataset) if g.dataset is not None else []) == dyn, f"only {dyn} is required"
                                    g.set_dataset(m.dataset)
                                for c in m.config_names:
                                    samefit(getattr(g.configs, c), getattr(m.configs, c))
                                if "save_res_df" in kw:
                                    assert not hasattr(h.datasets, "res_df")
                                else:
                                    r = h.datasets.res_df.get_id(4 - i)
                                    for c in m.config_names:
                                        w = getattr(m.configs, c).res_df
                                        assert np.array_equal(r.loc[4 - i].loc[c].dropna(axis=1)[list(w)].values, w.values), f"res_df of {c}"
                    sc.drop(p)
            return True
        yield "multiple configurations", multi, True
    ck.battery("fits", W, cases(), bound="8 kinds of fits (4 each) and multi-configuration fits")


def folders(ck, sc):
    """results folders: HDF stores, dump-files and configuration files"""
    from rt1 import rtfits
    from rt1.rtresults import RTresults
    import pandas as pd
    W = "RTresults._RT1_fitresult, rtfits.load, Fits.dump, MultiFits.dump"
    INI = "[PROCESS_SPECS]\npath__save_path = out\ndumpfolder = dump\nint__n = {n}\n[CONFIGFILES]\nmodule__processing_cfg = nothing.py\n[fits_kwargs]\n[least_squares_kwargs]\n[defdict]\nomega = [False, 0.2]\n[RT1_V]\nV_name = Rayleigh\ntau = 0.3\nomega = omega\n[RT1_SRF]\nSRF_name = Isotropic\n"

    def build(root, fs, cfgs=("cfg",), sub=True):
        d = os.path.join(root, "RES") if sub else root
        for x in ("cfg", "results", "dumps"):
            os.makedirs(os.path.join(d, x))
        for i, c in enumerate(cfgs):
            with open(os.path.join(d, "cfg", c + ".ini"), "w") as o:
                o.write(INI.format(n=i))
        return d

    def mk(i, rng, k, lsq):
        f = fm.simple(rng, **k)
        f.lsq_kwargs = dict(max_nfev=2) if lsq is None else lsq
        f.ID = f"site_{i}"
        f.reader_arg = dict(ID=f"site_{i}", x=.5 * i, n=i)
        f.performfit()
        return f

    def cases():
        rng = np.random.default_rng(12)
        vs = {n: (k, l) for n, k, l in variants(rng)}
        for name in ("plain", "units", "interaction and interpolation", "linear combination", "manual", "set as dict"):
            def dumps(name=name):
                with quiet():
                    p = sc.new()
                    for mini in (True, False):
                        f = mk(0, rng, *vs[name])
                        f.aux_data = pd.DataFrame({"aux": rng.normal(size=4)}, pd.date_range("2020-01-01", periods=4))
                        f.dump(p, mini=mini)
                        f.dump(p + "2", mini=mini)
                        for q in (p, p + "2"):
                            g = rtfits.load(q)
                            samefit(g, f)
                            assert g.ID == f.ID and g.reader_arg == f.reader_arg, f"{g.ID} {g.reader_arg}"
                            g.performfit()                       # (a loaded fit can be used again)
                            assert all(np.allclose(g.res_dict[k], f.res_dict[k], rtol=1e-6) for k in f.res_dict), "fitted values after loading"
                    for q in (p, p + "2"):
                        sc.drop(q)
                return True
            yield f"dump and load: {name}", dumps, True

        def multi():
            with quiet():
                p = sc.new()
                for mini in (True, False):
                    m = rtfits.MultiFits()
                    ds = fm.dataset(rng, 12)
                    for c, v in (("first", "plain"), ("second", "linear combination")):
                        f = fm.simple(rng, **{**vs[v][0], "ds": ds})
                        f.lsq_kwargs = dict(max_nfev=2)
                        m.add_config(c, f)
                    m.set_dataset(ds)
                    m.set_reader_arg(dict(ID="multi", n=4))
                    m.set_ID("multi")
                    [q() for q in m.accessor.performfit().values()]
                    m.dump(p, mini=mini)
                    g = rtfits.load(p)
                    assert list(g.config_names) == list(m.config_names) and g.ID == "multi" and g.reader_arg == m.reader_arg
                    for c in m.config_names:
                        samefit(getattr(g.configs, c), getattr(m.configs, c))
                        assert getattr(g.configs, c).dataset is g.dataset or getattr(g.configs, c).dataset.equals(g.dataset)
                sc.drop(p)
            return True
        yield "dump and load: multiple configurations", multi, True

        def legacy(form):
            # the states of dumps made by former versions (Fits.__update__, _FitContainer.__setstate__)
            with quiet():
                f = mk(0, rng, *vs["plain"])
                f.lsq_kwargs = dict(max_nfev=3)
                d = dict(f.__dict__)
                d.pop("plot", None)
                if "dataset" in form:
                    d["dataset"] = d.pop("_dataset")
                if "fitset" in form:
                    d["fitset"] = dict(d.pop("lsq_kwargs"), int_Q=d.pop("int_Q"), lambda_backend=d.pop("lambda_backend"), _fnevals_input=d.pop("_fnevals_input"))
                if "results" in form:
                    d["res_dict"] = {k: [list(v), [.1]] for k, v in d["res_dict"].items()}
                g = rtfits.Fits.__new__(rtfits.Fits)
                g.__setstate__(d)
                samefit(g, f)
                assert g.lambda_backend == f.lambda_backend and g.plot is not None
                if "container" in form:
                    m = rtfits.MultiFits()
                    m.add_config("first", g)
                    m.add_config("second", f)
                    c = rtfits._FitContainer.__new__(rtfits._FitContainer)
                    c.__setstate__({k: v for k, v in m.configs.__dict__.items() if k != "_parent"})
                    assert [x is y for x, y in zip(c, (g, f))] == [True, True] and c["second"] is f and c[0] is g
            return True
        for form in (("dataset",), ("fitset",), ("results",), ("dataset", "fitset", "results"), ("container",)):
            yield f"dump of a former version: {form}", (lambda form=form: legacy(form)), True

        def folder(sub):
            with quiet() as (Wr, _):
                root = sc.new() + "_dir"
                fs = [mk(i, rng, *vs[n]) for i, n in enumerate(("plain", "plain", "plain"))]
                d = build(root, fs, sub=sub)
                nums = [4, 0, 2]
                write(Wr, pd, os.path.join(d, "results", "fit_db.h5"), [f._get_fit_to_hdf_dict(ID=n) for f, n in zip(fs, nums)], chunk=2)
                for f in fs:
                    f.dump(os.path.join(d, "dumps", f"{f.ID}.dump"))
                open(os.path.join(d, "dumps", "site_9_error.dump"), "w").close()
                open(os.path.join(d, "dumps", "note.txt"), "w").close()
                name = os.path.basename(d).split(".")[0]
                try:
                    r = RTresults(root)
                    assert [x.name for x in r] == [name], list(r)
                    x = r[name]
                    assert x is getattr(r, name)
                    for _ in range(2):
                        for f, n in zip(fs, nums):
                            for ID in (f.ID, n):
                                samefit(x.load_fit(ID), f)
                            g, ID = x.load_fit(f.ID, return_ID=True)
                            assert ID == g.ID == f.ID, ID
                            samefit(x.load_fit(Path(d) / "dumps" / f"{f.ID}.dump"), f)
                            g, ID = x.load_fit(Path(d) / "dumps" / f"{f.ID}.dump", return_ID=True)
                            assert ID == g.ID == f.ID, ID
                        g = x.load_fit()
                        samefit(g, {f.ID: f for f in fs}[g.ID])
                        assert list(x.dump_files) == list(iter(x)) == [f.ID for f in fs], list(x.dump_files)
                        assert [g.ID for g in x.dump_fits] == [f.ID for f in fs]
                        x.fit_db.close()                         # (opened again if it has been closed)
                        x.load_fit(fs[0].ID)
                        with x.load_hdf() as h:
                            assert sorted(h.IDs.ID) == sorted(f.ID for f in fs)
                        with x.load_hdf("fit_db") as h:
                            samefit(h.load_fit(fs[1].ID), fs[1])
                        x.rescan()
                    assert x.load_cfg().get_process_specs()["n"] == 0 == x.load_cfg("cfg.ini").get_process_specs()["n"]
                    x.fit_db.close()
                    x.rescan()
                    y = getattr(RTresults(root, use_dumps=True), name)
                    for f in fs:
                        samefit(y.load_fit(f.ID), f)
                        samefit(y.load_fit(f.ID + ".dump"), f)
                        g, ID = y.load_fit(f.ID, return_ID=True)
                        assert ID == f.ID
                    assert sorted(Path(q).stem for q in y.dump_files) == sorted(f.ID for f in fs), list(y.dump_files)
                    assert sorted(g.ID for g in y.dump_fits) == sorted(f.ID for f in fs)
                    for i in range(3):
                        g, ID = y.load_fit(i, return_ID=True)
                        samefit(g, {f.ID: f for f in fs}[ID])
                    g, ID = y.load_fit(return_ID=True)
                    assert g.ID == ID
                    samefit(g, {f.ID: f for f in fs}[ID])
                    # more than one file
                    with open(os.path.join(d, "cfg", "other.ini"), "w") as o:
                        o.write(INI.format(n=7))
                    shutil.copy(os.path.join(d, "results", "fit_db.h5"), os.path.join(d, "results", "zz.h5"))
                    assert x.load_cfg("other.ini").get_process_specs()["n"] == 7 and x.load_cfg("cfg.ini").get_process_specs()["n"] == 0
                    for amb in (x.load_cfg, x.load_hdf):
                        try:
                            amb()
                        except AssertionError:
                            continue
                        raise AssertionError("an ambiguous request is not rejected")
                    with x.load_hdf("zz") as h:
                        assert h.store.filename.endswith("zz.h5") if hasattr(h.store, "filename") else True
                finally:
                    shutil.rmtree(root)
            return True
        yield "a results folder", lambda: folder(False), True
        yield "the sub-folders of a results folder", lambda: folder(True), True
    ck.battery("folders", W, cases(), bound="6 kinds of fits, results folders with three fits")


def runs(ck, sc):
    """complete processing runs: read, fit, store, load, export"""
    from rt1 import rtfits
    from rt1.processing_config import rt1_processing_config
    from rt1.rtprocess import RTprocess
    from rt1.rtresults import HDFaccessor
    import pandas as pd
    W = "RTprocess.run_processing, RTprocess._evalfunc, RTprocess.run_finaloutput, RTprocess.export_data_to_HDF"
    INI = "[PROCESS_SPECS]\npath__save_path = {p}\ndumpfolder = dump\nfinalout_name = out.h5\n[CONFIGFILES]\nmodule__processing_cfg = {m}\n[fits_kwargs]\nsig0 = False\ndB = False\n[least_squares_kwargs]\n[defdict]\nomega = [False, 0.2]\n[RT1_V]\nV_name = Rayleigh\ntau = 0.3\nomega = omega\n[RT1_SRF]\nSRF_name = Isotropic\n"
    MODULE = "from rt1.processing_config import rt1_processing_config\nclass processing_cfg(rt1_processing_config):\n    pass\n"

    class Cfg(rt1_processing_config):
        def reader(self, arg):
            k = arg["kind"]
            if k == "error":
                raise ValueError("no data")
            if k == "skip":
                raise Exception("rt1_skip")
            if k == "exists":
                raise Exception("rt1_file_already_exists")
            if k == "empty":
                return self.data[arg["ID"]].iloc[:0]
            if k == "wrong":
                return "nothing"
            if k == "nan":
                return self.data[arg["ID"]] * np.nan
            ds = self.data[arg["ID"]].copy()
            return {"plain": ds, "list": [ds, self.aux[arg["ID"]]], "aux": (ds, self.aux[arg["ID"]])}[k]

        def postprocess(self, fit):
            return fit.res_df * 2

    def fails(k):
        return k in ("error", "skip", "empty", "wrong", "nan")

    class Folder:
        def __init__(self, rng, parents, names, kinds):
            self.root = sc.new() + "_run"
            os.makedirs(self.root)
            self.ini, mod = os.path.join(self.root, "conf.ini"), os.path.join(self.root, "rtv_nothing.py")
            with open(mod, "w") as o:
                o.write(MODULE)
            with open(self.ini, "w") as o:
                o.write(INI.format(p=self.root, m=mod))
            self.parents, self.names, self.kinds = parents, names, kinds
            self.data = {i: fm.dataset(rng, 6 + j % 3 * 3, omega_dyn=np.arange(6 + j % 3 * 3) // 2) for j, i in enumerate(names)}
            self.aux = {i: pd.DataFrame({"aux": rng.normal(size=4)}, pd.date_range("2020-01-01", periods=4)) for i in names}
            self.args = [dict(ID=i, kind=k, x=.5 * j) for j, (i, k) in enumerate(zip(names, kinds))]
            self.good = [a for a in self.args if not fails(a["kind"])]
            self.path = os.path.join(self.root, "dump", "results", "fit_db.h5")

        def parent(self):
            if len(self.parents) == 1:
                return mkfit(self.parents[0])
            m = rtfits.MultiFits()
            for n, k in enumerate(self.parents):
                m.add_config(f"c{n}", mkfit(k))
            return m

        def process(self, copy=False, **k):
            P = Cfg(save_path=self.root, dumpfolder="dump", finalout_name="out.h5")
            P.data, P.aux = self.data, self.aux
            return RTprocess(self.ini, autocontinue=True, copy=copy, proc_cls=P, parent_fit=self.parent(), **k)

        def direct(self, arg):
            """the fit of one feature, without the processing"""
            fs = []
            for n, k in enumerate(self.parents):
                f = mkfit(k)
                f.dataset = self.data[arg["ID"]].copy()
                if arg["kind"] in ("list", "aux"):
                    f.aux_data = self.aux[arg["ID"]]
                f.ID = str(arg["ID"])
                f.performfit()
                fs.append(f)
            return fs

        def stored(self, arg, g, num):
            assert {k: v for k, v in g.reader_arg.items() if k != "_RT1_ID_num"} == arg, f"{arg['ID']}: reader_arg {g.reader_arg} instead of {arg}"
            gs = [g] if len(self.parents) == 1 else list(g.configs)
            if len(gs) > 1:
                assert list(g.config_names) == [f"c{n}" for n in range(len(gs))]
            for a, b in zip(gs, self.direct(arg)):
                samefit(a, b)
                if arg["kind"] not in ("list", "aux"):
                    assert getattr(a, "aux_data", None) is None and getattr(g, "aux_data", None) is None, f"{arg['ID']}: auxiliary data of another feature is stored"

    def mkfit(k):
        # (a default value of "fn_evals" would be shared: as declared by reinit_object)
        rng = np.random.default_rng(5)
        f = fm.simple(rng, **k)
        f.dataset = None
        f.lsq_kwargs = dict(max_nfev=2)
        return f
    D = fm.DEFS
    kinds = [dict(), dict(int_Q=True, defdict={**D, "omega": [True, .3, "3D", ([.01], [.6]), True]}), dict(dB=True), dict(sig0=True, defdict={**D, "omega": [True, .3, "manual", ([.01], [.6])]})]
    SEQ = ["aux", "plain", "error", "list", "nan", "plain", "skip", "wrong", "aux", "empty", "plain", "plain"]

    def cases():
        rng = np.random.default_rng(14)
        for parents in ([kinds[0]], [kinds[1]], [kinds[3]], [kinds[0], kinds[3]], [kinds[2], kinds[1], kinds[0]]):
            for rep in range(2 if ck.thorough() else 1):
                names = NAMES[rep][:1] + [f"n{i}" if len(parents) == 2 else 100 - 7 * i for i in range(8)]
                names = [n if len(parents) != 2 else str(n) for n in names] if len(parents) == 2 else [3, *names[1:]]
                kk = SEQ[:1] + ck.rng.sample(SEQ[1:], 8)

                def go(parents=parents, names=names, kk=kk):
                    F = Folder(rng, parents, names, kk)
                    keep = list(sys.path)
                    try:
                        with quiet(True):
                            p = F.process(copy=True)
                            p.run_processing(ncpu=1, reader_args=[dict(a) for a in F.args[:5]], logfile_level=None, print_progress=False)
                            first = [a for a in F.args[:5] if a in F.good]
                            check(F, first)
                            # (continued with all features)
                            F.process().run_processing(ncpu=1, reader_args=[dict(a) for a in F.args], logfile_level=None, print_progress=False, dump_fit=True, create_index=True)
                            check(F, F.good)
                            for a in F.good:
                                if a not in first:
                                    g = rtfits.load(os.path.join(F.root, "dump", "dumps", f"{a['ID']}.dump"))
                                    F.stored(a, g, g.reader_arg.get("_RT1_ID_num"))
                            # a missing feature is taken from its dump-file
                            late = [dict(a, kind="exists") for a in F.good if a not in first][:1]
                            if late:
                                F2 = F.process()
                                os.remove(F.path)
                                F2.run_processing(ncpu=1, reader_args=[dict(a) for a in [*late, *first]], logfile_level=None, print_progress=False)
                                orig = [a for a in F.good if a["ID"] == late[0]["ID"]]
                                check(F, [*orig, *first])
                                F.good = [*orig, *first]
                            outputs(F)
                    finally:
                        sys.path[:] = keep
                        shutil.rmtree(F.root)
                    return True
                yield f"{len(parents)} configurations, features {list(zip(names, kk))}", go, True

    def check(F, args):
        with HDFaccessor(F.path) as h:
            assert sorted(h.IDs.ID) == sorted(transformed(a["ID"]) for a in args), f"stored {list(h.IDs.ID)} instead of {[a['ID'] for a in args]}"
            for a in args:
                num = int(h.IDs.index[list(h.IDs.ID).index(transformed(a["ID"]))])
                for ID in (num, transformed(a["ID"])):
                    F.stored(a, h.load_fit(ID), num)

    def outputs(F):
        """postprocessing of the stored fits"""
        multi = len(F.parents) > 1
        nums = {}
        with HDFaccessor(F.path) as h:
            for n, i in zip(h.IDs.index, h.IDs.ID):
                nums[i] = int(n)
        fits = {transformed(a["ID"]): F.direct(a) for a in F.good}

        def same_ids(h):
            assert dict(zip(h.IDs.ID, h.IDs.index)) == nums, f"IDs {dict(zip(h.IDs.ID, h.IDs.index))} instead of {nums}"
        for cfgs in ((None, "c1", ["c1"], ["c1", "c0"]) if multi else (None,)):
            out = os.path.join(F.root, "x.h5")
            use = [f"c{n}" for n in range(len(F.parents))] if cfgs is None else [cfgs] if isinstance(cfgs, str) else cfgs
            for func in (None, lambda fit: fit.res_df * 3):
                sc.drop(out)
                F.process().run_finaloutput(ncpu=1, use_config=cfgs, postprocess=func and (lambda fit: indexed_df(fit, func(fit))), save_path=out, logfile_level=None, print_progress=False) if func else None
                if func is None:
                    p = F.process()
                    p._proc_cls.postprocess = lambda fit: indexed_df(fit, fit.res_df * 2)
                    p.run_finaloutput(ncpu=1, use_config=cfgs, save_path=out, logfile_level=None, print_progress=False)
                with HDFaccessor(out) as h:
                    same_ids(h)
                    for name in (use if multi else ["default"]):
                        for i, fs in fits.items():
                            w = fs[int(name[1:]) if multi else 0].res_df * (3 if func else 2)
                            for ID in (i, nums[i]):
                                g = getattr(h.datasets, name).get_id(ID)
                                assert np.allclose(g[list(w)].values, w.values) and g.index.get_level_values(0).unique().tolist() == [nums[i]], f"{name}: {i}"
                    assert {k.split("__")[0].strip("/") for k in h.store.keys()} <= {*use, "default", "const", "reader_arg"} if hasattr(h.store, "keys") else True
        # all configurations at once
        if multi:
            sc.drop(out)
            F.process().run_finaloutput(ncpu=1, use_config="from_postprocess", postprocess=lambda fit: {"both": indexed_df(fit, pd.concat([c.res_df.add_suffix("_" + c.config_name) for c in fit.configs], axis=1))}, save_path=out, logfile_level=None, print_progress=False)
            with HDFaccessor(out) as h:
                same_ids(h)
                for i, fs in fits.items():
                    g = h.datasets.both.get_id(i)
                    for n, f in enumerate(fs):
                        assert np.allclose(g[[f"{c}_c{n}" for c in f.res_df]].values, f.res_df.values), f"both: {i}"
        # exported parameters
        sc.drop(out)
        F.process(copy=False).export_data_to_HDF(parameters=["sig", "tot", "x", "omega"], metrics=dict(r=("pearson", "sig", "tot")), savepath=out, logfile_level=None, print_progress=False)
        with HDFaccessor(out) as h:
            same_ids(h)
            for n, k in enumerate(F.parents):
                c = getattr(h.datasets, f"c{n}" if multi else "default")
                for a in F.good:
                    i = transformed(a["ID"])
                    f = fits[i][n]
                    d = c.dynamic.get_id(i)
                    assert np.allclose(d.sig.dropna(), f.dataset.sig) and np.allclose(d.tot.dropna(), f.calc_model(return_components=True)["tot"], rtol=1e-9), f"exported series of {i}"
                    assert c.static.get_id(i)["x"].tolist() == [a["x"]], f"exported layer of {i}"
                    assert np.allclose(c.metrics.get_id(i)["r"], f.metric.sig.tot.pearson, equal_nan=True), f"exported metric of {i}"
        sc.drop(out)

    def indexed_df(fit, df):
        df = df.copy()
        df.index.name = "date"
        return pd.concat([df], keys=[fit._RT1_ID_num], names=["ID"])
    ck.battery("runs", W, cases(), bound="5 sets of configurations with 9 features each (failing ones included), continued and exported")


def many(ck, sc):
    """stores with many IDs (selections of more than 31 values are evaluated differently by pandas)"""
    import pandas as pd
    from rt1.rtresults import HDFaccessor, iloc_level
    rng = ck.nprng
    W = "HDFaccessor._get_nids_iter, HDFaccessor._get_vals_with_IDs"
    p, N = sc.new(), 90
    nums = [int(i) for i in rng.permutation(N)]
    flat = pd.DataFrame({"x": rng.normal(size=N)}, pd.Index(nums, name="ID"))
    ix = pd.MultiIndex.from_tuples([(n, i) for n in nums for i in range(1 + n % 3)], names=["ID", "n"])
    deep = pd.DataFrame({"v": rng.normal(size=len(ix))}, ix)
    with quiet(), pd.HDFStore(p, "a") as s:
        for k, v in dict(reader_arg=pd.DataFrame({"ID": [f"s{n}" for n in nums]}, pd.Index(nums, name="ID")), static=flat, deep=deep).items():
            s.append(k, v, format="t", data_columns=["ID"] if k == "reader_arg" else [], index=False)

    def rows(w, ids):
        lv = w.index.get_level_values(0)
        pos = {i: np.flatnonzero(lv == i) for i in ids}
        return w.iloc[np.concatenate([pos[i] for i in ids])]

    def cases():
        for k, w in (("static", flat), ("deep", deep)):
            for n, chunk, start in ((N, None, None), (N, 40, None), (50, 32, None), (50, 31, 30), (33, 33, 1), (45, 7, 0), (N + 5, 1, None), (40, 1000, 2)):
                def go(k=k, w=w, n=n, chunk=chunk, start=start):
                    with quiet(), HDFaccessor(p) as h:
                        use, m = nums[start:], min(n, N)
                        # (within one reading the rows are in the order of the store, the pieces are consecutive)
                        got = list(getattr(h.datasets, k).get_nids_iter(n, start=start, read_chunksize=chunk))
                        assert len(got) == -(-len(use) // m)
                        for j, g in enumerate(got):
                            want = rows(w, use[j * m:(j + 1) * m])
                            assert list(g.index) == list(want.index) and np.array_equal(g.values, want.values), f"piece {j}"
                    return True
                yield f"{k}: {n} of {N} IDs at a time in chunks of {chunk}, start {start}", go, True
            for r, chunk in ((35, None), (60, 20), (60, 45), (32, 1)):
                def sel(k=k, w=w, r=r, chunk=chunk):
                    ids = [int(i) for i in rng.permutation(N)[:r]]
                    with quiet(), HDFaccessor(p) as h:
                        for s in (ids, [f"s{i}" for i in ids]):
                            g = getattr(h.datasets, k).get_nids(s, read_chunksize=chunk).sort_index()
                            want = rows(w, sorted(ids)).sort_index()
                            assert list(g.index) == list(want.index) and np.array_equal(g.values, want.values)
                    return True
                yield f"{k}: {r} selected IDs in chunks of {chunk}", sel, True
    ck.battery("many", W, cases(), bound=f"a store with {N} IDs")
    sc.drop(p)

    def levels():
        lv = [["a", "b", "c"], [10, 20], [pd.Timestamp("2020-01-01"), pd.Timestamp("2020-01-05")]]
        for d in (2, 3):
            rowsets = [list(itertools.product(*lv[:d]))]
            rowsets.append(rowsets[0][1:-1])
            for R in rowsets:
                df = pd.DataFrame({"x": np.arange(len(R))}, pd.MultiIndex.from_tuples(R))
                for sel in itertools.product((None, 0, 1, [0, 1], [1], slice(0, 1), slice(1, None)), repeat=d):
                    vals = [[x for j, x in enumerate(lv[q]) if sel[q] is None or (j == sel[q] if isinstance(sel[q], int) else j in sel[q] if isinstance(sel[q], list) else j in range(9)[sel[q]])] for q in range(d)]
                    want = [i for i, row in enumerate(R) if all(row[q] in vals[q] for q in range(d))]
                    if not want:
                        continue

                    def go(df=df, sel=sel, want=want):
                        return list(iloc_level(df, sel).x) == want
                    yield f"iloc_level {sel} of {len(R)} rows", go, True
            yield "iloc_level of one level", lambda df=df, R=R: list(iloc_level(df, 1).x) == [i for i, row in enumerate(R) if row[0] == "b"], True
    ck.battery("levels", "iloc_level, _sanitize_index", levels(), bound="two and three index-levels")


# ------------------------------------------------------------------------ export
def export(ck):
    import pandas as pd
    from rt1.rtprocess import RTprocess
    W = "RTprocess._HDF_export_postprocess, RTprocess._postprocess_getparams"

    def cases():
        rng = np.random.default_rng(4)
        for j, (dB, inter) in enumerate([(False, False), (True, True), (False, True)]):
            D = {"omega": [True, .3, "2D", ([.01], [.6])], "tau": [True, .4, None, ([.01], [1.])], "NormBRDF": [False, "auxiliary"], "bsf": [False, .1]}
            n = 12
            f = fm.simple(rng, dB=dB, int_Q=inter, defdict=D, ds=fm.dataset(rng, n, per=1, dB=dB, NormBRDF=rng.uniform(.1, .4, n), extra=rng.normal(size=n)))
            f.lsq_kwargs = dict(max_nfev=2)
            with quiet():
                f.performfit()
            f.reader_arg, f._RT1_ID_num = dict(ID="x", lon=12.5), 5
            model = f.calc_model(return_components=True)
            pool = {"sig": f.dataset.sig, "inc": f.dataset.inc, "omega": f.res_df["omega"], "tau": float(f.res_dict["tau"][0]), "bsf": .1, "NormBRDF": f.dataset.NormBRDF, "extra": f.dataset.extra, "lon": 12.5,
                    "tot": model["tot"], "surf": model["surf"], "vol": model["vol"], "scalar": 3.5, "series": f.dataset.sig * 2}
            if inter:
                pool["inter"] = model["inter"]
            funcs = {"scalar": lambda fit: 3.5, "series": lambda fit: fit.dataset.sig * 2}
            for k in range(14):
                use = sorted(pool) if k == 0 else sorted(ck.rng.sample(sorted(pool), ck.rng.randrange(1, len(pool) + 1)))
                sd, ideg = bool(k % 2), bool(k % 3 == 1)
                mets = {"r": ("rmsd", "sig", "tot"), "p": ("pearson", "tot", "sig"), "scalar": "custom"} if k % 3 != 2 else None
                mk = sorted(set(use) & {"tot", "surf", "vol", "inter"})

                def go(use=use, sd=sd, ideg=ideg, mets=mets, mk=mk, f=f, pool=pool, dB=dB):
                    params = set(use) - set(mk)
                    before = set(params)
                    for rep in range(2):
                        with quiet():
                            ret = RTprocess._HDF_export_postprocess(f, parameters=params, metrics=mets, export_functions=funcs, model_keys=set(mk), sig_to_dB=sd, inc_to_degree=ideg)
                        assert params == before, f"the requested parameters have been changed: {before ^ params}"
                        dyn = {q for q in use if isinstance(pool[q], pd.Series)}
                        stat = {q for q in use if q not in dyn}
                        assert set(ret.get("static", pd.DataFrame()).columns) == stat, f"static {list(ret.get('static', []))} instead of {stat} (call {rep})"
                        assert set(ret.get("dynamic", pd.DataFrame()).columns) == dyn, f"dynamic {list(ret.get('dynamic', []))} instead of {dyn} (call {rep})"
                        for q in stat:
                            assert list(ret["static"].index) == [5] and np.allclose(ret["static"][q], pool[q], rtol=1e-14), f"static {q}"
                        for q in dyn:
                            w = pool[q]
                            if q in ("sig", "tot", "surf", "vol", "inter") and sd and not dB:
                                w = 10 * np.log10(w)
                            if q == "inc" and ideg:
                                w = np.rad2deg(w)
                            g = ret["dynamic"].loc[5][q]
                            if q != "inter":                     # (a negative contribution has no value in dB)
                                g = g.dropna()
                            assert list(ret["dynamic"].index.get_level_values(0).unique()) == [5] and np.allclose(g.loc[w.index], w, rtol=1e-12, equal_nan=True) and len(g) == len(w), f"dynamic {q}"
                        if mets:
                            from rt1.rtmetrics import RTmetrics as R
                            m = ret["metrics"]
                            assert list(m.index) == [5] and set(m) == set(mets), f"metrics {m}"
                            assert np.isclose(m["r"], R.rmsd(f.dataset.sig, model["tot"]))[0] and np.isclose(m["p"], R.pearson(f.dataset.sig, model["tot"]))[0] and m["scalar"].iloc[0] == 3.5, f"metrics {m}"
                        else:
                            assert "metrics" not in ret
                    return True
                yield f"export {use} (dB {dB}, sig_to_dB {sd}, inc_to_degree {ideg}, metrics {mets is not None})", go, True
    ck.battery("export", W, cases(), bound="3 fits with 14 selections of parameters each, exported twice")


def identifiers(ck):
    """the IDs of the store, of continued runs and of exported results agree"""
    from rt1.rtresults import HDFaccessor
    from rt1.rtprocess import RTprocess
    W = "HDFaccessor._get_ID, RTprocess._extract_ID"

    class P:
        @staticmethod
        def get_names_ids(a):
            return dict(feature_id=str(a["ID"]), filename="x")

    def cases():
        rng = ck.rng
        for k in range(400):
            ID = rng.choice([lambda: rng.randrange(10 ** 6), lambda: "".join(rng.choice("aB1_-. é/") for _ in range(rng.randrange(1, 7))), lambda: rng.choice(["class", "None", "x", "1a", "RT1_1", "RT1_a-b"])])()

            def go(ID=ID):
                p = object.__new__(RTprocess)
                p.proc_cls = P()
                return HDFaccessor._get_ID(ID), p._extract_ID(dict(ID=ID))
            yield f"identifier of {ID!r}", go, (transformed(ID), transformed(ID))
    ck.battery("identifiers", W, cases(), bound="400 IDs")


def main(ck):
    ck.assume("pandas / PyTables: a table that is appended is stored completely or not at all, reading a selection returns its rows in the stored order")
    ck.assume("queues, events and locks of multiprocessing work as documented (replaced by in-process objects)")
    ck.assume("the ID of a feature is the entry ID of its reader_arg (as in the default processing_config)")
    ck.opaque_only = True
    ck.section(combining, ck)
    from rt1 import rtfits, rtprocess, rtresults  # noqa: F401
    gc.collect()
    gc.freeze()          # (HDFaccessor collects garbage whenever a store is closed)
    ck.section(export, ck)
    ck.section(identifiers, ck)
    if not ck.viol:
        with contextlib.ExitStack() as st:
            ck.parallel([(part, (st.enter_context(Scratch()),)) for part in (runs, many, pipeline, reading, fits, indexed, folders)])
    return "exploration"
