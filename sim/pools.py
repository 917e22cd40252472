"""Simulated worker pools, executors, job servers and progress-bar pools.

One discrete-event scheduler per pool: n workers, a queue of task batches, simulated
durations and stalls drawn from the world's Chooser.  The next event (which worker
finishes) advances simulated time; the code under test only ever advances it by waiting.
Arguments and results cross a real pickle boundary (dill for `multiprocess` and pathos,
pickle for `multiprocessing`), as they would between processes, and each worker has its
own copy of the global random generators and of the data in SALib's modules (caches,
counters, settings), forked from the parent's at pool creation.  Thread pools share it all.
"""
import copy
import itertools
import pickle
import random
import sys
import types

from .env import world, SimDeadlock, SimEscape, InjectedError

_DUR = (1.0, 1.0, 0.1, 5.0, 0.01, 30.0, 1.0, 300.0)   # last ones: slow / stalled workers
_state = {"in_task": None}


class MaybeEncodingError(Exception):
    """As multiprocessing's: the result could not be sent back."""


class _Same:
    """Threads hand over the objects themselves."""
    dumps = loads = staticmethod(lambda x: x)


_CODE = frozenset([types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type])
_DATA = frozenset([dict, list, set, tuple, str, bytes, int, float, complex, bool, type(None)])
_FIXED = {}        # id -> a constant tuple, not worth copying


def constant(v):
    if type(v) is tuple:
        if id(v) in _FIXED:
            return True
        if all(map(constant, v)):
            _FIXED[id(v)] = v
            return True
        return False
    return isinstance(v, (str, bytes, int, float, complex, type(None)))


_names = {}        # module -> (number of names, those that are not code)
_mods = [0, []]


def module_data():
    """{(module, name): value} of the plain data SALib's modules hold."""
    import numpy as np
    state = (np.ndarray, np.random.Generator, np.random.RandomState, dict, list, set)
    out = {}
    if _mods[0] != len(sys.modules):
        _mods[:] = [len(sys.modules), [(n, m) for n, m in sys.modules.items() if m is not None
                                       and (n == "SALib" or n.startswith("SALib."))]]
    for n, m in _mods[1]:
        d = vars(m)
        c = _names.get(n)
        if c is None or c[0] != len(d):
            c = _names[n] = len(d), [k for k, v in d.items() if type(v) not in _CODE and not k.startswith("__")]
        for k in c[1]:
            v = d.get(k, _CODE)
            t = type(v)
            if t in _DATA or isinstance(v, state) or t.__module__ == "collections":
                out[n, k] = v
    return out


def own_copy(data):
    memo, out = {}, {}
    for k, v in data.items():
        if not constant(v):
            try:
                v = copy.deepcopy(v, memo)
            except Exception:
                continue
        out[k] = v
    return out


def switch(new):
    """Puts `new` in place of the modules' data; what was there before."""
    old = module_data()
    for (n, k), v in new.items():
        if old.get((n, k), old) is not v:
            setattr(sys.modules[n], k, v)
    return old


def _ser(kind):
    if kind == "same":
        return _Same
    if kind == "dill":
        import dill
        b = dill._dill._is_builtin_module
        if not getattr(b, "_sim", False):
            # Pickle SALib's modules by name, as when SALib is installed: a source tree outside
            # site-packages would be sent to each worker whole and loaded over the modules here.
            def by_name(module):
                return module.__name__.split(".")[0] in ("SALib", "sim") or b(module)
            by_name._sim = True
            dill._dill._is_builtin_module = by_name
        return dill
    return pickle


class Sched:
    """The simulated machine behind one pool."""

    def __init__(self, n, ser, name, initializer=None, initargs=()):
        import numpy as np
        i = len(world.pools)
        self.index = i
        self.name = name
        self.n = n
        self.ser = _ser(ser)
        world.pools.append(self)
        self.plan = world.pool_faults.get(str(i), world.pool_faults.get("*", {}))
        self.order = []
        self.state = "RUN"
        if self.plan.get("create"):
            self.released = True
            world.fault("pool_create_error")
            raise OSError(11, "Resource temporarily unavailable")
        self.now = 0.0
        self.queue = []            # pending batches
        self.running = []          # (finish_time, seq, batch, worker)
        self.free = list(range(n))
        self.rng = [(np.random.get_state(), random.getstate()) for _ in range(n)]
        self.forked = own_copy(module_data()) if ser != "same" else None
        self.data = {}             # worker -> what its modules hold
        self.state = "RUN"
        self.released = False
        self.seq = 0
        self.tasks_done = 0
        self.order = []
        self.events = 0
        self.initializer = (initializer, initargs)
        if initializer is not None and ser == "same":
            for _ in range(n):
                initializer(*initargs)

    # -- submission
    def submit(self, func, items, star, on_done, kw=None, mapstar=False):
        """items: list of argument tuples/objects run as one batch."""
        b = {"id": self.seq, "on_done": on_done, "star": star, "kw": kw, "mapstar": mapstar}
        self.seq += 1
        try:
            # the function is serialised once per map call, its state cannot change between
            c = getattr(self, "_fcache", None)
            if c is None or c[0] is not func or c[1] != self.events:
                c = self._fcache = (func, self.events, self.ser.dumps(func))
            b["payload"] = (c[2], self.ser.dumps((items, kw)))
        except Exception as e:  # what the task-feeding thread does
            b["payload"] = None
            b["err"] = e
            world.probe("unpicklable_task")
        self.queue.append(b)
        self._start()
        return b

    def _start(self):
        while self.free and self.queue and self.state != "TERMINATE":
            k = world.ch.choose(len(self.free), "worker")
            w = self.free.pop(k)
            b = self.queue.pop(0)
            d = _DUR[world.ch.choose(len(_DUR), "duration")]
            if d >= 30:
                world.fault("slow_worker")
            self.running.append((self.now + d, b["id"], b, w))

    def step(self):
        """Next worker finishes.  False when nothing is under way."""
        self._start()
        if not self.running or self.state == "TERMINATE":
            return False
        self.running.sort(key=lambda t: (t[0], t[1]))
        t, _, b, w = self.running.pop(0)
        world.sim_time += max(0.0, t - self.now)
        self.now = max(self.now, t)
        self.events += 1
        ok, val = self._run(b, w)
        self.order.append(b["id"])
        self.free.append(w)
        self.free.sort()
        self.tasks_done += 1
        b["on_done"](ok, val)
        self._start()
        return True

    def _run(self, b, w):
        import numpy as np
        fault = self.plan.get("tasks", {}).get(str(b["id"]))
        if b["payload"] is None:
            return False, b["err"]
        try:
            func = self.ser.loads(b["payload"][0])
            items, kw = self.ser.loads(b["payload"][1])
        except Exception as e:
            return False, e
        own = self.forked is not None
        if own:
            keep = (np.random.get_state(), random.getstate())
            np.random.set_state(self.rng[w][0])
            random.setstate(self.rng[w][1])
            if w not in self.data:
                self.data[w] = own_copy(self.forked)
                init, initargs = self.initializer
            else:
                init = None
            parent = switch(self.data[w])
        outer = _state["in_task"]
        _state["in_task"] = (self.index, b["id"])
        try:
            if own and init is not None:
                init(*initargs)
            if fault == "raise_before":
                world.fault("task_raise_before")
                raise InjectedError("injected: worker failed before the task")
            if fault == "memory":
                world.fault("task_memory_error")
                raise MemoryError("injected")
            if kw:
                res = [func(*(x if b["star"] else (x,)), **kw) for x in items]
            elif b["mapstar"]:
                # as the library does it: a StopIteration from func ends the batch
                res = list(itertools.starmap(func, items) if b["star"] else map(func, items))
            else:
                res = [func(*x) if b["star"] else func(x) for x in items]
            if fault == "raise_after":
                world.fault("task_raise_after")
                raise InjectedError("injected: worker failed after the task")
            if fault == "os_error":
                world.fault("task_os_error")
                raise OSError(5, "injected I/O error in worker")
            if fault == "unpicklable":
                world.fault("task_result_unsendable")
                raise MaybeEncodingError("injected: result could not be sent back")
            try:
                out = self.ser.loads(self.ser.dumps(res))
            except Exception as e:
                raise MaybeEncodingError(repr(e))
            return True, out
        except Exception as e:
            return False, e
        finally:
            _state["in_task"] = outer
            if own:
                self.rng[w] = (np.random.get_state(), random.getstate())
                np.random.set_state(keep[0])
                random.setstate(keep[1])
                self.data[w] = switch(parent)

    def wait(self, cond):
        while not cond():
            at = self.plan.get("interrupt_at")
            if at is not None and self.events >= at and not self.plan.get("_hit"):
                self.plan["_hit"] = True
                world.fault("interrupt_while_waiting")
                raise KeyboardInterrupt("injected")
            if not self.step():
                raise SimDeadlock("waits on pool %d for a result that can never come" % self.index)

    def drain(self):
        self.wait(lambda: not self.queue and not self.running)

    def release(self):
        self.state = "TERMINATE"
        self.released = True
        self.running.clear()
        self.queue.clear()
        self.free = list(range(self.n))


class AsyncResult:
    def __init__(self, pool, single, nb, callback=None, error_callback=None):
        self._p = pool
        self._parts = {}
        self._nb = nb
        self._single = single
        self._err = None
        self._done = nb == 0
        self._cb, self._ecb = callback, error_callback

    def _slot(self, i):
        def on_done(ok, val):
            if ok:
                self._parts[i] = val
            elif self._err is None:
                self._err = val
            self._n = getattr(self, "_n", 0) + 1
            if self._n == self._nb:
                self._done = True
                if self._err is None and self._cb:
                    self._cb(self._value())
                elif self._err is not None and self._ecb:
                    self._ecb(self._err)
        return on_done

    def _value(self):
        out = [v for i in range(self._nb) for v in self._parts[i]]
        return out[0] if self._single else out

    def ready(self):
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError("not ready")
        return self._err is None

    def wait(self, timeout=None):
        self._p._s.wait(lambda: self._done)

    def get(self, timeout=None):
        self._p._s.wait(lambda: self._done)
        if self._err is not None:
            raise self._err
        return self._value()


class IMap:
    def __init__(self, pool, ordered):
        self._p = pool
        self._ordered = ordered
        self._got = {}
        self._fifo = []
        self._next = 0
        self._total = 0

    def _slot(self, i):
        def on_done(ok, val):
            self._got[i] = (ok, val)
            self._fifo.append(i)
        return on_done

    def __iter__(self):
        return self

    def __next__(self, timeout=None):
        if getattr(self, "_buf", None):
            return self._buf.pop(0)
        if self._next >= self._total:
            raise StopIteration
        if self._ordered:
            self._p._s.wait(lambda: self._next in self._got)
            ok, v = self._got.pop(self._next)
        else:
            self._p._s.wait(lambda: bool(self._fifo))
            ok, v = self._got.pop(self._fifo.pop(0))
        self._next += 1
        if not ok:
            raise v
        self._buf = list(v)
        return self._buf.pop(0) if self._buf else self.__next__()

    next = __next__


class SimPool:
    """multiprocessing.pool.Pool"""

    _ser = "pickle"
    _track = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None):
        if _state["in_task"] is not None:
            raise AssertionError("daemonic processes are not allowed to have children")
        if processes is None:
            processes = world.cpus
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self._s = Sched(int(processes), self._ser, type(self).__name__, initializer, initargs)
        self._s.track = self._track
        world.note("pool", self._s.index, processes)

    def _check(self):
        if self._s.state != "RUN":
            raise ValueError("Pool not running")

    @staticmethod
    def _batches(items, size):
        return [items[i:i + size] for i in range(0, len(items), size)]

    def _map_async(self, func, it, star, chunksize=None, callback=None, error_callback=None,
                   single=False, kw=None):
        self._check()
        items = list(it)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._s.n * 4)
            if extra:
                chunksize += 1
        bs = self._batches(items, max(1, chunksize)) if items else []
        r = AsyncResult(self, single, len(bs), callback, error_callback)
        for i, b in enumerate(bs):
            self._s.submit(func, b, star, r._slot(i), kw, not single)
        return r

    def map(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, False, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, False, chunksize, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._map_async(func, iterable, True, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._map_async(func, iterable, True, chunksize, callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return self._map_async(func, [tuple(args)], True, 1, callback, error_callback, True, dict(kwds))

    def _imap(self, func, iterable, chunksize, ordered):
        self._check()
        r = IMap(self, ordered)
        bs = self._batches(list(iterable), max(1, chunksize))
        r._total = len(bs)
        for i, b in enumerate(bs):
            self._s.submit(func, b, False, r._slot(i), None, chunksize > 1)
        return r

    def imap(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, True)

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._imap(func, iterable, chunksize, False)

    def close(self):
        if self._s.state == "RUN":
            self._s.state = "CLOSE"

    def join(self):
        if self._s.state == "RUN":
            raise ValueError("Pool is still running")
        if self._s.state == "CLOSE":
            self._s.drain()
        self._s.released = True

    def terminate(self):
        self._s.release()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class DillPool(SimPool):
    _ser = "dill"


class SimThreadPool(SimPool):
    _ser = "same"


# ---------------------------------------------------------------- concurrent.futures
class SimFuture:
    def __init__(self, ex):
        self._ex = ex
        self._state = None
        self._cbs = []

    def _on(self, ok, val):
        self._state = (ok, val[0] if ok else val)
        for cb in self._cbs:
            cb(self)

    def result(self, timeout=None):
        self._ex._s.wait(lambda: self._state is not None)
        ok, v = self._state
        if not ok:
            raise v
        return v

    def exception(self, timeout=None):
        self._ex._s.wait(lambda: self._state is not None)
        return None if self._state[0] else self._state[1]

    def done(self):
        return self._state is not None

    def cancel(self):
        return False

    def add_done_callback(self, cb):
        if self._state is not None:
            cb(self)
        else:
            self._cbs.append(cb)


class SimExecutor:
    _ser = "pickle"

    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **k):
        if max_workers is None:
            max_workers = world.cpus
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._s = Sched(int(max_workers), self._ser, "executor", initializer, initargs)
        self._s.track = True

    def submit(self, fn, *args, **kw):
        if self._s.state != "RUN":
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = SimFuture(self)
        self._s.submit(fn, [args], True, f._on, kw)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        if wait:
            self._s.state = "CLOSE"
            self._s.drain()
        self._s.released = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown(True)
        return False


class SimThreadExecutor(SimExecutor):
    _ser = "same"


def _as_completed(fs, timeout=None):
    fs = list(fs)
    pending = list(fs)
    while pending:
        done = [f for f in pending if f.done()]
        if not done:
            s = pending[0]._ex._s
            s.wait(lambda: any(f.done() for f in pending))
            continue
        for f in done:
            pending.remove(f)
            yield f


def _cf_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if fs:
        s = fs[0]._ex._s
        if return_when == "ALL_COMPLETED":
            s.wait(lambda: all(f.done() for f in fs))
        else:
            s.wait(lambda: any(f.done() for f in fs))
    import collections
    R = collections.namedtuple("DoneAndNotDoneFutures", "done not_done")
    return R({f for f in fs if f.done()}, {f for f in fs if not f.done()})


# ---------------------------------------------------------------- pathos / pp job servers
class SimPP:
    """pathos.pp.ParallelPythonPool: job servers, each with `nodes` workers.

    A job that fails on a server prints there and yields None here, as with pp.
    """

    def __init__(self, *args, **kwds):
        nodes = kwds.pop("nodes", None) or kwds.pop("ncpus", None)
        servers = kwds.pop("servers", None)
        if args:
            nodes = args[0]
        if nodes is None:
            nodes = world.cpus
        if servers is not None and not isinstance(servers, (tuple, list)):
            raise TypeError("servers must be a list or tuple")
        self._servers = tuple(servers or ())
        ns = max(1, len(self._servers))
        self._s = Sched(max(1, int(nodes)) * ns, "dill", "pp")
        self._s.track = True
        self._s.stateful = True
        self.nodes = nodes
        self.ncpus = nodes
        self.servers = self._servers
        world.note("pp", nodes, self._servers)

    def _jobs(self, f, args):
        out = []
        items = list(zip(*args))
        for i, a in enumerate(items):
            box = []

            def on(ok, val, box=box):
                if not ok:
                    world.probe("pp_job_none")
                box.append(val[0] if ok else None)
            self._s.submit(f, [a], True, on)
            out.append(box)
        return out

    def map(self, f, *args, **kw):
        return list(self.imap(f, *args, **kw))

    def imap(self, f, *args, **kw):
        if self._s.plan.get("map_error"):
            world.fault("server_lost")
            raise ConnectionError("injected: job server lost")
        boxes = self._jobs(f, args)

        def gen():
            for b in boxes:
                self._s.wait(lambda: bool(b))
                yield b[0]
        return gen()

    def uimap(self, f, *args, **kw):
        boxes = self._jobs(f, args)

        def gen():
            left = list(boxes)
            while left:
                self._s.wait(lambda: any(left))
                for b in [b for b in left if b]:
                    left.remove(b)
                    yield b[0]
        return gen()

    def amap(self, f, *args, **kw):
        boxes = self._jobs(f, args)
        me = self

        class R:
            def get(self, timeout=None):
                me._s.wait(lambda: all(boxes))
                return [b[0] for b in boxes]

            def ready(self):
                return all(boxes)

            def wait(self, timeout=None):
                me._s.wait(lambda: all(boxes))
        return R()

    def pipe(self, f, *args, **kw):
        return self.map(f, *[[a] for a in args])[0]

    def clear(self):
        self._s.released = True

    def close(self):
        if self._s.state == "RUN":
            self._s.state = "CLOSE"

    def terminate(self):
        self._s.state = "TERMINATE"
        self._s.released = True

    def join(self):
        self._s.drain()

    def restart(self, force=False):
        self._s.state = "RUN"

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._s.released = True


# ---------------------------------------------------------------- p_tqdm
def _make_ptqdm():
    m = types.ModuleType("p_tqdm")

    def gen(ordered, f, iterables, kw):
        n = kw.pop("num_cpus", None)
        if n is None:
            n = world.cpus
        elif isinstance(n, float):
            n = int(round(n * world.cpus))
        p = DillPool(n)
        p._s.track = False     # pathos keeps its pools; p_tqdm owns them
        world.probe("p_tqdm_used")
        items = list(zip(*[it if hasattr(it, "__len__") else list(it) for it in iterables]))
        r = IMap(p, ordered)
        r._total = len(items)
        for i, a in enumerate(items):
            p._s.submit(f, [a], True, r._slot(i))
        for v in r:
            yield v
        p._s.release()

    m.p_imap = lambda f, *it, **kw: gen(True, f, it, kw)
    m.p_uimap = lambda f, *it, **kw: gen(False, f, it, kw)
    m.p_map = lambda f, *it, **kw: list(gen(True, f, it, kw))
    m.p_umap = lambda f, *it, **kw: list(gen(False, f, it, kw))
    return m


def _escape(*a, **k):
    raise SimEscape("the code under test tried to start a real process")


def install(ptqdm):
    import multiprocessing.pool
    import multiprocessing
    import multiprocess.pool
    import multiprocess
    import concurrent.futures as cf
    import concurrent.futures.process  # noqa
    import concurrent.futures.thread  # noqa

    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimThreadPool
    multiprocess.pool.Pool = DillPool
    multiprocess.pool.ThreadPool = SimThreadPool
    cf.ProcessPoolExecutor = SimExecutor
    cf.process.ProcessPoolExecutor = SimExecutor
    cf.ThreadPoolExecutor = SimThreadExecutor
    cf.thread.ThreadPoolExecutor = SimThreadExecutor
    cf.as_completed = _as_completed
    cf.wait = _cf_wait

    import multiprocessing.process as p1
    import multiprocess.process as p2
    p1.BaseProcess.start = _escape
    p2.BaseProcess.start = _escape

    try:
        import pathos.pp as pp
        import pathos.parallel as par
        pp.ParallelPythonPool = SimPP
        pp.ParallelPool = SimPP
        par.ParallelPool = SimPP
        par.ParallelPythonPool = SimPP
        par.stats = lambda *a: "simulated stats"
        import pathos.multiprocessing as pm
        import pathos.pools as pl
        for mod in (pm, pl):
            for nm in ("ProcessPool", "ProcessingPool", "ThreadPool", "ThreadingPool", "_ProcessPool"):
                if hasattr(mod, nm):
                    setattr(mod, nm, DillPool)
    except ImportError:
        pass

    if ptqdm:
        sys.modules["p_tqdm"] = _make_ptqdm()
    else:
        sys.modules["p_tqdm"] = None   # import fails
