"""Threads under a seeded scheduler, and interruptions at a chosen line of library code.

Both use sys.monitoring LINE events in SALib's own files.  With `Threads`, real threads
run one at a time: the holder of the baton runs until its quantum of SALib lines is used
up, then the Chooser decides who goes on and for how many lines.
"""
import sys
import threading

from .env import world, salib_dir, SimDeadlock

TOOL = 3
_dir = None
_real_lock = threading.Lock
_real_rlock = threading.RLock
_current = None      # the running Threads object


def _is_salib(code):
    global _dir
    if _dir is None:
        _dir = salib_dir() + "/"
    return code.co_filename.startswith(_dir)


class SimLock:
    """A lock made by SALib code: waiting for it hands the baton on."""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        t = _current
        if t is None or not t.mine():
            return self._l.acquire(blocking, timeout)
        n = 0
        while True:
            if self._l.acquire(False):
                return True
            if not blocking:
                return False
            n += 1
            world.probe("lock_contended")
            if n > 10000:
                raise SimDeadlock("lock never released")
            t.switch(force=True)

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_locks():
    def mk(real):
        def make(*a):
            f = sys._getframe(1)
            l = real(*a)
            return SimLock(l) if _is_salib(f.f_code) else l
        return make
    threading.Lock = mk(_real_lock)
    threading.RLock = mk(_real_rlock)


_QUANTA = ((1, 2, 3, 5, 10, 25, 60, 200, 1000, 5000),      # mixed
           (1, 2, 3),                                       # nearly every line
           (2, 7, 20, 40),
           (30, 100, 300, 900))


class Threads:
    def __init__(self, fns, grain=0):
        self.fns = fns
        self.quanta = _QUANTA[grain]
        self.n = len(fns)
        self.out = [None] * self.n
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(self.n))
        self.cur = None
        self.left = 0
        self.switches = 0
        self.lines = 0
        self.ids = {}
        self.points = set()
        self.mon = sys.monitoring

    def mine(self):
        return self.ids.get(threading.get_ident()) is not None

    def _pick(self):
        ids = sorted(self.alive)
        self.cur = ids[world.ch.choose(len(ids), "thread")]
        self.left = self.quanta[world.ch.choose(len(self.quanta), "quantum")]
        self.sem[self.cur].release()

    def switch(self, force=False):
        me = self.ids[threading.get_ident()]
        before = self.cur
        self._pick()
        if self.cur != before:
            self.switches += 1
        self.sem[me].acquire()

    def _line(self, code, line):
        if not _is_salib(code):
            return self.mon.DISABLE
        me = self.ids.get(threading.get_ident())
        if me is None or code.co_name == "<module>":
            return None
        self.lines += 1
        self.left -= 1
        if self.left <= 0:
            if len(self.points) < 4000:
                self.points.add((code.co_filename[-18:], line))
            self.switch()
        return None

    def _run(self, i):
        self.ids[threading.get_ident()] = i
        self.sem[i].acquire()
        try:
            self.out[i] = self.fns[i]()
        except BaseException as e:
            self.out[i] = ("crash", repr(e))
        self.ids.pop(threading.get_ident(), None)
        self.alive.discard(i)
        if self.alive:
            self._pick()
        else:
            self.done.set()

    def run(self):
        global _current
        self.done = threading.Event()
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.mon.use_tool_id(TOOL, "sim")
        self.mon.register_callback(TOOL, self.mon.events.LINE, self._line)
        self.mon.set_events(TOOL, self.mon.events.LINE)
        _current = self
        try:
            self._pick()
            self.done.wait()
        finally:
            _current = None
            self.mon.set_events(TOOL, 0)
            self.mon.register_callback(TOOL, self.mon.events.LINE, None)
            self.mon.free_tool_id(TOOL)
        for t in ts:
            t.join(5)
        return self.out


class Lines:
    """Count SALib lines while fn runs; optionally raise `exc` at the at-th one."""

    def __init__(self, at=None, exc=KeyboardInterrupt, skip=()):
        self.at = at
        self.exc = exc
        self.n = 0
        self.fired = None
        self.skip = skip
        self.mon = sys.monitoring

    def _line(self, code, line):
        if not _is_salib(code):
            return self.mon.DISABLE
        if self.skip and code.co_filename.endswith(self.skip):
            return self.mon.DISABLE
        if code.co_name == "<module>":
            return None
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = "%s:%s:%d" % (code.co_filename.split("/SALib/")[-1], code.co_name, line)
            raise self.exc("injected")
        return None

    def run(self, fn):
        self.mon.use_tool_id(TOOL, "sim")
        self.mon.restart_events()
        self.mon.register_callback(TOOL, self.mon.events.LINE, self._line)
        self.mon.set_events(TOOL, self.mon.events.LINE)
        try:
            return fn()
        finally:
            self.mon.set_events(TOOL, 0)
            self.mon.register_callback(TOOL, self.mon.events.LINE, None)
            self.mon.free_tool_id(TOOL)
