"""Deterministic scheduler for caller threads.

Real threads, exactly one of which runs at any time; which one, and for how
many events, is a list of segments ``[thread, mode, count]``.  mode is one of
'i' (instructions), 'l' (lines), 's' (before a shared write), 'p' (just after a
shared write), 'w' (just after a write to an attribute, a
global or an item of a container that other threads may hold), 'a' (attribute, item or call).  A segment ends early if its
thread finishes or blocks.  When the list is used up the remaining threads run
to completion in turn.
"""
import _thread
import threading
import zlib

from . import locks, monitor
from .monitor import ACCESS, LINE, SHARED, STORE

BUDGET = 30_000_000


class SimAbort(BaseException):
    """Unwinds a thread when the simulation has already failed."""


class Thread:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.blocked_on = None
        self.mode, self.left = None, 0
        self.events = 0
        self.prev_store = False
        self.quiet = 0
        self.where = None
        self.error = None


class Deadlock(Exception):
    pass


class NoProgress(Exception):
    pass


class Scheduler:
    def __init__(self, fns, segments, budget=BUDGET, on_switch=None, conf=None, fair=False):
        conf = conf or {}
        self.hot = conf.get("hot", 4000)
        self.selected = monitor.select(conf.get("salt", 0), conf.get("p", 1.0))
        self.count = dict.fromkeys(self.selected, 0)
        self.fair = fair
        self.threads = [Thread(i, f) for i, f in enumerate(fns)]
        self.segments = [tuple(s) for s in segments]
        self.budget = budget
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.ids = {}
        self.log = []
        self.abort = None
        self.switches = 0
        self.preemptions = 0
        self.lock_waits = 0
        self.on_switch = on_switch
        self.running = None

    # -- called from simulated threads
    def me(self):
        return self.ids.get(_thread.get_ident())

    def _handoff(self, th):
        """Gives control back to the controller and waits to be resumed."""
        self.main_gate.release()
        th.gate.acquire()
        if self.abort is not None:
            raise SimAbort()

    def block(self, th, lock):
        th.blocked_on = lock
        self.lock_waits += 1
        self._handoff(th)

    def timeout_fires(self, th):
        # a timed wait gives every other thread a chance first, then times out
        if getattr(th, "timed", False):
            th.timed = False
            return True
        th.timed = True
        self._handoff(th)
        return False

    def _on_instruction(self, code, offset):
        th = self.ids.get(_thread.get_ident())
        if th is None or th.quiet or th is not self.running:
            return
        th.events += 1
        n = self.count[code] = self.count[code] + 1
        if n > self.hot and not self.fair:
            monitor.off(code)
        mask = monitor.codes[code].get(offset, 0)
        mode = th.mode
        if mode == "i":
            hit = True
        elif mode == "s":
            hit = mask & STORE
        elif mode == "a":
            hit = mask & ACCESS
        elif mode == "l":
            hit = mask & LINE
        elif mode == "p":
            hit = th.prev_store
            th.prev_store = bool(mask & STORE)
        elif mode == "w":
            hit = th.prev_store
            th.prev_store = bool(mask & SHARED)
        else:
            hit = False
        if hit:
            th.left -= 1
            if th.left <= 0:
                th.where = (code.co_qualname, monitor.line_of(code, offset), offset)
                self.preemptions += 1
                self._handoff(th)
        if th.events > self.budget:
            th.where = (code.co_qualname, monitor.line_of(code, offset), offset)
            raise NoProgress("%s:%s" % th.where[:2])

    # -- controller
    def _body(self, th):
        th.gate.acquire()
        self.ids[_thread.get_ident()] = th
        try:
            if self.abort is None:
                th.fn(self, th)
        except SimAbort:
            pass
        except BaseException as e:  # reported by the caller of run()
            th.error = e
        th.done = True
        self.main_gate.release()

    def _run(self, th, mode, count):
        th.mode, th.left, th.prev_store = mode, count, False
        th.blocked_on = None
        th.where = None
        before = th.events
        self.running = th
        th.gate.release()
        self.main_gate.acquire()
        self.running = None
        self.switches += 1
        w = th.where
        self.log.append((th.tid, mode, th.events - before,
                         "done" if th.done else ("lock" if th.blocked_on is not None else
                                                 ("%s:%s+%s" % w if w else "wait"))))
        if self.on_switch is not None:
            self.on_switch(self, th)

    def runnable(self, th):
        return not th.done and (th.blocked_on is None or th.blocked_on._owner is None)

    def run(self):
        old = threading.stack_size()
        threading.stack_size(64 * 1024 * 1024)
        ts = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.threads]
        for t in ts:
            t.start()
        threading.stack_size(old)
        locks.current = self
        monitor.start_instructions(self._on_instruction, self.selected)
        try:
            for tid, mode, count in self.segments:
                if tid >= len(self.threads):
                    continue
                th = self.threads[tid]
                if not self.runnable(th):
                    continue
                self._run(th, mode, count)
            stuck = 0
            if not self.fair:
                monitor.stop()  # no more preemptions: full speed from here
            while any(not t.done for t in self.threads):
                ready = [t for t in self.threads if self.runnable(t)]
                if not ready:
                    raise Deadlock("threads %s wait for each other's locks" %
                                   [t.tid for t in self.threads if not t.done])
                for t in ready:
                    if self.runnable(t):
                        if self.fair:
                            self._run(t, "i", 20000)
                        else:
                            self._run(t, "-", 0)
                stuck += 1
                if stuck > 10000:
                    raise NoProgress("threads keep waiting")
        finally:
            monitor.stop()
            locks.current = None
            if any(not t.done for t in self.threads):
                self.abort = True  # threads stay parked; the process is discarded
        return self.log

    def signature(self):
        s = repr([(e[0], e[3]) for e in self.log])
        return "%08x" % zlib.crc32(s.encode())
