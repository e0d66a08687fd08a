"""Locks created by einsteinpy code become visible to the simulator's scheduler.

Outside a simulation they behave as ordinary locks; inside, a thread that would
block hands control back to the scheduler, and if nobody can run the deadlock is
reported."""
import sys
import threading

_real = {"Lock": threading.Lock, "RLock": threading.RLock}
created = 0
current = None  # the running Scheduler, if any


class SimLock:
    def __init__(self, reentrant):
        global created
        created += 1
        self._re = reentrant
        self._owner = None
        self._count = 0
        self._mutex = _real["RLock"]() if reentrant else _real["Lock"]()

    def acquire(self, blocking=True, timeout=-1):
        sch = current
        me = sch.me() if sch is not None else None
        if me is None:
            return self._mutex.acquire(blocking, timeout)
        while self._owner is not None and not (self._re and self._owner is me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0 and sch.timeout_fires(me):
                return False
            sch.block(me, self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        sch = current
        me = sch.me() if sch is not None else None
        if me is None:
            return self._mutex.release()
        if self._owner is None or (self._re and self._owner is not me):
            raise RuntimeError("release of an un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None or (not self._re and self._mutex.locked())

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # locks cannot be pickled or copied, like the real ones
    def __reduce__(self):
        raise TypeError("cannot pickle '%s' object" % ("RLock" if self._re else "lock"))

    _is_owned = lambda self: self._owner is not None
    _at_fork_reinit = lambda self: None


def _from_repo():
    f = sys._getframe(2)
    return f.f_globals.get("__name__", "").split(".")[0] == "einsteinpy"


def _lock(*a):
    return SimLock(False) if _from_repo() else _real["Lock"](*a)


def _rlock(*a):
    return SimLock(True) if _from_repo() else _real["RLock"](*a)


def install():
    threading.Lock = _lock
    threading.RLock = _rlock
