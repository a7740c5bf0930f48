"""Cooperative tasks: real threads, exactly one of which runs at any time.

A task gives up control only inside user-supplied code (``Sched.point()``); the simulator
decides which task continues, for how many points, and whether the user code then raises.
"""
import threading

from .core import InjectedFault


class Abandoned(BaseException):
    """Delivered like a KeyboardInterrupt: the caller gives up on the run."""


CURRENT = threading.local()  # the simulated task of this thread, if any


class SwitchLock:
    """A lock whose contention is decided by the simulator inside a simulated task.

    Outside of simulated tasks it is the wrapped lock.
    """

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        task = getattr(CURRENT, "task", None)
        if task is None:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking:
                return False
            task.block()
        return True

    def release(self):
        self._real.release()
        task = getattr(CURRENT, "task", None)
        if task is not None:
            for t in task.sched.tasks:
                t.blocked = False

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self.__dict__["_real"], name)


class Task:
    blocked = False

    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.done, self.result, self.error = False, None, None
        self.budget, self.inject, self.points, self.hurt = 0, None, 0, False
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.started = False

    def _main(self):
        self.go.acquire()
        self.sched.local.task = self
        CURRENT.task = self
        try:
            self._deliver()
            self.result = self.fn()
        except BaseException as exc:  # noqa: BLE001
            self.error = exc
        CURRENT.task = None
        self.done = True
        self.back.release()

    def block(self):
        """Wait for a lock: give up control until some lock is released."""
        self.blocked = True
        self.back.release()
        self.go.acquire()
        self._deliver()

    def _deliver(self):
        if self.inject is not None:
            exc, self.inject = self.inject, None
            self.hurt = True
            raise exc

    def point(self):
        self.points += 1
        self.budget -= 1
        if self.budget <= 0:
            self.back.release()
            self.go.acquire()
        self._deliver()

    def resume(self, budget=1, inject=None):
        """Let the task run for ``budget`` points (or to its end)."""
        assert not self.done
        self.blocked = False
        if not self.started:
            self.started = True
            self.thread.start()
        self.budget, self.inject = budget, inject
        self.go.release()
        self.back.acquire()
        if self.done:
            self.thread.join()


class Sched:
    def __init__(self):
        self.local = threading.local()
        self.tasks = []

    def point(self):
        task = getattr(self.local, "task", None)
        if task is not None:
            task.point()

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    def shutdown(self):
        for t in self.tasks:
            n = 0
            while t.started and not t.done and n < 50:
                n += 1
                t.resume(1, Abandoned("end of the simulation"))


__all__ = ["Abandoned", "InjectedFault", "Sched", "Task"]
