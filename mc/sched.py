"""
Controlled scheduler: two or three real threads run real melodia code, but only the holder of the baton runs. Scheduling points are
in the code of melodia (see instrument.py): at function entries ('call'), also before every statement ('line'), also after every
call, attribute and item read ('expr'). A schedule is a
tuple of (thread to run, number of scheduling points before it is preempted); when it is used up, threads run to
completion in order. The same schedule gives the same execution.
"""
import os
import sys
import threading

from mc import core, instrument

SRC = os.path.join(core.REPO, 'src') + os.sep
STALL_S = 10.0
LEVELS = {'call': 0, 'line': 1, 'expr': 2}
_local = threading.local()      # .run, .me: set in controlled threads
_RealLock, _RealRLock = threading.Lock, threading.RLock


class Lock:
    """A lock of the code under test. In a controlled thread, waiting for it means running somebody else."""
    _make = staticmethod(_RealLock)

    def __init__(self):
        self._lock = self._make()

    def acquire(self, blocking=True, timeout=-1):
        run = getattr(_local, 'run', None)
        if run is None or run.free or not blocking:
            return self._lock.acquire(blocking, timeout) if blocking else self._lock.acquire(False)
        waits = 0
        while not self._lock.acquire(False):
            waits += 1
            if waits > 10000 or not run.wait(_local.me):
                raise RuntimeError('deadlock')
            if run.free:
                return self._lock.acquire(True, timeout)
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class RLock(Lock):
    _make = staticmethod(_RealRLock)


_depth = -1     # the finest kind of point which counts at present, -1: no threads are being scheduled


def _entry():
    if _depth >= 0:
        run = getattr(_local, 'run', None)
        if run is not None:
            run.point(_local.me)


def _stmt():
    if _depth >= 1:
        run = getattr(_local, 'run', None)
        if run is not None:
            run.point(_local.me)


def _expr(x):
    if _depth >= 2:
        run = getattr(_local, 'run', None)
        if run is not None:
            run.point(_local.me)
    return x


def install_points():
    """Scheduling points in melodia itself; called before it is imported."""
    instrument.install(_entry, _stmt, _expr)


def install():
    """Locks created by melodia are made visible to the scheduler; called before melodia is imported."""
    def factory(real, ours):
        def make():
            return ours() if sys._getframe(1).f_code.co_filename.startswith(SRC) else real()
        return make
    threading.Lock = factory(_RealLock, Lock)
    threading.RLock = factory(_RealRLock, RLock)



class Run:
    def __init__(self, bodies, schedule, level):
        self.bodies = bodies
        self.level = LEVELS[level]
        self.schedule = list(schedule)
        self.batons = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.steps = [0] * len(bodies)
        self.results = [None] * len(bodies)
        self.finished = threading.Semaphore(0)
        self.left = None          # points until the running thread is preempted, None: run to completion
        self.switches = 0
        self.trail = []
        self.free = False

    def next_slice(self):
        """Chooses who runs next and for how long."""
        while self.schedule:
            thread, points = self.schedule.pop(0)
            if not self.done[thread]:
                self.left = points
                return thread
        self.left = None
        for thread in range(len(self.bodies)):
            if not self.done[thread]:
                return thread
        return None

    def hand_over(self, me):
        thread = self.next_slice()
        if thread is None:
            self.finished.release()
            return
        if thread != me:
            self.switches += 1
            self.trail.append((me, self.steps[me]))
            self.batons[thread].release()
            if not self.done[me]:
                self.batons[me].acquire()

    def wait(self, me):
        """The running thread can not go on: some other one runs to completion or until it waits too."""
        others = [t for t in range(len(self.bodies)) if t != me and not self.done[t]]
        if not others:
            return False
        # round robin, so that a chain of waiting threads ends at the one which can run
        thread = min([t for t in others if t > me] or others)
        self.left = None
        self.switches += 1
        self.batons[thread].release()
        self.batons[me].acquire()
        return True

    def point(self, me):
        if self.free:
            return
        self.steps[me] += 1
        if self.left is not None:
            if self.left == 0:
                self.hand_over(me)
            if self.left is not None:
                self.left -= 1

    def thread(self, me):
        self.batons[me].acquire()
        _local.run, _local.me = self, me
        try:
            self.results[me] = ('value', self.bodies[me]())
        except BaseException as e:
            self.results[me] = ('exception', type(e).__name__, str(e))
        finally:
            _local.run = None
        self.done[me] = True
        if not self.free:
            self.hand_over(me)
        elif all(self.done):
            self.finished.release()

    def go(self):
        global _depth
        _depth = self.level
        try:
            return self.run()
        finally:
            _depth = -1

    def run(self):
        threads = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in threads:
            t.start()
        first = self.next_slice()
        self.batons[first].release()
        if not self.finished.acquire(timeout=STALL_S):
            # the running thread waits for something the other one holds: let all of them run
            self.free = True
            for b in self.batons:
                b.release()
            if not self.finished.acquire(timeout=STALL_S):
                return [('deadlock',)] * len(self.bodies)
        for t in threads:
            t.join(STALL_S)
        return self.results
