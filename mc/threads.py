"""Controlled execution of two threads of real code.

Exactly one thread runs at any time.  Control can change hands at the
scheduling points: every executed source line of the package (level 'line')
or every call of one of its functions (level 'call').  A schedule is a set of
(thread, point number) pairs at which the running thread is preempted.
"""

import os
import sys
import threading


def package_dir():
    import reor
    return os.path.dirname(os.path.abspath(reor.__file__))


class Run:
    def __init__(self, tasks, switches, level='line', first=0, alternate=0):
        self.tasks = tasks
        self.switches = set(switches)
        self.alternate = alternate
        self.level = level
        self.turn = first
        self.counts = [0] * len(tasks)
        self.results = [None] * len(tasks)
        self.errors = [None] * len(tasks)
        self.done = [False] * len(tasks)
        self.cond = threading.Condition()
        self.taken = 0
        self.dir = package_dir() + os.sep

    def _point(self, tid):
        self.counts[tid] += 1
        n = self.counts[tid]
        if (tid, n) in self.switches or (
                self.alternate and n % self.alternate == 0):
            other = 1 - tid
            if self.done[other]:
                return
            self.taken += 1
            with self.cond:
                self.turn = other
                self.cond.notify_all()
                while self.turn != tid:
                    self.cond.wait()

    def _thread(self, tid):
        with self.cond:
            while self.turn != tid:
                self.cond.wait()

        def local(frame, event, arg):
            if event == 'line':
                self._point(tid)
            return local

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.dir):
                return None
            if self.level == 'call':
                self._point(tid)
                return None
            return local

        sys.settrace(tracer)
        try:
            self.results[tid] = self.tasks[tid]()
        except BaseException as e:  # reported by the caller
            self.errors[tid] = e
        finally:
            sys.settrace(None)
            with self.cond:
                self.done[tid] = True
                self.turn = 1 - tid
                self.cond.notify_all()

    def execute(self):
        ts = [threading.Thread(target=self._thread, args=(i,), daemon=True)
              for i in range(len(self.tasks))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self
