"""Controlled scheduler: runs real threads one at a time and preempts them exactly where a
schedule says, at every line (or bytecode instruction) of the package under test.

A schedule is (first thread, [(step, thread), ...]): "when the execution reaches global
step `step`, switch to `thread`". Threads otherwise run until they end; then the lowest
unfinished one continues. All schedules up to a number of preemptions are enumerated.
"""
import sys
import threading
import time

PKG = '/repo/kernelmethods/'


class Stall(Exception):
    pass


class Run:
    def __init__(self, bodies, first, preempts, opcodes, path=PKG):
        self.path = path
        self.n = len(bodies)
        self.bodies = bodies
        self.first = first
        self.pre = list(preempts)
        self.opcodes = opcodes
        self.step = 0
        self.next = self.pre[0][0] if self.pre else -1
        self.cur = first
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.finished = [False] * self.n
        self.results = [None] * self.n
        self.done = threading.Event()
        self.free = False
        self.owner = []           # owner of each step: for the enumeration
        self.hit = 0              # preemptions that took effect
        self.where = []

    def tracer(self, tid):
        def local(frame, event, arg):
            if event == ('opcode' if self.opcodes else 'line') and not self.free:
                self.step += 1
                self.owner.append(tid)
                if self.step == self.next:
                    self.switch(tid, frame)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.path) and not self.free:
                if self.opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None
        return glob

    def switch(self, tid, frame):
        _, target = self.pre.pop(0)
        self.next = self.pre[0][0] if self.pre else -1
        if target == tid or self.finished[target]:
            return
        self.hit += 1
        self.where.append('thread {} stopped at {}:{}'.format(
            tid, frame.f_code.co_name, frame.f_lineno))
        self.cur = target
        self.sems[target].release()
        if not self.free:
            self.sems[tid].acquire()

    def thread(self, tid):
        self.sems[tid].acquire()
        sys.settrace(self.tracer(tid))
        try:
            self.results[tid] = ('ok', self.bodies[tid]())
        except Exception as e:
            self.results[tid] = ('raised', e)
        finally:
            sys.settrace(None)
            self.finished[tid] = True
            for t in range(self.n):
                if not self.finished[t]:
                    self.cur = t
                    self.sems[t].release()
                    break
            else:
                self.done.set()

    def go(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True)
              for i in range(self.n)]
        for t in ts:
            t.start()
        self.sems[self.first].release()
        last, since = -1, time.time()
        while not self.done.wait(0.5):
            if self.step == last and not self.free:
                # the running thread waits for something a stopped one holds
                # (a lock): give up control, let all of them run
                self.free = True
                for s in self.sems:
                    s.release()
            if time.time() - since > 120:
                raise Stall('threads do not finish')
            last = self.step
        for t in ts:
            t.join()
        return self


def explore(acc, make, judge, bound, opcodes, label, limit, path=PKG):
    """make() -> (bodies, audit); judge(results) / audit() -> None | violation text.
    Enumerates every schedule with at most `bound` preemptions in files below path."""
    stalls = [0]

    def one(first, pre):
        bodies, audit = make()
        try:
            r = Run(bodies, first, pre, opcodes, path).go()
        except Stall as e:
            acc.violate('{}: {}'.format(label, e), 'first {} preemptions {}'.format(first,
                                                                                   pre))
            return None
        acc.traces += 1
        acc.transitions += r.step
        if r.free:
            stalls[0] += 1
            acc.note('schedules_left_to_the_os_because_of_locks')
        acc.out((label, tuple(r.owner[i] for i in range(0, len(r.owner), 7))))
        bad = judge(r.results) or audit()
        if bad:
            acc.violate('{}: {}'.format(label, bad), 'thread {} first; {}'.format(
                first, '; '.join(r.where)) or str(pre))
            return None
        return r

    n = len(make()[0])

    def rec(first, pre, left):
        if acc.full or time.time() > limit or stalls[0] > 40:
            return False
        r = one(first, pre)
        if r is None:
            return True
        acc.states += 1
        if not left or r.free:
            return True
        lo = pre[-1][0] + 1 if pre else 1
        for k in range(lo, r.step + 1):
            for t in range(n):
                if t != r.owner[k - 1] and not rec(first, pre + [(k, t)], left - 1):
                    return False
        return True

    ok = True
    for first in range(n):
        ok = rec(first, [], bound) and ok
    if not ok and not acc.full:
        acc.capped.append('{}: time budget, {} schedules'.format(label, acc.traces))
