"""Shared machinery: bookkeeping, parallel exploration, evidence, verdict lines.

A check explores a finite, stated space of executions of the *real* kernelmethods
code imported from /repo and compares every step with a reference model. Nothing here
samples: tasks are enumerated, and each task enumerates its own sub-space.
"""
import base64
import hashlib
import json
import multiprocessing as mp
from multiprocessing import connection
import os
import pickle
import sys
import threading
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
REPO = '/repo'
MAX_VIOL = 5            # stop collecting after this many (they are all reported alike)


_BUDGET = {'end': None, 'task': 60.0}


def deadline():
    """Explorations stop (and say so in the evidence) at this time"""
    return _BUDGET['end'] or float('inf')


def task_seconds():
    return _BUDGET['task']


class Acc:
    """Counts what one task explored; merged over tasks."""

    def __init__(self):
        self.states = 0          # distinct (implementation, model) states / input points
        self.transitions = 0     # operations executed on the real code and judged
        self.traces = 0          # complete histories replayed on the real code
        self.outcomes = set()    # hashes of distinct observed results
        self.samples = []
        self.violations = []     # (what, trace)
        self.capped = []
        self.notes = {}

    def out(self, obj):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hashlib.md5(repr(obj).encode()).digest()[:8])

    def sample(self, s, limit=2):
        if len(self.samples) < limit:
            self.samples.append(str(s)[:600])

    def violate(self, what, trace):
        if len(self.violations) < MAX_VIOL:
            self.violations.append((str(what)[:2000], str(trace)[:4000]))

    @property
    def full(self):
        return len(self.violations) >= MAX_VIOL

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.outcomes |= o.outcomes
        if len(self.samples) < 6:
            self.samples += o.samples[:6 - len(self.samples)]
        self.capped += o.capped
        for k, v in o.notes.items():
            self.notes[k] = max(self.notes.get(k, 0), v) if k.startswith('max') \
                else self.notes.get(k, 0) + v


def _run_task(arg, watch=None):
    fn, task = arg
    acc = Acc()
    if time.time() > deadline():
        acc.capped.append('{}{}: time budget'.format(fn.__name__, task)[:200])
        return task, acc
    if watch is not None:
        watch[0] = acc
    warnings.simplefilter('ignore')
    try:
        import numpy as np
        with np.errstate(all='ignore'):
            fn(acc, *task)
    except Exception:            # anything the real code threw at us unexpectedly
        acc.violate('unexpected failure while exploring', traceback.format_exc()[-3500:])
    return task, acc


def _worker(fn, tasks, conn, others, beat):
    """serves task numbers until told to stop; a side thread publishes its progress"""
    for c in others:
        c.close()
    watch = [None]

    def pulse():
        while True:
            acc = watch[0]
            if acc is not None:
                beat.value = acc.transitions + acc.states + acc.traces
            time.sleep(1.0)
    threading.Thread(target=pulse, daemon=True).start()
    try:
        while True:
            i = conn.recv()
            if i is None:
                break
            conn.send((i, _run_task((fn, tasks[i]), watch)[1]))
    except (EOFError, OSError, KeyboardInterrupt):
        pass
    os._exit(0)


class Pool:
    """Forked workers, each on its own pipe, so that a worker that dies or never returns
    cannot block the check. Yields (task number, Acc)."""

    def __init__(self, fn, tasks, jobs, stall):
        self.fn, self.tasks, self.stall = fn, tasks, stall
        self.mp = mp.get_context('fork')
        self.todo = list(range(len(tasks)))[::-1]
        self.died = {}
        self.quiet = 0.0
        self.live = {}
        for _ in range(min(jobs, len(tasks))):
            self.spawn()

    def spawn(self):
        here, there = self.mp.Pipe()
        beat = self.mp.Value('q', 0, lock=False)
        p = self.mp.Process(target=_worker, daemon=True,
                            args=(self.fn, self.tasks, there, [here] + list(self.live), beat))
        p.start()
        there.close()
        self.live[here] = dict(p=p, task=None, beat=beat, last=None, t=time.time())
        self.feed(here)

    def feed(self, c):
        w = self.live[c]
        w.update(task=self.todo.pop() if self.todo else None, last=None, t=time.time())
        try:
            c.send(w['task'])
        except (BrokenPipeError, OSError):
            pass

    def drop(self, c):
        w = self.live.pop(c)
        w['p'].kill()
        w['p'].join(10)
        c.close()
        return w

    def close(self):
        for c in list(self.live):
            self.drop(c)

    def results(self):
        while any(w['task'] is not None for w in self.live.values()):
            ready = connection.wait(list(self.live), 2.0)
            for c in ready:
                w = self.live[c]
                try:
                    i, acc = c.recv()
                except (EOFError, OSError):
                    yield from self.dead(c)
                    continue
                self.feed(c)
                yield i, acc
            now = time.time()
            for c, w in list(self.live.items()):
                if w['task'] is None or c in ready:
                    continue
                self.quiet = max(self.quiet, now - w['t'])
                if w['beat'].value != w['last']:
                    w.update(last=w['beat'].value, t=now)
                elif now - w['t'] > self.stall:
                    self.drop(c)
                    acc = Acc()
                    acc.transitions = 1
                    acc.violate('an operation on the real code did not return within {} s '
                                '(task {})'.format(self.stall, str(self.tasks[w['task']])[:300]),
                                'no progress after {} steps'.format(w['last']))
                    yield w['task'], acc
                    self.spawn()
            if time.time() > deadline() + 20:
                return

    def dead(self, c):
        w = self.drop(c)
        i, code = w['task'], w['p'].exitcode
        if i is None:
            return
        self.died[i] = self.died.get(i, 0) + 1
        if self.died[i] < 2:
            self.todo.append(i)         # once more, in a fresh process
        else:
            acc = Acc()
            if code in (-11, -6, -8, -4, -7):
                acc.transitions = 1
                acc.violate('the interpreter crashed (signal {}) in task {}'.format(
                    -code, str(self.tasks[i])[:300]), '')
            else:
                acc.capped.append('worker ended with {} in task {}'.format(
                    code, str(self.tasks[i])[:150]))
            yield i, acc
        self.spawn()


class Ctx:
    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.acc = Acc()
        self.viol = []           # (what, trace, fn, task)
        self.assumptions = []
        self.bounds = {}
        self.exhaustive = True
        self.t0 = time.time()
        _BUDGET['end'] = self.t0 + (6 * 3600 if tier == 'thorough' else 480)
        _BUDGET['task'] = 3600.0 if tier == 'thorough' else 120.0
        self.stall = 3600 if tier == 'thorough' else 200
        self.jobs = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def explore(self, fn, tasks, parallel=True):
        """Run fn(acc, *task) for every task: the deciding enumeration."""
        tasks = [t if isinstance(t, tuple) else (t,) for t in tasks]
        self.bounds[fn.__name__] = self.bounds.get(fn.__name__, 0) + len(tasks)
        pool = Pool(fn, tasks, self.jobs if parallel else 1, self.stall)
        done = 0
        try:
            for i, acc in pool.results():
                done += 1
                self._take(fn, tasks[i], acc)
                if len(self.viol) >= MAX_VIOL or time.time() > deadline():
                    break
        finally:
            pool.close()
        self.acc.notes['max_quiet_s'] = round(max(pool.quiet, self.acc.notes.get(
            'max_quiet_s', 0)), 1)
        if done < len(tasks) and len(self.viol) < MAX_VIOL:
            self.acc.capped.append('{}: time budget, {} of {} tasks'.format(
                fn.__name__, done, len(tasks)))

    def _take(self, fn, task, acc):
        for what, trace in acc.violations:
            self.viol.append((what, trace, fn, task))
        self.acc.merge(acc)

    # ------------------------------------------------------------------ output
    def finish(self):
        a = self.acc
        replay = None
        if self.viol:
            rdir = os.path.join(EVID, 'replays')
            os.makedirs(rdir, exist_ok=True)
            for i, (what, trace, fn, task) in enumerate(self.viol):
                path = os.path.join(rdir, '{}-{}.json'.format(self.prop, i))
                json.dump(dict(property=self.prop, what=what, trace=trace,
                               case='{}.{}{}'.format(fn.__module__, fn.__name__,
                                                     repr(task)[:2000]),
                               module=fn.__module__, function=fn.__name__,
                               task=base64.b64encode(pickle.dumps(task)).decode(),
                               how='cd /verif && ./check {} --replay {}'
                                   ''.format(self.prop, path)),
                          open(path, 'w'), indent=1)
                replay = replay or path
        cov = dict(states=a.states, transitions=a.transitions,
                   traces_validated_against_impl=a.traces,
                   distinct_outcomes=len(a.outcomes),
                   exhaustive=bool(self.exhaustive and not a.capped and not self.viol),
                   bounds=dict(self.bounds), samples=a.samples or ['(none)'],
                   trace_validation='every transition is executed on the real code '
                                    'imported from {}; the model is only the oracle, '
                                    'so every model trace is an implementation trace'
                                    ''.format(REPO))
        if a.capped:
            cov['capped'] = a.capped[:10]
        if a.notes:
            cov['notes'] = a.notes
        os.makedirs(EVID, exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('{}: states={} transitions={} traces={} outcomes={} exhaustive={} '
              '{:.1f}s'.format(self.prop, a.states, a.transitions, a.traces,
                               len(a.outcomes), cov['exhaustive'], ev['wall_s']))
        if not self.viol:
            if a.transitions == 0:
                print('ERROR: nothing was explored')
                return 2
            return 0
        for what, trace, fn, task in self.viol[:3]:
            print('--- {}\n    {}'.format(what, trace.replace('\n', '\n    ')))
        print('VIOLATION property={} replay={}'.format(self.prop, replay))
        return 1


def replay(path):
    d = json.load(open(path))
    mod = __import__(d['module'], fromlist=['x'])
    task = pickle.loads(base64.b64decode(d['task']))
    _, acc = _run_task((getattr(mod, d['function']), task))
    for what, trace in acc.violations:
        print('--- {}\n{}'.format(what, trace))
    print('reproduced' if acc.violations else 'NOT reproduced')
    return 1 if acc.violations else 0
