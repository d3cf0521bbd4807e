"""Explicit-state breadth-first search whose transition function is the real code."""
import collections
import copy
import time

from mc import core
from mc.canon import canon


def bfs(acc, init, ops, step, max_states, label, max_depth=None, seconds=None):
    """init: () -> world (real objects + model); ops: list of op descriptions, or a
    function world -> list; step(world, op) -> None | violation text, executes op in place.

    The search runs to closure (no new states) unless max_states or the time budget is
    reached, in which case the cap and the depth completed below it are reported.
    States are forked by deep copy; if the objects can not be copied, by re-execution
    of their history.
    """
    limit = min(core.deadline(), time.time() + (seconds or core.task_seconds()))
    w0 = init()
    try:
        copy.deepcopy(w0)
        copyable = True
    except Exception:
        copyable = False
        acc.note('forked_by_reexecution')

    def fork(world, hist):
        if copyable:
            return copy.deepcopy(world)
        w = init()
        for op in hist:
            step(w, op)
        return w

    seen = {canon(w0)}
    front = collections.deque([(w0, ())])

    def capped(why):
        acc.capped.append('{}: {} after {} states, all histories shorter than {} covered'
                          ''.format(label, why, len(seen), len(hist) + 1))
        acc.states += len(seen)
        acc.traces += len(seen)

    while front:
        world, hist = front.popleft()
        if max_depth is not None and len(hist) >= max_depth:
            acc.note('searches_bounded_by_depth_{}'.format(max_depth))
            break
        if time.time() > limit:
            return capped('time budget')
        for op in (ops(world) if callable(ops) else ops):
            w = fork(world, hist)
            bad = step(w, op)
            acc.transitions += 1
            if bad:
                acc.violate('{}: {}'.format(label, bad),
                            'history: ' + ' ; '.join(map(str, hist + (op,))))
                if acc.full:
                    return
                continue
            k = canon(w)
            if k not in seen:
                if len(seen) >= max_states:
                    return capped('state cap')
                seen.add(k)
                front.append((w if copyable else None, hist + (op,)))
                if len(hist) + 1 > acc.notes.get('max_depth', 0):
                    acc.notes['max_depth'] = len(hist) + 1
                    acc.samples = ['{}: {}'.format(label, ' ; '.join(
                        map(str, hist + (op,))))] + acc.samples[:1]
    acc.states += len(seen)
    acc.traces += len(seen)      # each state's own history was executed step by step
