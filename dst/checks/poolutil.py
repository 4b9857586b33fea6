"""Parallel pipelines under the simulated scheduler."""
from .. import mappers
from ..core import Violation
from ..simmp import alive_workers


def setup(w):
    """scheduler and drawn speeds"""
    p = w.plan
    w.work_times = p.pick([[0], [1, 0], [0, 5, 1], [30, 0, 0, 0], [2, 3], [0, 0, 0, 0, 0, 200]])
    w.stall_den = w.fault_ch.pick([0, 0, 2, 5, 20])
    w.scheduler()
    return p


def feed(w, items, fail_at=None, error=None, endless=False):
    """the input stream: it takes drawn time, may fail, and may never end"""
    slow = w.plan.pick([0, 0, 1, 2])
    if endless:
        w.probe('endless-input')

    def g():
        for i, x in enumerate(items):
            if fail_at is not None and i == fail_at:
                w.fault('input-error', str(i))
                raise error
            s = w.sched
            if slow and s is not None and s.me() is not None:
                if slow == 1:
                    s.point('input')
                else:
                    s.sleep(0.002 * (i % 3))
            yield x
        if fail_at is not None and fail_at >= len(items):
            w.fault('input-error', 'end')
            raise error
        while endless:
            for x in items:
                w.sched.point('input')
                yield x
    if endless:
        return g()
    if fail_at is None and w.plan.chance(1, 4):
        w.probe('whole-input')
        return w.plan.pick([list, tuple, Items])(items)
    return g()


class Items:
    """an iterable that is no iterator and has no length"""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def pause(w, style, i):
    """the consumer's own work"""
    if style == 1:
        w.sched.point('consume')
    elif style == 2:
        w.sched.sleep(0.003 * (i % 4))
    elif style == 3 and i == 0:
        w.sched.sleep(5.0)


def released(w, what):
    """no worker process or pool thread is left"""
    import gc
    gc.collect()
    w.sched.quiesce()
    # daemon threads of a pool that was closed end at their next poll
    for _ in range(30):
        if not alive_workers(w):
            return
        w.sched.sleep(0.2)
    left = alive_workers(w)
    if left:
        raise Violation('workers-left', f'{what}: still alive: {left}')


def same(exc, kind, msg):
    return type(exc).__name__ == kind and msg in str(exc)


def interrupt(w, n):
    """an interrupt reaches the consumer while it waits for a result"""
    f = w.fault_ch
    w.sched.interrupt = [1 + f.below(2 * n + 2), f.pick([0, 0, 0.0005, 0.003, 0.02, 0.1, 3.0])]
    w.sched.interrupts_all = f.chance(1, 2)         # a terminal sends it to all


def interrupt_driver(w):
    """an interrupt reaches the driver while it waits for its tasks"""
    f = w.fault_ch
    w.sched.interrupt = [1 + f.below(f.pick([3, 12, 40])), f.pick([0, 0, 0.001, 1.0, 7.0])]


def must_interrupt(w, exc):
    w.probe('interrupted')
    if w.sched.interrupts_all:
        w.probe('all-interrupted')
    w.nontrivial = True
    if not isinstance(exc, KeyboardInterrupt):
        raise Violation('interrupt-lost', f'the caller was interrupted while it waited, and got {exc!r}')
