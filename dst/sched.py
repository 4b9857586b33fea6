"""Baton scheduler: simulated threads and processes on real OS threads of which exactly one runs.

A task runs until it reaches a simulated operation (lock, queue, pipe, storage, sleep); there the scheduler draws who
runs next. Time is virtual: it jumps to the next deadline. When nothing can run and no deadline is left, that is a
deadlock. A "process" is a group of tasks; killing it stops its tasks at once, and nothing they do afterwards
(finally blocks, destructors) reaches the simulated world.
"""
import _thread
import sys
import types

NEW, RUNNABLE, BLOCKED, DONE = 'new', 'runnable', 'blocked', 'done'


class SimKilled(BaseException):
    """the task's process is dead, or the run is being torn down"""


class SimInterrupt(KeyboardInterrupt):
    """an interrupt from the keyboard, or the like, reached the process"""


class SimStuck(BaseException):
    """the run cannot go on: deadlock or no end in sight"""


class Proc:
    def __init__(self, pid, name):
        self.pid = pid
        self.name = name
        self.alive = True
        self.killed = False
        self.ignores_interrupts = False
        self.tasks = []
        self.exit_waiters = []


class Task:
    __slots__ = ('id', 'name', 'proc', 'state', 'gate', 'deadline', 'timed_out', 'on', 'killed', 'pending', 'fn',
                 'error', 'prio', 'done_waiters', 'daemon', 'label')

    def __init__(self, id, name, proc, fn):
        self.id = id
        self.name = name
        self.proc = proc
        self.fn = fn
        self.state = NEW
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.deadline = None
        self.timed_out = False
        self.on = None
        self.killed = False
        self.pending = None
        self.error = None
        self.prio = 0
        self.done_waiters = []
        self.daemon = False
        self.label = None


class Scheduler:
    def __init__(self, world, max_steps=150_000):
        self.world = world
        self.ch = world.ch.sched
        self.max_steps = max_steps
        self.steps = 0
        self.switches = 0
        self.procs = []
        self.tasks = []        # not yet done
        self.n_tasks = 0
        self.main_proc = self.new_proc('main')
        self.main = self._new_task('main', self.main_proc, None)
        self.main.state = RUNNABLE
        self.current = self.main
        self.by_thread = {_thread.get_ident(): self.main}
        self.teardown = False
        self.stuck = None      # description of a deadlock / livelock
        self.errors = []       # (task name, exception) of tasks that died of an exception
        self.interrupt = None  # [waits of main until then, seconds into that wait]
        self.was_interrupted = False
        self.interrupts_all = False  # Ctrl-C in a terminal: the worker processes get it too
        self.policy = None
        self.last = None
        self.streak = 0

    # ---- policy
    def choose_policy(self, plan):
        self.policy = plan.weighted([(3, ('sticky', 4)), (3, ('uniform', 0)), (2, ('sticky', 20)), (3, ('prio', 30)),
                                     (2, ('prio', 200)), (1, ('run', 0))])
        self.starving = 0
        self.starved = plan.below(6)   # in 'run': this task only when nothing else can
        return self.policy

    def new_proc(self, name):
        p = Proc(len(self.procs), name)
        self.procs.append(p)
        return p

    def _new_task(self, name, proc, fn):
        t = Task(self.n_tasks, name, proc, fn)
        self.n_tasks += 1
        if self.n_tasks > 1 and self.policy and self.policy[0] == 'prio':
            t.prio = self.ch.below(16)
        proc.tasks.append(t)
        self.tasks.append(t)
        return t

    # ---- tasks
    def spawn(self, fn, name, proc=None, daemon=True):
        t = self._new_task(name, proc or self.current.proc, fn)
        t.daemon = daemon
        t.state = RUNNABLE
        _thread.start_new_thread(self._body, (t,))
        self.world.note('spawn', name)
        return t

    def _body(self, t):
        t.gate.acquire()
        self.by_thread[_thread.get_ident()] = t
        try:
            if not t.killed:
                t.fn()
        except SimKilled:
            pass
        except SimStuck:
            pass
        except BaseException as e:  # noqa
            t.error = e
            self.errors.append((t.name, e))
            self.world.note('task-error', f'{t.name}: {type(e).__name__}: {str(e)[:200]}')
        finally:
            t.fn = None
            self._finished(t)
            self.by_thread.pop(_thread.get_ident(), None)
            nxt = self.main if self.teardown else self._pick(t)
            self.current = nxt
            nxt.gate.release()

    def _finished(self, t):
        t.state = DONE
        self.tasks.remove(t)
        p = t.proc
        if t in p.tasks:
            p.tasks.remove(t)
        if not p.tasks and p.alive and p is not self.main_proc:
            self._proc_dead(p)
        for w in t.done_waiters:
            self.wake(w)
        t.done_waiters = []

    def _proc_dead(self, p):
        p.alive = False
        for w in p.exit_waiters:
            self.wake(w)
        p.exit_waiters = []
        for f in getattr(p, 'on_exit', ()):
            f()

    def kill_proc(self, p):
        if not p.alive:
            return
        self.world.note('kill', p.name)
        p.killed = True
        for t in list(p.tasks):
            t.killed = True
            self.wake(t)
        self._proc_dead(p)

    def wake(self, t):
        if t.state == BLOCKED:
            t.state = RUNNABLE
            t.deadline = None
            t.on = None

    # ---- scheduling
    def _pick(self, cur):
        """whose turn it is; cur is the task that gives up the processor (it may be done)"""
        if self.stuck:
            return self.main
        while True:
            run = [t for t in self.tasks if t.state == RUNNABLE]
            timed = [t for t in self.tasks if t.state == BLOCKED and t.deadline is not None]
            if timed and (not run or self.ch.chance(1, 12)):
                due = min(t.deadline for t in timed)
                self.world.advance_to(due)
                for t in timed:
                    if t.deadline <= due:
                        t.timed_out = True
                        self.wake(t)
                continue
            if run:
                break
            self._stuck('deadlock: ' + '; '.join(f'{t.name} waits for {t.on}' for t in self.tasks))
            return self.main
        if len(run) == 1:
            return run[0]
        kind, arg = self.policy
        # no task waits for ever while another spins (the pool's own handler thread polls): be fair in the end
        if cur is self.last:
            self.streak += 1
        else:
            self.last, self.streak = cur, 0
        unfair = self.streak > 80
        if unfair:
            self.streak = 0
            cur.prio = -1
            others = [t for t in run if t is not cur]
            if kind != 'prio' or cur.state != RUNNABLE:
                return others[self.ch.below(len(others))]
        if kind == 'prio' and self.steps % 2000 == 0:
            for t in run:
                t.prio = self.ch.below(16)
        if kind == 'uniform':
            return run[self.ch.below(len(run))]
        if kind == 'sticky':
            if cur.state == RUNNABLE and self.ch.below(arg) < arg - 1:
                return cur
            return run[self.ch.below(len(run))]
        if kind == 'prio':
            if cur.state == RUNNABLE and self.ch.chance(1, arg):
                cur.prio = self.ch.below(16)
            return max(run, key=lambda t: (t.prio, -t.id))
        # 'run': keep going, one chosen task last
        self.starving = self.starving + 1 if any(t.id == self.starved for t in run) else 0
        rest = [t for t in run if t.id != self.starved] or run
        if self.starving > 1000:
            self.starving = 0
            rest = [t for t in run if t.id == self.starved]
        if cur in rest:
            return cur
        return rest[self.ch.below(len(rest))]

    def _stuck(self, what):
        if self.stuck is None:
            self.stuck = what
            self.world.note('stuck', what)
            self.main.pending = SimStuck(what)

    def _switch(self):
        cur = self.current
        nxt = self._pick(cur)
        if nxt is not cur:
            self.switches += 1
            self.current = nxt
            self.world.note_switch(nxt)
            nxt.gate.release()
            cur.gate.acquire()
        if cur.pending is not None and not self.teardown:
            e, cur.pending = cur.pending, None
            raise e
        if cur.killed or self.teardown or self.stuck:
            raise SimKilled()

    def me(self):
        """the running task if this is a simulated thread of this run"""
        t = self.by_thread.get(_thread.get_ident())
        return t

    def check(self):
        t = self.me()
        if t is None:
            return None
        if t.killed or self.teardown or self.stuck:
            raise SimKilled()
        return t

    def point(self, kind, detail=''):
        """a place where another task may run"""
        t = self.check()
        if t is None:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self._stuck(f'no end after {self.steps} steps, last {kind} in {t.name}')
        else:
            self.world.note_point(t, kind)
            if len(self.tasks) == 1:
                return
        self._switch()

    def block(self, on, timeout=None):
        """gives up the processor until woken (True) or the virtual deadline passed (False)"""
        t = self.check()
        if t is None:
            raise RuntimeError(f'blocking on {on} outside of the simulation')
        self.steps += 1
        t.state = BLOCKED
        t.on = on
        t.timed_out = False
        t.deadline = None if timeout is None else self.world.now + max(0.0, timeout)
        self._switch()
        return not t.timed_out

    def interrupts(self, t):
        if t is not self.main or self.interrupt is None:
            return None
        self.interrupt[0] -= 1
        return self.world.now + self.interrupt[1] if self.interrupt[0] <= 0 else None

    def interrupted(self):
        self.interrupt = None
        self.was_interrupted = True
        self.world.fault('interrupt', 'of all processes' if self.interrupts_all else 'while waiting')
        if self.interrupts_all:
            for t in self.tasks:
                if t.proc is not self.main.proc and not t.proc.ignores_interrupts:
                    t.pending = KeyboardInterrupt()
                    self.wake(t)
        raise SimInterrupt()

    def sleep(self, secs):
        t = self.check()
        if t is None:
            return
        if len(self.tasks) == 1:
            self.world.advance_to(self.world.now + secs)
            return
        self.world.note_point(t, 'sleep')
        self.block('sleep', max(secs, 1e-6))

    def quiesce(self, max_rounds=10_000):
        """lets the others run until only blocked ones are left (called by main)"""
        n = 0
        while any(t.state == RUNNABLE for t in self.tasks if t is not self.main) and n < max_rounds:
            n += 1
            self.block('quiesce', 1e-6)

    def shutdown(self):
        """ends every task that is left (main only)"""
        self.teardown = True
        for t in list(self.tasks):
            if t is self.main:
                continue
            t.killed = True
            t.state = RUNNABLE
            self.current = t
            t.gate.release()
            self.main.gate.acquire()
        self.current = self.main
        self.by_thread.clear()


# ---------------------------------------------------------------- primitives
def make_threading(get_sched):
    """a stand-in for the threading module on the scheduler of the current run"""
    import threading as real
    mod = types.ModuleType('simthreading')

    def sched():
        return get_sched()

    class Lock:
        _kind = 'lock'

        def __init__(self):
            self._owner = None
            self._waiters = []

        def acquire(self, blocking=True, timeout=-1):
            s = sched()
            if s is None or s.me() is None:
                if self._owner is not None and blocking:
                    return False
                self._owner = 'outside'
                return True
            s.point(self._kind)
            me = s.me()
            while self._owner is not None:
                if not blocking:
                    return False
                self._waiters.append(me)
                ok = s.block(self._kind, None if timeout is None or timeout < 0 else timeout)
                if me in self._waiters:
                    self._waiters.remove(me)
                if not ok and self._owner is not None:
                    return False
            self._owner = me
            return True

        def release(self):
            s = sched()
            if s is None or s.me() is None:
                self._owner = None
                return
            s.check()
            if self._owner is None:
                raise RuntimeError('release unlocked lock')
            self._owner = None
            for w in self._waiters:
                s.wake(w)
            self._waiters = []
            s.point('un' + self._kind)

        def locked(self):
            return self._owner is not None

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *a):
            self.release()

        def _is_owned(self):
            s = sched()
            return self._owner is not None and (s is None or self._owner is s.me())

        def _release_save(self):
            s = sched()
            self._owner = None
            for w in self._waiters:
                s.wake(w)
            self._waiters = []

        def _acquire_restore(self, st):
            self.acquire()

    class RLock(Lock):
        _kind = 'rlock'

        def __init__(self):
            super().__init__()
            self._count = 0

        def acquire(self, blocking=True, timeout=-1):
            s = sched()
            if s is not None and s.me() is not None and self._owner is s.me():
                self._count += 1
                return True
            ok = super().acquire(blocking, timeout)
            if ok:
                self._count = 1
            return ok

        def release(self):
            self._count -= 1
            if self._count <= 0:
                self._count = 0
                super().release()

        def _release_save(self):
            c, self._count = self._count, 0
            super()._release_save()
            return c

        def _acquire_restore(self, st):
            super().acquire()
            self._count = st

    class Condition:
        def __init__(self, lock=None):
            self._lock = lock if lock is not None else RLock()
            self._waiters = []
            self.acquire = self._lock.acquire
            self.release = self._lock.release

        def __enter__(self):
            return self._lock.__enter__()

        def __exit__(self, *a):
            return self._lock.__exit__(*a)

        def wait(self, timeout=None):
            s = sched()
            if not self._lock._is_owned():
                raise RuntimeError('cannot wait on un-acquired lock')
            me = s.check()
            cell = [me, False]
            self._waiters.append(cell)
            saved = self._lock._release_save()
            end = None if timeout is None else s.world.now + timeout
            stop = s.interrupts(me)              # virtual time at which an interrupt reaches this wait
            while not cell[1]:
                left = None if end is None else end - s.world.now
                if left is not None and left <= 0:
                    break
                if stop is not None:
                    left = min(stop - s.world.now, 1e9 if left is None else left)
                    if left <= 0:
                        break
                s.block('condition', left)
            if not cell[1]:
                self._waiters.remove(cell)
            self._lock._acquire_restore(saved)
            if stop is not None and s.world.now >= stop and (end is None or stop < end):
                s.interrupted()
            return cell[1]

        def wait_for(self, predicate, timeout=None):
            s = sched()
            end = None if timeout is None else s.world.now + timeout
            r = predicate()
            while not r:
                left = None if end is None else end - s.world.now
                if left is not None and left <= 0:
                    break
                self.wait(left)
                r = predicate()
            return r

        def notify(self, n=1):
            s = sched()
            if s is None or s.me() is None:
                return
            s.check()
            if not self._lock._is_owned():
                raise RuntimeError('cannot notify on un-acquired lock')
            for cell in self._waiters[:n]:
                cell[1] = True
                s.wake(cell[0])
            del self._waiters[:n]

        def notify_all(self):
            self.notify(len(self._waiters))

        notifyAll = notify_all

    class Event:
        def __init__(self):
            self._cond = Condition(Lock())
            self._flag = False

        def is_set(self):
            return self._flag

        isSet = is_set

        def set(self):
            with self._cond:
                self._flag = True
                self._cond.notify_all()

        def clear(self):
            with self._cond:
                self._flag = False

        def wait(self, timeout=None):
            with self._cond:
                if not self._flag:
                    self._cond.wait(timeout)
                return self._flag

    class Semaphore:
        def __init__(self, value=1):
            self._cond = Condition(Lock())
            self._value = value

        def acquire(self, blocking=True, timeout=None):
            with self._cond:
                while self._value == 0:
                    if not blocking:
                        return False
                    if not self._cond.wait(timeout) and timeout is not None:
                        return False
                self._value -= 1
                return True

        __enter__ = acquire

        def release(self, n=1):
            with self._cond:
                self._value += n
                self._cond.notify(n)

        def __exit__(self, *a):
            self.release()

    class Thread:
        _n = 0

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            s = sched()
            self.name = name or f'thread-{s.n_tasks if s else 0}' + (f'({target.__name__})'
                                                                     if hasattr(target, '__name__') else '')
            self.daemon = bool(daemon)
            self._task = None
            self.ident = None
            self._state = None

        def run(self):
            try:
                if self._target:
                    self._target(*self._args, **self._kwargs)
            finally:
                del self._target, self._args, self._kwargs

        def start(self):
            s = sched()
            if s is None:
                return
            self._task = s.spawn(self.run, self.name, daemon=self.daemon)
            self._task.label = self
            self.ident = self._task.id + 1
            s.point('start')

        def is_alive(self):
            return self._task is not None and self._task.state != DONE

        def join(self, timeout=None):
            s = sched()
            if s is None or s.me() is None or self._task is None:
                return
            s.point('join')
            if self.is_alive():
                me = s.me()
                end = None if timeout is None else s.world.now + timeout
                while self.is_alive():
                    self._task.done_waiters.append(me)
                    left = None if end is None else end - s.world.now
                    if left is not None and left <= 0:
                        return
                    s.block(f'end of {self.name}', left)

        def getName(self):
            return self.name

        def setDaemon(self, d):
            self.daemon = d

        @property
        def native_id(self):
            return self.ident

    class _Main:
        name, daemon, ident = 'MainThread', False, 1

        def is_alive(self):
            return True

    main_thread = _Main()

    def current_thread():
        s = sched()
        t = s.me() if s else None
        if t is None or t.id == 0:
            return main_thread
        if t.label is not None:
            return t.label
        th = Thread.__new__(Thread)
        th.name, th._task, th.daemon, th.ident = t.name, t, t.daemon, t.id + 1
        return th

    def get_ident():
        s = sched()
        t = s.me() if s else None
        return 1 if t is None else t.id + 1

    for k, v in list(locals().items()):
        if k[0] != '_' and (isinstance(v, type) or k in ('current_thread', 'get_ident')):
            setattr(mod, k, v)
    mod.BoundedSemaphore = Semaphore
    mod.main_thread = lambda: main_thread
    mod.local = real.local
    mod.__getattr__ = lambda name: getattr(real, name)
    return mod
