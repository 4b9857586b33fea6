"""multiprocessing pools in the simulation.

The pool code that runs is the standard library's own multiprocessing/pool.py (Pool and its three handler threads,
worker loop, imap iterators, termination), executed as a private copy whose threading, queue and time are the simulated
ones. Stubs: processes are groups of simulated tasks, pipes are bounded buffers of pickled messages. Everything that
crosses a process border is pickled and unpickled.
"""
import importlib.util
import itertools
import multiprocessing
import multiprocessing.context
import multiprocessing.pool as real_pool
import multiprocessing.util as mp_util
import os
import pickle
import queue as real_queue
import signal
import sys
import time as real_time
import types

from . import core_ref
from .sched import make_threading, SimKilled


def sched():
    return core_ref.sched()


threading = make_threading(sched)


def _copy_module(name, source_module, **override):
    spec = importlib.util.find_spec(source_module.__name__)
    src = open(spec.origin, encoding='utf8').read()
    mod = types.ModuleType(name)
    mod.__package__ = source_module.__name__.rpartition('.')[0]
    mod.__file__ = spec.origin
    sys.modules[name] = mod
    exec(compile(src, spec.origin, 'exec'), mod.__dict__)
    mod.__dict__.update(override)
    return mod


def _now():
    w = core_ref.world()
    return w.now if w else real_time.monotonic()


def _sleep(s):
    sc = sched()
    if sc is not None:
        sc.sleep(s)


simtime = types.SimpleNamespace(sleep=_sleep, time=_now, monotonic=_now)
simqueue = _copy_module('dst_simqueue', real_queue, threading=threading, time=_now)
simqueue.SimpleQueue = simqueue._PySimpleQueue
simqueue.Empty, simqueue.Full = real_queue.Empty, real_queue.Full
# the copy's own Empty class was bound at class creation through globals, so the override above is enough


def _stall(s, what):
    """a worker process is not given the processor for a while"""
    if s is None or s.me() is None:
        return
    w = s.world
    den = w.stall_den
    if den and s.me().proc is not s.main.proc and w.ch.fault.chance(1, den):
        t = w.ch.fault.pick((0.004, 0.03, 0.2, 2.0))
        w.fault('stalled-worker', f'{s.me().name} {what} {t}s')
        s.sleep(t)


class QLock(threading.Lock):
    """the lock of a pipe end, shared by processes"""
    _kind = 'qlock'


class Pipe:
    """a pipe of bounded size: a message larger than the room left is there in part"""
    CAPS = (65536, 2048, 512, 16384)

    def __init__(self):
        w = core_ref.world()
        self.cap = w.plan.pick(self.CAPS) if w else 65536
        self.items = []       # [message, bytes written, bytes read]
        self.used = 0
        self.readers = []     # blocked tasks
        self.writers = []
        self.pollers = []     # tasks in wait()

    def ready(self):
        return any(m[1] > m[2] for m in self.items)


class Conn:
    def __init__(self, pipe, readable, writable):
        self.pipe = pipe
        self.readable, self.writable = readable, writable
        self.closed = False

    def send(self, obj):
        self.send_bytes(pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL))

    def send_bytes(self, data):
        s = sched()
        if s is None or s.me() is None:
            return
        if self.closed:
            raise OSError('handle is closed')
        p = self.pipe
        s.point('send')
        size = len(data) + 4
        m = [data, 0, 0]
        while m[1] < size:
            n = min(p.cap - p.used, size - m[1])
            if n <= 0:
                s.world.probe('pipe-full')
                p.writers.append(s.me())
                s.block('room in a pipe')
                continue
            if not m[1]:
                p.items.append(m)
            m[1] += n
            p.used += n
            for t in p.readers + p.pollers:
                s.wake(t)
            p.readers, p.pollers = [], []
        s.point('sent')

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def recv_bytes(self):
        s = sched()
        if s is None or s.me() is None:
            raise EOFError
        if self.closed:
            raise OSError('handle is closed')
        p = self.pipe
        s.point('recv')
        m = None
        while m is None or m[2] < len(m[0]) + 4:
            if m is None and p.items:
                m = p.items[0]
            n = m[1] - m[2] if m is not None else 0
            if n <= 0:
                p.readers.append(s.me())
                s.block('data in a pipe')
                continue
            m[2] += n
            p.used -= n
            for t in p.writers:
                s.wake(t)
            p.writers = []
        del p.items[0]
        return m[0]

    def poll(self, timeout=0.0):
        s = sched()
        if s is None or s.me() is None:
            return False
        s.point('poll')
        return self.pipe.ready()

    def close(self):
        self.closed = True


class MpSimpleQueue:
    """multiprocessing.SimpleQueue; fork() gives another process its own handles on the same pipe"""

    def __init__(self, pipe=None, rlock=None, wlock=None):
        self._pipe = pipe or Pipe()
        self._reader = Conn(self._pipe, True, False)
        self._writer = Conn(self._pipe, False, True)
        self._rlock = rlock or QLock()
        self._wlock = wlock or QLock()

    def forked(self):
        return MpSimpleQueue(self._pipe, self._rlock, self._wlock)

    def get(self):
        with self._rlock:
            res = self._reader.recv_bytes()
        _stall(sched(), 'with a task')
        return pickle.loads(res)

    def put(self, obj):
        data = pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL)
        with self._wlock:
            self._writer.send_bytes(data)
        _stall(sched(), 'after a result')

    def empty(self):
        return not self._reader.poll()

    def close(self):
        self._reader.close()
        self._writer.close()


class Sentinel:
    def __init__(self, proc):
        self.proc = proc


def wait(objs, timeout=None):
    """multiprocessing.connection.wait"""
    s = sched()
    if s is None or s.me() is None:
        return list(objs)
    s.point('wait')
    end = None if timeout is None else s.world.now + timeout
    me = s.me()
    while True:
        ready = [o for o in objs if (isinstance(o, Sentinel) and not o.proc.alive)
                 or (isinstance(o, Conn) and o.pipe.ready())]
        left = None if end is None else end - s.world.now
        if ready or (left is not None and left <= 0):
            return ready
        for o in objs:
            if isinstance(o, Sentinel):
                o.proc.exit_waiters.append(me)
            elif isinstance(o, Conn):
                o.pipe.pollers.append(me)
        s.block('sentinels', left)


class SimProcess:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None, _method='fork'):
        s = sched()
        self._method = _method
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        w = core_ref.world()
        w.n_procs = getattr(w, 'n_procs', 0) + 1
        self.name = name or f'Process-{w.n_procs}'
        self.daemon = bool(daemon)
        self._proc = None
        self._code = None
        self.authkey = b''
        self._s = s

    def _isolate(self, a):
        if isinstance(a, MpSimpleQueue):
            return a.forked()
        if a is None or isinstance(a, (int, bool)):
            return a
        return pickle.loads(pickle.dumps(a))

    def start(self):
        s = sched()
        args = tuple(self._isolate(a) for a in self._args)
        kwargs = {k: self._isolate(v) for k, v in self._kwargs.items()}
        self._proc = s.new_proc(self.name)
        target = self._target

        def body():
            try:
                target(*args, **kwargs)
                self._code = 0
            except SystemExit as e:
                self._code = e.code if isinstance(e.code, int) else 0
            except SimKilled:
                raise
            except BaseException as e:
                self._code = 1
                s.world.note('worker-died', f'{self.name} {type(e).__name__} {e}')
        s.spawn(body, self.name, proc=self._proc)
        s.point('start-process')

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        return self._proc is not None and self._proc.alive

    @property
    def exitcode(self):
        if self._proc is None or self._proc.alive:
            return None
        return -15 if self._proc.killed else (self._code or 0)

    @property
    def pid(self):
        return None if self._proc is None else 10_000 + self._proc.pid

    ident = pid

    @property
    def sentinel(self):
        return Sentinel(self._proc)

    def terminate(self):
        s = sched()
        if s is None or s.me() is None or self._proc is None:
            return
        s.point('terminate')
        # what it holds stays as it is: locks of pipes taken, messages written or read in part
        if any(lk._owner in self._proc.tasks for lk in s.world.qlocks):
            s.world.probe('terminated-with-lock')
        s.kill_proc(self._proc)

    kill = terminate

    def join(self, timeout=None):
        s = sched()
        if s is None or s.me() is None or self._proc is None:
            return
        s.point('join-process')
        end = None if timeout is None else s.world.now + timeout
        while self._proc.alive:
            left = None if end is None else end - s.world.now
            if left is not None and left <= 0:
                return
            self._proc.exit_waiters.append(s.me())
            s.block(f'exit of {self.name}', left)

    def close(self):
        pass


_qlock_init = QLock.__init__


def _register(self):
    _qlock_init(self)
    w = core_ref.world()
    if w is not None:
        w.qlocks.append(self)


QLock.__init__ = _register


class SimContext:
    def __init__(self, method):
        self._method = method

    def get_start_method(self, allow_none=False):
        return self._method

    def SimpleQueue(self):
        return MpSimpleQueue()

    def Process(self, *a, **kw):
        return SimProcess(*a, _method=self._method, **kw)

    def Lock(self):
        return threading.Lock()

    def RLock(self):
        return threading.RLock()

    def cpu_count(self):
        return 4

    def get_context(self, method=None):
        return self


def _make_util():
    u = types.ModuleType('dst_simmp_util')
    u.__dict__.update({k: v for k, v in vars(mp_util).items() if not k.startswith('__')})
    u.debug = u.info = lambda *a, **k: None
    return u


pool_copy = _copy_module('dst_simpool', real_pool)
pool_copy.__dict__.update(threading=threading, queue=simqueue, time=simtime, wait=wait, util=_make_util())
_CopyPool = pool_copy.Pool


class SimPool(_CopyPool):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        w = core_ref.world()
        method = context.get_start_method() if context is not None and hasattr(context, 'get_start_method') else 'fork'
        w.pools.append(self)
        w.probe('pools')
        super().__init__(processes if processes is not None else 4, initializer, initargs, maxtasksperchild,
                         SimContext(method))

    def __del__(self):
        if core_ref.world() is not None and sched() is not None and sched().me() is not None:
            try:
                super().__del__()
            except SimKilled:
                pass


class _ThreadWorker(threading.Thread):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None):
        super().__init__(group, target, name or 'PoolThread', args, kwargs)

    @property
    def exitcode(self):
        return None if self._task is None or self.is_alive() else 0


class SimThreadPool(pool_copy.ThreadPool):
    @staticmethod
    def Process(ctx, *args, **kwds):
        return _ThreadWorker(*args, **kwds)

    def __init__(self, processes=None, initializer=None, initargs=()):
        w = core_ref.world()
        w.pools.append(self)
        _CopyPool.__init__(self, processes if processes is not None else 4, initializer, initargs,
                           context=SimContext('thread'))

    def __del__(self):
        pass


_real = (real_pool.Pool, real_pool.ThreadPool)


def install():
    class PoolRouter:
        """the real classes outside of a simulated run"""

    def pick(cls_sim, cls_real):
        def make(*a, **kw):
            s = sched()
            if s is None:
                return cls_real(*a, **kw)
            return cls_sim(*a, **kw)
        return make
    real_pool.Pool = pick(SimPool, _real[0])
    real_pool.ThreadPool = pick(SimThreadPool, _real[1])

    def set_signal(signum, handler):
        """a simulated process sets its own handlers"""
        s = sched()
        if s is None or s.me() is None:
            return real_signal(signum, handler)
        p = s.me().proc
        if signum == signal.SIGINT:
            before = p.ignores_interrupts
            p.ignores_interrupts = handler == signal.SIG_IGN
            return signal.SIG_IGN if before else signal.default_int_handler
        return signal.SIG_DFL
    real_signal = signal.signal
    set_signal.__module__, set_signal.__name__, set_signal.__qualname__ = 'signal', 'signal', 'signal'
    signal.signal = set_signal

    multiprocessing.cpu_count = lambda: 4
    multiprocessing.context.BaseContext.cpu_count = lambda self: 4


def reset():
    """called at the start of each simulated run"""
    pool_copy.job_counter = itertools.count()
    pool_copy.ThreadPool._n = 0


def clear_finalizers():
    for k, f in list(mp_util._finalizer_registry.items()):
        cb = getattr(f, '_callback', None)
        if getattr(cb, '__module__', '') == 'dst_simpool' or getattr(getattr(cb, '__func__', None), '__module__',
                                                                     '') == 'dst_simpool':
            mp_util._finalizer_registry.pop(k, None)


def alive_workers(w):
    """names of the worker processes and pool threads that are still alive"""
    s = w.sched
    return [t.name for t in s.tasks if t is not s.main]
