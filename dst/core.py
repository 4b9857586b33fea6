"""One simulated run: choices, virtual clock, event log, storage and scheduler; and the patches that lead the code
under test into them."""
import collections
import gc
import hashlib
import itertools
import os
import random
import sys
import tempfile
import time
import traceback

from .choices import Choices
from . import fs as simfs
from .sched import Scheduler, SimKilled, SimStuck

REPO = os.environ.get('NLCODEC_REPO', '/repo')
CUR = None          # the World of the current run

REAL_TIME = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter', 'sleep', 'time_ns', 'monotonic_ns')}
real_urandom = os.urandom


class Violation(Exception):
    """the property does not hold in this run"""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg


class Unsupported(BaseException):
    """the simulator cannot do what the code under test asks for: no answer"""


class Outcome:
    __slots__ = ('ok', 'value', 'exc', 'tb')

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.tb = None
        if exc is not None:
            self.tb = ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:])

    def __repr__(self):
        return f'ok({self.value!r})' if self.ok else f'{type(self.exc).__name__}({self.exc})'


class World:
    TRACE_MAX = 4000

    def __init__(self, ch, scratch):
        self.ch = ch
        self.plan, self.fault_ch, self.sched_ch = ch.plan, ch.fault, ch.sched
        self.now = 1_600_000_000.0
        self.t0 = self.now
        self.events = []
        self.n_events = 0
        self.dig = hashlib.sha256()
        self.inter = hashlib.sha256()    # schedule and faults only
        self.faults = collections.Counter()
        self.stall_den = 0
        self.probes = collections.Counter()
        self.findings = []               # known findings hit
        self.sched = None
        self.fs = simfs.SimFS(self, scratch)
        self.root = self.fs.root
        self.sample = None
        self.nontrivial = False
        self.clock_jumps = False
        self.urandom = random.Random(0)
        self.sim_secs = 0.0
        self.max_rss = 50_000            # KB
        self.closing = []
        self.pools = []
        self.qlocks = []

    # -- log
    def note(self, kind, detail=''):
        self.n_events += 1
        line = f'{kind} {detail}'
        self.dig.update(line.encode('utf8', 'replace'))
        self.dig.update(b'\n')
        if len(self.events) < self.TRACE_MAX:
            t = self.sched.current.name if self.sched and self.sched.current else '-'
            self.events.append(f'{self.n_events} t={self.now - self.t0:.6g} [{t}] {line}')

    def note_fs(self, kind, path, n):
        self.note('fs', f'{kind} {path}' + (f' {n}B' if n else ''))
        self.inter.update(kind.encode())

    def note_switch(self, task):
        self.n_events += 1
        self.dig.update(b's%d' % task.id)
        self.inter.update(b's%d' % task.id)

    def note_point(self, task, kind):
        self.dig.update(kind.encode())
        self.inter.update(kind.encode())

    def fault(self, kind, detail=''):
        self.faults[kind] += 1
        self.inter.update(b'F' + kind.encode())
        self.note('FAULT', f'{kind} {detail}')

    def probe(self, name):
        self.probes[name] += 1

    def advance_to(self, t):
        if t > self.now:
            self.now = t

    def permute_names(self, ents):
        if len(ents) < 2:
            return ents
        how = self.ch.sched.below(3)
        if how == 0:
            return ents
        if how == 1:
            return ents[::-1]
        return self.ch.sched.shuffle(ents)

    # -- running the code under test
    def call(self, fn, *args, **kw):
        """calls the code under test; its exceptions are outcomes"""
        try:
            return Outcome(True, fn(*args, **kw))
        except (SimKilled, SimStuck):
            raise
        except (Exception, SystemExit, GeneratorExit) as e:
            return Outcome(False, exc=e)

    def crashable(self, fn, *args, **kw):
        """as call, but a simulated stop of the process is an outcome too ('stopped')"""
        try:
            o = self.call(fn, *args, **kw)
            if not self.fs.frozen:
                return o
            e = SimKilled()          # it went on after its end
        except simfs.SimInterrupt as e2:
            e = e2
        except SimKilled as e2:
            if not self.fs.frozen:
                raise
            e = e2
        o = Outcome(False)
        o.exc = e
        return o

    def observe(self, what, fn):
        """reads an output of the code under test; an error in doing so means the output is malformed"""
        try:
            return fn()
        except (SimKilled, SimStuck, Violation):
            raise
        except Exception as e:
            raise Violation('malformed', f'{what}: {type(e).__name__}: {e}\n{traceback.format_exc(limit=-5)}')

    def must(self, what, fn, *args, **kw):
        o = self.call(fn, *args, **kw)
        if not o.ok:
            raise Violation('unexpected-error', f'{what} failed without any fault: {o!r}\n{o.tb}')
        return o.value

    def arm(self, **kw):
        self.fs.armed = simfs.Armed(**kw)
        return self.fs.armed

    def disarm(self):
        a, self.fs.armed = self.fs.armed, None
        return a

    def path(self, *parts):
        from pathlib import Path
        return Path(os.path.join(self.root, *parts))

    def scheduler(self, max_steps=150_000):
        self.sched = Scheduler(self, max_steps=max_steps)
        self.sched.choose_policy(self.plan)
        self.note('policy', str(self.sched.policy))
        return self.sched

    def seed_random(self, seed=None):
        """seeds the random sources of the code under test"""
        s = self.plan.seed32() if seed is None else seed
        random.seed(s)
        np = sys.modules.get('numpy')
        if np is not None:
            np.random.seed(s & 0xffffffff)
        self.urandom = random.Random(s)
        tempfile._name_sequence = self._names(random.Random(s + 1))
        return s

    @staticmethod
    def _names(rng):
        class Names:
            def __iter__(self):
                return self

            def __next__(self):
                return ''.join(rng.choices('abcdefghijklmnopqrstuvwxyz0123456789_', k=8))
        return Names()

    # -- clock
    def time(self):
        self.now += 1e-6
        if self.clock_jumps:
            k = self.ch.fault.below(12)
            if k == 11:
                self.now += 3600.0
                self.fault('clock-jump', '+3600s')
            elif k == 10:
                self.now += 2.5
                self.fault('clock-jump', '+2.5s')
            elif k == 9:
                self.now -= 5.0
                self.fault('clock-jump', '-5s')
        return self.now

    def sleep(self, secs):
        if self.sched is not None:
            self.sched.sleep(secs)
        else:
            self.now += secs


def cur_fs():
    w = CUR
    return w.fs if w is not None else None


def cur_sched():
    w = CUR
    return w.sched if w is not None else None


_installed = False


def install(pool=False, spark=False):
    """interposes (once per process), before nlcodec is imported"""
    global _installed
    if _installed:
        return
    _installed = True
    os.environ['TQDM_DISABLE'] = '1'
    os.environ.setdefault('NLCODEC_THREADS', '3')
    import logging
    logging.raiseExceptions = False
    import uuid  # noqa: uses os.urandom
    import pickle, gzip, io, json, glob, pathlib, shutil  # noqa: before the patches
    simfs.install(cur_fs)

    real_gzip_open = gzip.open

    def gzip_open(filename, mode='rb', compresslevel=9, encoding=None, errors=None, newline=None):
        w = CUR
        if 't' in mode and encoding in (None, 'locale') and w is not None and w.fs.locale:
            encoding = w.fs.locale
        return real_gzip_open(filename, mode, compresslevel, encoding, errors, newline)
    gzip.open = gzip_open
    real_text_encoding = io.text_encoding

    def text_encoding(encoding, stacklevel=2):
        w = CUR
        if encoding is None and w is not None and w.fs.locale:
            return 'locale'
        return real_text_encoding(encoding, stacklevel + 1)
    io.text_encoding = text_encoding

    def urandom(n):
        w = CUR
        return w.urandom.randbytes(n) if w is not None else real_urandom(n)
    os.urandom = urandom

    def clock(name, scale=None):
        real = REAL_TIME[name]

        def f():
            w = CUR
            if w is None:
                return real()
            return int(w.time() * 1e9) if scale else w.time()
        f.__name__ = name
        return f
    for n in ('time', 'monotonic', 'perf_counter'):
        setattr(time, n, clock(n))
    for n in ('time_ns', 'monotonic_ns'):
        setattr(time, n, clock(n, True))

    import resource
    real_getrusage = resource.getrusage

    def getrusage(who):
        w = CUR
        r = real_getrusage(who)
        return r if w is None else resource.struct_rusage([0.01, 0.01, w.max_rss] + [0] * 13)
    resource.getrusage = getrusage

    def sleep(s):
        w = CUR
        return REAL_TIME['sleep'](s) if w is None else w.sleep(s)
    time.sleep = sleep

    sys.path.insert(0, REPO)
    if pool:
        from . import simmp
        simmp.install()
    if spark:
        os.environ.setdefault('SPARK_LOCAL_IP', '127.0.0.1')
        from . import simspark
        simspark.install()
    import nlcodec
    assert os.path.realpath(nlcodec.__file__).startswith(os.path.realpath(REPO)), nlcodec.__file__
    import nlcodec.codec, nlcodec.bpe, nlcodec.utils, nlcodec.db.core, nlcodec.db.batch  # noqa
    import nlcodec.para.mapred, nlcodec.__main__  # noqa
    import tqdm, tqdm.std, multiprocessing.pool, random, tempfile, datetime, argparse  # noqa: imported now, not within a run
    tqdm.tqdm.monitor_interval = 0      # no thread of its own
    if spark:
        import nlcodec.spark, nlcodec.learn, nlcodec.term_freq, nlcodec.bitextdb  # noqa
    logging.disable(logging.CRITICAL)
    patch_modules()
    gc.collect()
    gc.freeze()


def patch_modules():
    """names that nlcodec modules bound at import"""
    import datetime as dt
    import queue
    import threading
    from .simmp import simqueue, threading as simthreading

    class SimDatetime(dt.datetime):
        @classmethod
        def now(cls, tz=None):
            w = CUR
            if w is None:
                return dt.datetime.now(tz)
            w.time()
            return dt.datetime.fromtimestamp(int(w.now), tz)

    rep = {}
    for n in ('Thread', 'Lock', 'RLock', 'Condition', 'Event', 'Semaphore', 'BoundedSemaphore'):
        rep[id(getattr(threading, n))] = getattr(simthreading, n)
    for n in ('Queue', 'LifoQueue', 'PriorityQueue', 'SimpleQueue'):
        rep[id(getattr(queue, n))] = getattr(simqueue, n)
    rep[id(threading)] = simthreading
    rep[id(queue)] = simqueue
    rep[id(dt.datetime)] = SimDatetime
    for n in REAL_TIME:
        rep[id(REAL_TIME[n])] = getattr(time, n)
    rep[id(simfs.real_open)] = sys.modules['io'].open
    for name, m in list(sys.modules.items()):
        if name == 'nlcodec' or name.startswith('nlcodec.'):
            for k, v in list(vars(m).items()):
                r = rep.get(id(v))
                if r is not None and k != '__builtins__':
                    setattr(m, k, r)


class RunResult:
    __slots__ = ('status', 'kind', 'msg', 'record', 'digest', 'inter', 'events', 'n_events', 'faults', 'probes',
                 'findings', 'sample', 'nontrivial', 'sim_secs', 'steps', 'switches', 'ops')


def wipe(root):
    for d, dirs, files in os.walk(root, topdown=False):
        for f in files:
            simfs.REAL['unlink'](os.path.join(d, f))
        for x in dirs:
            p = os.path.join(d, x)
            if os.path.islink(p):
                simfs.REAL['unlink'](p)
            else:
                simfs.REAL['rmdir'](p)


def in_repo(tb):
    """whether the innermost frames of a traceback lie in the code under test"""
    hit = False
    for f, _ in traceback.walk_tb(tb):
        fn = f.f_code.co_filename
        if fn.startswith(REPO + '/'):
            hit = True
        elif '/dst/checks/' in fn:
            hit = False
    return hit


def run_one(scenario, ch, scratch):
    """one simulated run; never raises for what the code under test does"""
    global CUR
    wipe(scratch)
    w = World(ch, scratch)
    r = RunResult()
    gc.disable()
    status, kind, msg = 'ok', None, None
    cwd = os.getcwd()
    import multiprocessing.process as mpp
    mpp._process_counter = itertools.count(1)
    from . import simmp
    simmp.reset()
    try:
        CUR = w
        w.seed_random(0)
        os.chdir(scratch)
        try:
            scenario(w)
        except Violation as v:
            status, kind, msg = 'violation', v.kind, v.msg
        except SimStuck as e:
            status, kind, msg = 'violation', 'stuck', str(e)
        except SimKilled as e:
            if w.sched is not None and w.sched.stuck:
                status, kind, msg = 'violation', 'stuck', w.sched.stuck
            else:
                status, kind, msg = 'error', 'SimKilled', traceback.format_exc()
        except (KeyboardInterrupt, MemoryError):
            raise
        except Unsupported:
            status, kind, msg = 'error', 'Unsupported', traceback.format_exc()
        except BaseException as e:
            if in_repo(e.__traceback__):
                status, kind, msg = 'violation', 'unexpected-error', traceback.format_exc(limit=-8)
            else:
                status, kind, msg = 'error', type(e).__name__, traceback.format_exc()
        if w.sched is not None:
            if status == 'ok' and w.sched.stuck:
                status, kind, msg = 'violation', 'stuck', w.sched.stuck
            w.sched.shutdown()
        w.fs.frozen = True
        for f in w.closing:
            f()
    finally:
        CUR = None
        w.fs.frozen = True
        os.chdir(cwd)
        gc.collect(1)
        from .simmp import clear_finalizers
        clear_finalizers()
    r.status, r.kind, r.msg = status, kind, msg
    r.record = ch.record()
    w.dig.update(f'{status} {kind}'.encode())
    r.digest, r.inter = w.dig.hexdigest()[:24], w.inter.hexdigest()[:16]
    r.events, r.n_events = w.events, w.n_events
    r.faults, r.probes, r.findings = w.faults, w.probes, w.findings
    r.sample, r.nontrivial = w.sample, w.nontrivial
    r.sim_secs = w.now - w.t0
    r.steps = w.sched.steps if w.sched else 0
    r.switches = w.sched.switches if w.sched else 0
    r.ops = w.fs.ops
    return r
