"""A Spark cluster inside the simulator.

What PySpark itself does in Python stays PySpark's (RDD.map, reduceByKey, zipWithIndex, take, Row, StructType, schema
inference, cloudpickle); what the JVM does is modelled: splitting text into partitions, shuffles, placing and running
tasks, retries, speculation, lost executors, joins and de-duplication of data frames. Tasks are simulated processes: the
closures of a stage are pickled once per job and unpickled in every attempt, an attempt can be killed, fail, stall and
be replaced while it still runs, or run twice; its result counts only if it is the first of its partition to end.
Everything Spark leaves open (numbers and limits of partitions, arrival order after a shuffle, order of rows of a join,
which attempt wins) is drawn.
"""
import errno
import gzip
import itertools
import os
import pickle
import re
import zlib

from pyspark import cloudpickle
from pyspark.core.rdd import RDD, Partitioner, portable_hash
from pyspark.serializers import AutoBatchedSerializer, CPickleSerializer
from pyspark.sql import SparkSession
from pyspark.sql import types as T

from . import core, simcol
from .core import Unsupported
from . import fs as simfs
from .sched import SimKilled


class SparkJobFailed(Exception):
    """Job aborted due to stage failure"""


class Attempt:
    def __init__(self, cluster, part, no, fault):
        self.cluster, self.part, self.no = cluster, part, no
        self.fault = fault            # None or (kind, at)
        self.ops = 0
        self.proc = None
        self.state = 'running'        # 'ok', 'failed', 'lost'
        self.result = None
        self.error = None
        self.given_up = False         # the driver does not wait for it any more
        self.accums = {}              # what it added to accumulators
        self.id = cluster.tasks
        self.stage = cluster.stages

    def op(self, what):
        """the task reaches a record or a storage operation"""
        self.ops += 1
        f = self.fault
        if f is None or self.ops != f[1]:
            return
        w = self.cluster.world
        kind = f[0]
        w.fault('task-' + kind, f'{self.part}.{self.no} at {what} {self.ops}')
        if kind == 'killed':
            w.sched.kill_proc(self.proc)
            raise SimKilled()
        if kind == 'error':
            raise OSError(errno.EIO, os.strerror(errno.EIO), 'on an executor')
        if kind == 'stalled':
            w.sched.sleep(f[2])


class Cluster:
    """one per run"""

    def __init__(self, w):
        self.world = w
        self.attempts = []            # all that may still run
        self.by_proc = {}
        self.faults = 'none'          # 'none', 'some' (jobs succeed), 'fatal' (jobs may fail)
        self.local = False            # local mode: a task that fails once fails the job
        self.max_parts = 5
        self.jobs = self.stages = self.tasks = 0
        self.session = None
        self.sessions = []            # all there were
        self.accums = {}
        w.fs.on_gate = self.on_gate
        w.closing.append(self.close)
        if w.sched is None:
            w.scheduler()

    def close(self):
        if core.CUR is self.world or core.CUR is None:
            self.world.fs.on_gate = None
        self.attempts = []
        self.by_proc = {}
        self.session = None

    def on_gate(self, kind, path):
        a = self.attempt()
        if a is not None:
            a.op(kind)

    def kill_all(self):
        """no executor is left (session stopped, or the machine)"""
        s = self.world.sched
        for a in self.attempts:
            if a.proc.alive:
                s.kill_proc(a.proc)
        self.attempts = []

    def driver_gone(self):
        """the process of the driver, or the machine, has stopped"""
        self.kill_all()
        if self.session is not None:
            self.session.stopped = self.session.sparkContext.stopped = True
            self.session = None

    def attempt(self):
        """the attempt the current task is, if any"""
        t = self.world.sched.me()
        return self.by_proc.get(t.proc) if t else None

    def running(self):
        return [a for a in self.attempts if a.proc.alive]

    def abandon(self, attempts):
        """what still runs is told to stop; it may take its time"""
        w = self.world
        for a in attempts:
            if a.proc.alive:
                if a.given_up and a.state == 'running' and w.sched_ch.chance(1, 2) or w.sched_ch.chance(1, 3):
                    w.fault('task-outlives', f'{a.part}.{a.no}')
                else:
                    w.sched.kill_proc(a.proc)
        self.attempts = self.running()

    # -- one stage
    def draw_fault(self, part, failures, max_failures):
        w = self.world
        f = w.fault_ch
        if self.faults == 'none':
            return None
        if not f.chance(1, 3 if self.faults == 'some' else 2):
            return None
        kind = f.pick(['killed', 'error', 'stalled'])
        if self.faults == 'some' and kind != 'stalled' and failures + 1 >= max_failures:
            kind = 'stalled'
        at = 1 + f.below(f.pick([6, 16, 40]))
        return (kind, at, 1.0 + 30.0 * f.below(4))

    def run_stage(self, rdd, parts, func_blob, what):
        """runs one task per partition of parts; {part: result bytes}"""
        w = self.world
        s = w.sched
        self.stages += 1
        w.note('stage', f'{what} {len(parts)} tasks')
        driver = s.me()
        if driver is None:
            raise Unsupported('a job outside of the driver')
        max_failures = 1 if self.local else 4
        slots = 1 + w.sched_ch.below(4)
        speculate = w.sched_ch.chance(1, 3)
        results, failures = {}, {p: 0 for p in parts}
        todo = list(parts) if w.sched_ch.chance(1, 2) else w.sched_ch.shuffle(parts)
        mine = []
        no = {p: 0 for p in parts}
        n_replaced = {p: 0 for p in parts}
        failed = None

        def launch(part):
            a = Attempt(self, part, no[part], self.draw_fault(part, failures[part], max_failures))
            no[part] += 1
            self.tasks += 1
            a.since = w.now
            proc = a.proc = s.new_proc(f'task-{what}-{part}.{a.no}')
            self.by_proc[proc] = a

            def body():
                s.point('task')
                try:
                    res = run_task(a, rdd, part, func_blob)
                    s.point('task-result')
                except SimKilled:
                    raise
                except BaseException as e:  # noqa
                    if a.state == 'running':
                        a.state, a.error = 'failed', e
                        import traceback
                        a.tb = ''.join(traceback.format_exception(e)[-4:])
                        w.note('task-failed', f'{part}.{a.no} {type(e).__name__}: {str(e)[:120]}')
                        s.wake(driver)
                    return
                if a.state == 'running':
                    a.state, a.result = 'ok', res
                    s.wake(driver)

            def ended():
                if a.state == 'running':
                    a.state = 'lost'
                    a.error = a.error or RuntimeError('executor lost')
                s.wake(driver)
            proc.on_exit = [ended]
            mine.append(a)
            self.attempts.append(a)
            s.spawn(body, proc.name, proc)

        while len(results) < len(parts) and failed is None:
            if w.fs.frozen:
                raise SimKilled()
            active = [a for a in mine if a.state == 'running' and not a.given_up]
            while todo and len(active) < slots:
                launch(todo.pop(0))
                active = [a for a in mine if a.state == 'running' and not a.given_up]
            if speculate and not todo and len(active) < slots + 1 and active and w.sched_ch.chance(1, 3):
                p = active[w.sched_ch.below(len(active))].part
                if sum(a.part == p for a in active) < 2:
                    w.fault('task-run-twice', str(p))
                    launch(p)
            wait = 5.0 + 10.0 * w.sched_ch.below(3)
            stop = s.interrupts(driver)
            timed_out = not s.block('spark tasks', wait if stop is None else min(wait, max(stop - w.now, 1e-6)))
            if stop is not None and w.now >= stop:
                self.abandon(mine)
                s.interrupted()
            for a in mine:
                if a.given_up:
                    continue
                if a.state == 'ok':
                    a.given_up = True
                    if a.part not in results or 'map' in what:
                        # a task of a shuffle may count more than once
                        for aid, acc in a.accums.items():
                            self.accums[aid].add(acc._value)
                    if a.part not in results:
                        results[a.part] = a.result
                elif a.state in ('failed', 'lost'):
                    if isinstance(a.error, Unsupported):
                        raise a.error
                    a.given_up = True
                    if a.part in results or any(b.part == a.part and not b.given_up for b in mine):
                        continue
                    failures[a.part] += 1
                    if failures[a.part] >= max_failures:
                        failed = a
                    else:
                        w.fault('task-retried', f'{a.part}')
                        todo.append(a.part)
                elif timed_out and w.now - a.since > 8.0 and a.part not in results \
                        and n_replaced[a.part] < 2 and w.fault_ch.chance(1, 3):
                    # no heartbeat: the executor is given up, although it may go on
                    w.fault('task-replaced', f'{a.part}.{a.no} still runs')
                    a.given_up = True
                    n_replaced[a.part] += 1
                    failures[a.part] += 1 if self.faults == 'fatal' else 0
                    if failures[a.part] >= max_failures:
                        failed = a
                        a.error = RuntimeError('heartbeat timed out')
                    else:
                        todo.append(a.part)
            todo = [p for p in todo if p not in results]
        self.abandon(mine)
        if failed is not None:
            raise SparkJobFailed(f'Job aborted due to stage failure: task {failed.part} failed {max_failures} times: '
                                 f'{type(failed.error).__name__}: {failed.error}\n{getattr(failed, "tb", "")}') \
                from failed.error
        return results


class TaskError(Exception):
    pass


def run_task(a, rdd, part, blob):
    funcs = cloudpickle.loads(blob)
    nodes = stage_nodes(rdd)
    env = dict(zip((n._id for n in nodes), funcs[:-1]))
    it = compute(a, rdd, part, env)
    return pickle.dumps(list(funcs[-1](part, it)), protocol=4)


def stage_nodes(rdd):
    """the narrow transformations of the stage that ends in rdd, in a fixed order"""
    out, seen = [], set()

    def visit(r):
        if r._id in seen:
            return
        seen.add(r._id)
        if r.kind == 'narrow':
            visit(r.parent)
            out.append(r)
        elif r.kind in ('union', 'coalesce'):
            for q in r.parents:
                visit(q)
    visit(rdd)
    return out


def stage_shuffles(rdd):
    out, seen = [], set()

    def visit(r):
        if r._id in seen:
            return
        seen.add(r._id)
        if r.kind == 'narrow':
            visit(r.parent)
        elif r.kind in ('union', 'coalesce'):
            for q in r.parents:
                visit(q)
        elif r.kind == 'shuffle':
            out.append(r)
    visit(rdd)
    return out


def compute(a, rdd, part, env):
    """the records of a partition, inside a task"""
    k = rdd.kind
    if k == 'narrow':
        return iter(env[rdd._id](part, compute(a, rdd.parent, part, env)))
    if k == 'source':
        return ticking(a, rdd.read(part))
    if k == 'shuffle':
        blobs = rdd.outputs[part]
        order = a.cluster.world.sched_ch.shuffle(range(len(blobs)))
        return ticking(a, itertools.chain.from_iterable(pickle.loads(blobs[i]) for i in order))
    if k == 'union':
        for p in rdd.parents:
            if part < p.getNumPartitions():
                return compute(a, p, part, env)
            part -= p.getNumPartitions()
        raise IndexError
    if k == 'coalesce':
        p = rdd.parents[0]
        return itertools.chain.from_iterable(compute(a, p, q, env) for q in rdd.groups[part])
    raise AssertionError(k)


def ticking(a, it):
    for x in it:
        a.cluster.world.sched.point('record')
        a.op('record')
        yield x
    a.cluster.world.sched.point('end')
    a.op('end')


def identity(split, it):
    return it


class SimConf:
    def __init__(self, d):
        self.d = dict(d)

    def get(self, k, default=None):
        return self.d.get(k, default)

    def contains(self, k):
        return k in self.d

    def set(self, k, v):
        self.d[k] = v
        return self

    def getAll(self):
        return list(self.d.items())


class Bcast:
    def __init__(self, value):
        self.value = value

    def unpersist(self, blocking=False):
        pass

    destroy = unpersist


class SimContext:
    """what SparkContext offers"""

    def __init__(self, session):
        self.session = session
        self.cluster = session.cluster
        self._conf = SimConf(dict(session.options))
        self._conf.set('spark.python.worker.memory', '1000g')   # spilling depends on the real memory in use
        self._batchSize = 0
        self.serializer = AutoBatchedSerializer(CPickleSerializer())
        self._unbatched_serializer = CPickleSerializer()
        w = self.cluster.world
        self.defaultParallelism = 1 + w.sched_ch.below(4)
        self.defaultMinPartitions = min(2, self.defaultParallelism)
        self.environment = {}
        self.pythonVer = '3.12'
        self.master = self._conf.get('spark.master', 'local[*]')
        self.appName = self._conf.get('spark.app.name', '')
        self.version = '4'
        self.uiWebUrl = None
        self.applicationId = 'sim'
        self._ids = 0
        self.salt = w.sched_ch.below(4)
        self.stopped = False

    def next_id(self):
        self._ids += 1
        return self._ids

    def getConf(self):
        return self._conf

    def setLogLevel(self, level):
        pass

    def setJobGroup(self, *a, **kw):
        pass

    setJobDescription = addPyFile = addFile = setCheckpointDir = setLocalProperty = setJobGroup

    def broadcast(self, value):
        return Bcast(pickle.loads(cloudpickle.dumps(value)))

    def accumulator(self, value, accum_param=None):
        from pyspark import accumulators as A
        if accum_param is None:
            accum_param = A.INT_ACCUMULATOR_PARAM if isinstance(value, int) else A.FLOAT_ACCUMULATOR_PARAM
        aid = len(self.cluster.accums)
        acc = self.cluster.accums[aid] = A.Accumulator(aid, value, accum_param)
        A._accumulatorRegistry.pop(aid, None)
        return acc

    def parallelize(self, c, numSlices=None):
        self.check()
        n = max(1, int(numSlices) if numSlices is not None else self.defaultParallelism)
        c = list(c)
        w = self.cluster.world
        m = len(c)
        cuts = [m * i // n for i in range(n + 1)]
        slices = [pickle.dumps(c[cuts[i]:cuts[i + 1]]) for i in range(n)]
        w.note('parallelize', f'{m} in {n}')
        return SimRDD.source(self, n, lambda i: pickle.loads(slices[i]))

    def range(self, start, end=None, step=1, numSlices=None):
        if end is None:
            start, end = 0, start
        return self.parallelize(range(start, end, step), numSlices)

    def emptyRDD(self):
        return SimRDD.source(self, 0, None)

    def textFile(self, name, minPartitions=None, use_unicode=True):
        return self.session.read.text_rdd(name)

    def union(self, rdds):
        out = rdds[0]
        for r in rdds[1:]:
            out = out.union(r)
        return out

    def check(self):
        if self.stopped or self.session.stopped:
            raise RuntimeError('Cannot call methods on a stopped SparkContext')

    def prepare(self, rdd):
        """runs the map stages of the shuffles a stage reads from"""
        for sh in stage_shuffles(rdd):
            if sh.outputs is None:
                self.prepare(sh.parent)
                n, m = sh.n, sh.parent.getNumPartitions()
                blob = self.blob(sh.parent, sh.split)
                res = self.cluster.run_stage(sh.parent, list(range(m)), blob, f'map{sh._id}')
                w = self.cluster.world
                if self.cluster.faults != 'none' and m and w.fault_ch.chance(1, 6):
                    # an executor was lost after its tasks: its shuffle files are made again
                    lost = [p for p in range(m) if w.fault_ch.chance(1, 2)]
                    if lost:
                        w.fault('shuffle-files-lost', str(lost))
                        res.update(self.cluster.run_stage(sh.parent, lost, blob, f'remap{sh._id}'))
                outs = [[] for _ in range(n)]
                for p in range(m):
                    for r, b in pickle.loads(res[p]):
                        outs[r].append(b)
                sh.outputs = outs

    @staticmethod
    def blob(rdd, last):
        return cloudpickle.dumps([n.func for n in stage_nodes(rdd)] + [last])

    def run(self, rdd, func, parts, what):
        """a job; the results of the partitions, in their order"""
        self.check()
        self.cluster.jobs += 1
        self.prepare(rdd)
        res = self.cluster.run_stage(rdd, list(parts), self.blob(rdd, func), f'{what}{rdd._id}')
        return [pickle.loads(res[p]) for p in parts]

    def runJob(self, rdd, partitionFunc, partitions=None, allowLocal=False):
        if partitions is None:
            partitions = list(range(rdd.getNumPartitions()))
        n = rdd.getNumPartitions()
        partitions = [p for p in partitions if p < n]
        mapped = rdd.mapPartitions(partitionFunc)
        return list(itertools.chain.from_iterable(self.run(mapped, identity, partitions, 'job')))

    def stop(self):
        self.session.stop()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


class SimRDD(RDD):
    def __init__(self, ctx, kind, n, **kw):
        self.ctx = ctx
        self.kind = kind
        self.n = n
        self._id = ctx.next_id()
        self.is_cached = self.is_checkpointed = self.has_resource_profile = False
        self._jrdd = None
        self._jrdd_deserializer = ctx.serializer
        self.partitioner = None
        self._name = None
        self.__dict__.update(kw)

    @classmethod
    def source(cls, ctx, n, read):
        return cls(ctx, 'source', n, read=read)

    def __repr__(self):
        return f'SimRDD[{self._id}]'

    def getNumPartitions(self):
        return self.n

    def mapPartitionsWithIndex(self, f, preservesPartitioning=False):
        r = SimRDD(self.ctx, 'narrow', self.n, parent=self, func=f)
        if preservesPartitioning:
            r.partitioner = self.partitioner
        return r

    def collect(self):
        return list(itertools.chain.from_iterable(self.ctx.run(self, identity, range(self.n), 'collect')))

    def collectWithJobGroup(self, *a, **kw):
        return self.collect()

    def toLocalIterator(self, prefetchPartitions=False):
        for p in range(self.n):
            yield from self.ctx.run(self, identity, [p], 'local')[0]

    def partitionBy(self, numPartitions, partitionFunc=portable_hash):
        n = self._defaultReducePartitions() if numPartitions is None else int(numPartitions)
        part = Partitioner(n, partitionFunc)
        if self.partitioner == part:
            return self
        if partitionFunc is portable_hash:
            partitionFunc = hash_with(self.ctx.salt)

        def split(i, it):
            return buckets(((partitionFunc(kv[0]) % n, kv) for kv in it))
        r = SimRDD(self.ctx, 'shuffle', n, parent=self, split=split, outputs=None)
        r.partitioner = part
        return r

    def coalesce(self, numPartitions, shuffle=False):
        n = int(numPartitions)
        if n <= 0:
            raise ValueError('the number of partitions must be positive')
        if shuffle:
            w = self.ctx.cluster.world
            starts = [w.sched_ch.below(n) for _ in range(self.n)]
            batch = w.sched_ch.pick([10, 1, 3])

            def split(i, it):
                return buckets(((starts[i] + k // batch) % n, x) for k, x in enumerate(it))
            return SimRDD(self.ctx, 'shuffle', n, parent=self, split=split, outputs=None)
        if n >= self.n:
            return self
        groups = [list(range(self.n * i // n, self.n * (i + 1) // n)) for i in range(n)]
        return SimRDD(self.ctx, 'coalesce', n, parents=[self], groups=groups)

    def union(self, other):
        return SimRDD(self.ctx, 'union', self.n + other.n, parents=[self, other])

    def cache(self):
        return self

    def persist(self, *a, **kw):
        return self

    def unpersist(self, *a, **kw):
        return self

    def checkpoint(self):
        pass

    localCheckpoint = checkpoint

    def isCheckpointed(self):
        return False

    def _pickled(self):
        return self

    def _reserialize(self, serializer=None):
        return self

    def _defaultReducePartitions(self):
        return self.ctx.defaultParallelism if self.ctx._conf.contains('spark.default.parallelism') else max(1, self.n)

    def name(self):
        return self._name

    def setName(self, name):
        self._name = name
        return self

    def zip(self, other):
        raise Unsupported('zip')

    cartesian = zip

    def _memory_limit(self):
        return 1 << 40

    def toDF(self, schema=None, sampleRatio=None):
        return self.ctx.session.createDataFrame(self, schema, sampleRatio)

    def countApprox(self, timeout, confidence=0.95):
        return self.count()


def buckets(pairs):
    d = {}
    for b, x in pairs:
        d.setdefault(b, []).append(x)
    return [(b, pickle.dumps(xs)) for b, xs in d.items()]


# ---------------------------------------------------------------- data frames
def jvm_value(v, t):
    """a Python value as a column of the type gives it back"""
    if v is None:
        return None
    if isinstance(t, (T.LongType, T.IntegerType, T.ShortType, T.ByteType)):
        if type(v) is bool or not isinstance(v, int):
            return None
        bits = {T.LongType: 63, T.IntegerType: 31, T.ShortType: 15, T.ByteType: 7}[type(t)]
        return v if -(1 << bits) <= v < 1 << bits else None
    if isinstance(t, T.StringType):
        return v if isinstance(v, str) else str(v)
    if isinstance(t, T.BooleanType):
        return v if isinstance(v, bool) else None
    if isinstance(t, (T.DoubleType, T.FloatType)):
        return v if isinstance(v, float) else None
    if isinstance(t, T.ArrayType):
        if not isinstance(v, (list, tuple)):
            return None
        return [jvm_value(x, t.elementType) for x in v]
    if isinstance(t, T.MapType):
        return {jvm_value(k, t.keyType): jvm_value(x, t.valueType) for k, x in v.items()} if isinstance(v, dict) else None
    if isinstance(t, T.StructType):
        return tuple(jvm_value(x, f.dataType) for x, f in zip(v, t.fields))
    return v


def hashable(v):
    if isinstance(v, (list, tuple)):
        return tuple(hashable(x) for x in v)
    if isinstance(v, dict):
        return tuple(sorted((k, hashable(x)) for k, x in v.items()))
    return v


def hash_with(salt):
    """hashes of strings do not depend on this process"""
    def f(v):
        if isinstance(v, (str, bytes)):
            return zlib.crc32(v.encode('utf8', 'surrogatepass') if isinstance(v, str) else v, salt)
        if isinstance(v, tuple):
            h = salt
            for x in v:
                h = (h * 1000003 ^ f(x)) & 0xffffffff
            return h
        return portable_hash(v)
    return f


def stable_hash(v):
    return zlib.crc32(repr(hashable(v)).encode('utf8', 'replace'))


class SimDataFrame:
    """rows are tuples of the columns"""

    def __init__(self, session, rdd, schema):
        self.sparkSession = self.session = session
        self._rdd = rdd
        self._schema = schema
        self._lazy = None

    # -- shape
    @property
    def schema(self):
        return T.StructType(list(self._schema.fields))

    @property
    def columns(self):
        return [f.name for f in self._schema.fields]

    @property
    def dtypes(self):
        return [(f.name, f.dataType.simpleString()) for f in self._schema.fields]

    @property
    def sql_ctx(self):
        return self.session

    @property
    def isStreaming(self):
        return False

    def _with(self, rdd, fields=None):
        return SimDataFrame(self.session, rdd, self._schema if fields is None else T.StructType(fields))

    def _fields(self, names):
        return [T.StructField(n, f.dataType, f.nullable) for n, f in zip(names, self._schema.fields)]

    def withColumnRenamed(self, a, b):
        return self._with(self._rdd, self._fields([b if n == a else n for n in self.columns]))

    def withColumnsRenamed(self, m):
        return self._with(self._rdd, self._fields([m.get(n, n) for n in self.columns]))

    def toDF(self, *names):
        if len(names) != len(self.columns):
            raise ValueError('wrong number of column names')
        return self._with(self._rdd, self._fields(names))

    def alias(self, name):
        return self

    def printSchema(self, level=None):
        pass

    def explain(self, *a, **kw):
        pass

    show = printSchema

    # -- rows
    @property
    def rdd(self):
        if self._lazy is None:
            names = self.columns

            def rows(split, it):
                for x in it:
                    yield T._create_row(names, x)
            self._lazy = self._rdd.mapPartitionsWithIndex(rows)
        return self._lazy

    def select(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        flat = []
        for c in cols:
            flat += self.columns if isinstance(c, str) and c == '*' else [c]
        if not all(isinstance(c, str) for c in flat):
            return self._project([simcol.named(c) for c in flat])
        idx = [self.columns.index(c) for c in flat]
        return self._with(self._rdd.map(lambda r: tuple(r[i] for i in idx)), [self._schema.fields[i] for i in idx])

    def _project(self, cols):
        """new rows of column expressions"""
        if any(c.agg for c in cols):
            return self.groupBy().agg(*cols)
        names = self.columns
        fields = [T.StructField(c.name_, c.typ(self._schema), True) for c in cols]
        gens = [k for k, c in enumerate(cols) if c.gen]
        if len(gens) > 1:
            raise Unsupported('several generators')

        def rows(part, it):
            ctx = simcol.Ctx(part)
            for x in it:
                ctx.row += 1
                r = dict(zip(names, x))
                vs = [c.fn(r, ctx) for c in cols]
                if not gens:
                    yield tuple(vs)
                else:
                    k = gens[0]
                    for v in vs[k]:
                        yield tuple(vs[:k] + [v] + vs[k + 1:])
        return self._with(self._rdd.mapPartitionsWithIndex(rows), fields)

    def withColumns(self, m):
        df = self
        for name, c in m.items():
            df = df.withColumn(name, c)
        return df

    def withColumn(self, name, col):
        cols = [col.alias(name) if n == name else simcol.column(n) for n in self.columns]
        if name not in self.columns:
            cols.append(col.alias(name))
        return self._project(cols)

    def filter(self, cond):
        if not isinstance(cond, simcol.SimColumn):
            raise Unsupported('conditions as text')
        names = self.columns
        cond.typ(self._schema)

        def rows(part, it):
            ctx = simcol.Ctx(part)
            for x in it:
                ctx.row += 1
                if cond.fn(dict(zip(names, x)), ctx) is True:
                    yield x
        return self._with(self._rdd.mapPartitionsWithIndex(rows))

    where = filter

    def groupBy(self, *cols):
        if len(cols) == 1 and isinstance(cols[0], (list, tuple)):
            cols = cols[0]
        return SimGrouped(self, [simcol.named(c) for c in cols])

    groupby = groupBy

    def agg(self, *cols):
        return self.groupBy().agg(*cols)

    def __getitem__(self, c):
        if isinstance(c, (list, tuple)):
            return self.select(*c)
        if isinstance(c, simcol.SimColumn):
            return self.filter(c)
        if isinstance(c, int):
            return simcol.column(self.columns[c])
        col = simcol.column(c)
        col.typ(self._schema)
        return col

    def drop(self, *cols):
        return self.select(*[c for c in self.columns if c not in cols])

    def union(self, other):
        if len(other.columns) != len(self.columns):
            raise ValueError('union of different numbers of columns')
        return self._with(self._rdd.union(other._rdd))

    unionAll = union

    def unionByName(self, other, allowMissingColumns=False):
        return self.union(other.select(*self.columns))

    def _n_shuffle(self):
        return 1 + self.session.cluster.world.sched_ch.below(self.session.cluster.max_parts)

    def drop_duplicates(self, subset=None):
        cols = list(range(len(self.columns))) if subset is None else [self.columns.index(c) for c in subset]
        n = self._n_shuffle()

        def split(i, it):
            return buckets((stable_hash([x[c] for c in cols]) % n, x) for x in it)

        def first(i, it):
            seen = set()
            for x in it:
                k = hashable([x[c] for c in cols])
                if k not in seen:
                    seen.add(k)
                    yield x
        sh = SimRDD(self._rdd.ctx, 'shuffle', n, parent=self._rdd, split=split, outputs=None)
        return self._with(sh.mapPartitionsWithIndex(first))

    dropDuplicates = drop_duplicates

    def distinct(self):
        return self.drop_duplicates()

    def dropna(self, how='any', thresh=None, subset=None):
        cols = list(range(len(self.columns))) if subset is None else \
            [self.columns.index(c) for c in ([subset] if isinstance(subset, str) else subset)]
        least = thresh if thresh is not None else len(cols) if how == 'any' else 1
        return self._with(self._rdd.filter(lambda r: sum(r[c] is not None for c in cols) >= least))

    @property
    def na(self):
        class Na:
            drop = self.dropna
        return Na

    def join(self, other, on=None, how='inner'):
        on = [on] if isinstance(on, str) else list(on or [])
        how = {None: 'inner', 'leftouter': 'left', 'left_outer': 'left', 'rightouter': 'right', 'right_outer': 'right',
               'full': 'outer', 'fullouter': 'outer', 'full_outer': 'outer'}.get(how, how)
        if not on or not all(isinstance(c, str) for c in on) or how not in ('inner', 'left', 'right', 'outer'):
            raise Unsupported(f'join on {on} {how}')
        n = self._n_shuffle()
        li, ri = [self.columns.index(c) for c in on], [other.columns.index(c) for c in on]
        lo = [i for i in range(len(self.columns)) if i not in li]
        ro = [i for i in range(len(other.columns)) if i not in ri]

        def side(tag, idx):
            def f(i, it):
                for x in it:
                    yield (tag, tuple(x[c] for c in idx), x)
            return f

        def split(i, it):
            return buckets((stable_hash(t[1]) % n, t) for t in it)
        both = self._rdd.mapPartitionsWithIndex(side(0, li)).union(other._rdd.mapPartitionsWithIndex(side(1, ri)))
        sh = SimRDD(self._rdd.ctx, 'shuffle', n, parent=both, split=split, outputs=None)

        def match(i, it):
            left, right, keys = {}, {}, {}
            for tag, k, x in it:
                kk = hashable(k)
                keys.setdefault(kk, k)
                (right if tag else left).setdefault(kk, []).append(x)
            for kk, k in keys.items():
                ls, rs = left.get(kk, []), right.get(kk, [])
                if any(v is None for v in k):
                    ls, rs = ls if how in ('left', 'outer') else [], rs if how in ('right', 'outer') else []
                    pairs = [(a, None) for a in ls] + [(None, b) for b in rs]
                elif ls and rs:
                    pairs = [(a, b) for a in ls for b in rs]
                else:
                    pairs = [(a, None) for a in ls if how in ('left', 'outer')] + \
                            [(None, b) for b in rs if how in ('right', 'outer')]
                for a, b in pairs:
                    yield tuple(k) + tuple(a[c] if a else None for c in lo) + tuple(b[c] if b else None for c in ro)
        fields = [self._schema.fields[c] for c in li] + [self._schema.fields[c] for c in lo] + \
                 [other._schema.fields[c] for c in ro]
        return self._with(sh.mapPartitionsWithIndex(match), fields)

    def repartition(self, n, *cols):
        if cols or not isinstance(n, int):
            raise Unsupported('repartition by columns')
        return self._with(self._rdd.repartition(n))

    def coalesce(self, n):
        return self._with(self._rdd.coalesce(n))

    def orderBy(self, *cols, ascending=True):
        cols = list(cols[0]) if len(cols) == 1 and isinstance(cols[0], (list, tuple)) else list(cols)
        asc = list(ascending) if isinstance(ascending, (list, tuple)) else [ascending] * len(cols)
        names, ctx = self.columns, simcol.Ctx(0)
        rows = self._rdd.collect()
        for c, up in reversed(list(zip([simcol.named(c) for c in cols], asc))):
            down = c.order if c.order is not None else not up
            rows.sort(key=lambda r: (lambda v: (v is not None, v))(c.fn(dict(zip(names, r)), ctx)), reverse=down)
        return self._with(self._rdd.ctx.parallelize(rows, max(1, self._rdd.n)))

    sort = orderBy

    def limit(self, n):
        return self._with(self._rdd.ctx.parallelize(self._rdd.take(n), 1))

    def count(self):
        return self._rdd.count()

    def collect(self):
        return self.rdd.collect()

    def take(self, n):
        return self.rdd.take(n)

    def first(self):
        r = self.take(1)
        return r[0] if r else None

    def head(self, n=None):
        return self.first() if n is None else self.take(n)

    def isEmpty(self):
        return not self.take(1)

    def foreach(self, f):
        self.rdd.foreach(f)

    def foreachPartition(self, f):
        self.rdd.foreachPartition(f)

    def toLocalIterator(self, prefetchPartitions=False):
        return self.rdd.toLocalIterator()

    def cache(self):
        return self

    def persist(self, *a, **kw):
        return self

    def unpersist(self, *a, **kw):
        return self

    def checkpoint(self, eager=True):
        return self

    localCheckpoint = checkpoint

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in self.columns:
            return simcol.column(k)
        raise Unsupported(f'DataFrame.{k}')


class SimGrouped:
    def __init__(self, df, keys):
        self.df, self.keys = df, keys

    def agg(self, *cols):
        if not all(isinstance(c, simcol.SimColumn) and c.agg for c in cols):
            raise Unsupported('this kind of aggregation')
        df, keys = self.df, self.keys
        names, schema = df.columns, df._schema
        n = df._n_shuffle() if keys else 1

        def split(part, it):
            ctx = simcol.Ctx(part)
            out = []
            for x in it:
                ctx.row += 1
                r = dict(zip(names, x))
                k = tuple(c.fn(r, ctx) for c in keys)
                vs = [1 if c.agg[0] is None else c.agg[0].fn(r, ctx) for c in cols]
                out.append((stable_hash(k) % n, (k, vs)))
            return buckets(out)

        def merge(i, it):
            groups = {}
            for k, vs in it:
                groups.setdefault(hashable(k), (k, []))[1].append(vs)
            if not keys and not groups:
                yield tuple(c.agg[1]([]) for c in cols)
            for k, rows in groups.values():
                yield tuple(k) + tuple(c.agg[1]([r[j] for r in rows]) for j, c in enumerate(cols))
        sh = SimRDD(df._rdd.ctx, 'shuffle', n, parent=df._rdd, split=split, outputs=None)
        fields = [T.StructField(c.name_, c.typ(schema), True) for c in keys + list(cols)]
        return df._with(sh.mapPartitionsWithIndex(merge), fields)

    def count(self):
        return self.agg(simcol.aggregate('count', None, len, T.LongType()))

    def _each(self, what, cols):
        f = simcol.functions()[what]
        return self.agg(*[f(c).alias(f'{what}({c})') for c in cols])

    def sum(self, *cols):
        return self._each('sum', cols)

    def max(self, *cols):
        return self._each('max', cols)

    def min(self, *cols):
        return self._each('min', cols)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'GroupedData.{k}')


class SimReader:
    def __init__(self, session):
        self.session = session
        self.opts = {}
        self.fmt = None

    def option(self, k, v):
        self.opts[k.lower()] = v
        return self

    def options(self, **kw):
        for k, v in kw.items():
            self.option(k, v)
        return self

    def format(self, f):
        self.fmt = f
        return self

    def load(self, path):
        if self.fmt != 'text':
            raise Unsupported(f'format {self.fmt}')
        return self.text(path)

    def text_rdd(self, paths, wholetext=False, lineSep=None):
        ctx = self.session.sparkContext
        ctx.check()
        w = self.session.cluster.world
        paths = [paths] if isinstance(paths, str) else list(paths)
        files = []
        for p in paths:
            p = re.sub('^file:(//)?', '', p)
            if not os.path.isabs(p):
                p = os.path.join(os.getcwd(), p)
            if os.path.isdir(p):
                files += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f[0] not in '._']
            elif os.path.exists(p):
                files.append(p)
            else:
                raise RuntimeError(f'[PATH_NOT_FOUND] Path does not exist: file:{p}.')
        lineSep = lineSep or self.opts.get('linesep')
        if str(wholetext or self.opts.get('wholetext', False)).lower() == 'true':
            raise Unsupported('wholetext')
        parts = []
        if len(files) > 1:
            files = w.sched_ch.shuffle(files)
        for f in files:
            n_lines = len(read_lines(f, lineSep))
            n = 1 if f.endswith('.gz') else 1 + w.sched_ch.below(self.session.cluster.max_parts)
            cuts = sorted(w.sched_ch.below(n_lines + 1) for _ in range(n - 1))
            cuts = [0] + cuts + [n_lines]
            parts += [(f, cuts[i], cuts[i + 1]) for i in range(n)]
        w.note('text', f'{len(files)} files {[b - a for _, a, b in parts]}')

        def read(i):
            f, a, b = parts[i]
            return read_lines(f, lineSep)[a:b]
        return SimRDD.source(ctx, len(parts), read)

    def text(self, paths, wholetext=False, lineSep=None, **kw):
        rdd = self.text_rdd(paths, wholetext, lineSep)
        return SimDataFrame(self.session, rdd.map(lambda s: (s,)),
                            T.StructType([T.StructField('value', T.StringType(), True)]))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'read.{k}')


def read_lines(path, sep=None):
    """the lines of a text file as Hadoop's reader finds them"""
    with simfs.real_open(path, 'rb') as f:
        data = f.read()
    if path.endswith('.gz'):
        data = gzip.decompress(data)
    if data.startswith(b'\xef\xbb\xbf'):
        data = data[3:]
    if not data:
        return []
    ls = data.split(sep.encode()) if sep else re.split(b'\r\n|\n|\r', data)
    if ls and ls[-1] == b'':
        ls.pop()
    return [x.decode('utf8', 'replace') for x in ls]


class SimSession(SparkSession):
    def __init__(self, cluster, options):  # noqa
        self.cluster = cluster
        self.options = options
        self.stopped = False
        self._sim_sc = SimContext(self)
        self._sc = self._sim_sc
        cluster.session = self
        cluster.sessions.append(self)

    @property
    def sparkContext(self):
        return self._sim_sc

    @property
    def version(self):
        return '4'

    @property
    def conf(self):
        return self._sim_sc._conf

    @property
    def read(self):
        return SimReader(self)

    def createDataFrame(self, data, schema=None, samplingRatio=None, verifySchema=True):
        ctx = self._sim_sc
        ctx.check()
        if isinstance(schema, str):
            raise Unsupported('schema as text')
        if not isinstance(data, RDD):
            data = ctx.parallelize(data)
        if isinstance(schema, T.StructType):
            struct = schema
            verify = T._make_type_verifier(schema) if verifySchema else None

            def prepare(x):
                if verify is not None:
                    verify(x)
                return x
            rdd = data.map(prepare)
        else:
            if schema is not None:
                schema = [x for x in schema]
            first = data.first()
            struct = T._infer_schema(first, names=schema)
            rdd = data.map(T._create_converter(struct))
            if schema is not None:
                for i, name in enumerate(schema):
                    struct.fields[i].name = name
                    struct.names[i] = name
        internal = rdd.map(struct.toInternal)

        def jvm(i, it):
            for x in it:
                yield tuple(jvm_value(v, f.dataType) for v, f in zip(x, struct.fields))
        return SimDataFrame(self, internal.mapPartitionsWithIndex(jvm), struct)

    def range(self, start, end=None, step=1, numPartitions=None):
        rdd = self._sim_sc.range(start, end, step, numPartitions).map(lambda x: (x,))
        return SimDataFrame(self, rdd, T.StructType([T.StructField('id', T.LongType(), False)]))

    def newSession(self):
        return self

    def stop(self):
        w = self.cluster.world
        if not self.stopped:
            self.stopped = self._sim_sc.stopped = True
            w.note('session-stop')
            if w.sched.me() is not None:
                self.cluster.kill_all()
            if self.cluster.session is self:
                self.cluster.session = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(f'SparkSession.{k}')


class SimBuilder:
    def __init__(self):
        self.options = {}

    def appName(self, name):
        return self.config('spark.app.name', name)

    def master(self, m):
        return self.config('spark.master', m)

    def config(self, key=None, value=None, conf=None, *, map=None):
        if key is not None:
            self.options[key] = value
        for k, v in (map or {}).items():
            self.options[k] = v
        return self

    def enableHiveSupport(self):
        return self

    def getOrCreate(self):
        c = cluster(core.CUR)
        if c.session is not None and not c.session.stopped:
            c.session.options.update(self.options)
            return c.session
        return SimSession(c, dict(self.options))

    create = getOrCreate


class BuilderAttr:
    def __get__(self, obj, cls):
        return SimBuilder()


def cluster(w):
    if getattr(w, 'spark', None) is None:
        w.spark = Cluster(w)
    return w.spark


def session(w, **options):
    """a session of this run"""
    b = SimBuilder()
    b.options.update(options)
    return b.getOrCreate()


def deserialize_accumulator(aid, zero, param):
    from pyspark.accumulators import Accumulator
    c = cluster(core.CUR)
    a = c.attempt()
    if a is None:
        return c.accums[aid]
    if aid not in a.accums:
        acc = a.accums[aid] = Accumulator.__new__(Accumulator)
        acc.aid, acc.accum_param, acc._value, acc._deserialized = aid, param, zero, True
    return a.accums[aid]


class SimTaskContext:
    def __init__(self, a):
        self.a = a

    def attemptNumber(self):
        return self.a.no

    def partitionId(self):
        return self.a.part

    def stageId(self):
        return self.a.stage

    def taskAttemptId(self):
        return self.a.id

    def getLocalProperty(self, key):
        return None

    def cpus(self):
        return 1

    def resources(self):
        return {}


def task_context():
    if core.CUR is None:
        return None
    a = cluster(core.CUR).attempt()
    return None if a is None else SimTaskContext(a)


def install():
    import pyspark.accumulators
    import pyspark.taskcontext
    pyspark.accumulators._deserialize_accumulator = deserialize_accumulator
    pyspark.taskcontext.TaskContext.get = staticmethod(task_context)
    simcol.install()
    SparkSession.builder = BuilderAttr()
    SparkSession.getActiveSession = classmethod(lambda cls: cluster(core.CUR).session)
