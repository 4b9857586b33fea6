"""C03: distributed writing stores every record exactly once."""
from .. import gen, simspark
from ..core import Violation
from . import dbutil, poolutil, sparkutil
from .faultutil import arm_faults, arm_stop

ID = 'C03'
NEEDS_SPARK = True
RUNS = {'quick': 12000, 'thorough': 120000}
RULE = ('One evaluation writes a drawn dataset, spread over drawn partitions (empty ones too) and optionally '
        'repartitioned, as one database with tasks of a simulated cluster that run in drawn order and overlap, are '
        'killed or fail at a drawn record or storage operation, are retried, run twice or outlive their replacement, '
        'over nothing or an older database, with storage errors, a stop or an interrupt of the driver in part of the runs; the path '
        'is opened afterwards, again after the tasks still running have ended, and after a fault-free repetition. '
        'Non-trivial: a fault fired or two tasks overlapped.')
REAL = ['nlcodec.db.core (MultipartDb.Writer, load, Db, SeqField)', 'nlcodec.spark.rdd_as_db', 'nlcodec.utils.replacing',
        'pyspark RDD operations in Python, cloudpickle', 'pickle, json, pathlib']
STUB = ['the JVM side of Spark: placing and retrying tasks, shuffles', 'durability and errors of storage operations',
        'clock', 'os.urandom']
ASSUMES = ['All tasks and the driver see one file system.', 'Identifiers are distinct integers.',
           'No task of an earlier job is still running when the same path is written anew (the session was stopped).']
MUST_HIT = ['many-records', 'more-parts-than-announced', 'cluster-none', 'cluster-some', 'cluster-fatal', 'empty-partition', 'repartition', 'over-old', 'job-failed',
            'stored', 'task-killed', 'task-error', 'task-stalled', 'task-run-twice', 'task-replaced', 'task-retried',
            'task-outlives', 'zombies-checked', 'driver-stopped', 'storage-failed', 'refused-overwrite', 'direct', 'interrupted']


def partitions(p, recs):
    """the records spread over partitions"""
    n = 1 + p.small(7) if not p.chance(1, 10) else 9 + p.below(6)
    parts = [[] for _ in range(n)]
    how = p.below(3)
    for k, r in enumerate(recs):
        parts[p.below(n) if how == 0 else k * n // len(recs) if how == 1 else min(n - 1, p.small(n))].append(r)
    return parts


def make_rdd(sess, parts):
    n = len(parts)
    return sess.sparkContext.parallelize(range(n), n).flatMap(lambda i: parts[i])


def scenario(w):
    from nlcodec import spark
    from nlcodec.db.core import MultipartDb
    p = w.plan
    w.fs.bufsize = p.weighted([(3, None), (1, 64), (1, 512)])
    path = w.path('db')
    names = ('x', 'y', 'z')[:p.weighted([(4, 2), (1, 1), (1, 3)])]

    def dataset():
        n = 1 + p.small(14)
        if p.chance(1, 60):
            w.probe('many-records')
            recs = gen.many_records(p, p.pick([150, 300, 700, 1300]) + p.below(9), len(names))
        else:
            recs = gen.records(p, n, len(names), 4)
        feed = gen.as_input(p, recs, numpy=False)
        want = dbutil.Spec.__new__(dbutil.Spec)
        want.recs, want.names, want.want, want.part_size, want.via = recs, list(names), gen.as_dict(recs), 0, 'cluster'
        return feed, want
    feed, want = dataset()
    parts = partitions(p, feed)
    if not all(parts):
        w.probe('empty-partition')
    old = None
    overwrite = p.chance(1, 2)
    start = p.weighted([(3, 'none'), (1, 'empty'), (2, 'old')])
    if start == 'old':
        old = dbutil.spec(w)
        w.must('creating the older database', old.create, path, overwrite=False)
        w.probe('over-old')
    elif start == 'empty':
        path.mkdir()
    w.fs.synced.clear()
    c = sparkutil.setup(w)
    sess = simspark.session(w)
    repart = p.weighted([(2, 0), (1, 1 + p.below(8))])
    direct = p.chance(1, 3)
    kw = dict(field_names=names, overwrite=overwrite)
    if p.chance(1, 3):
        kw['max_parts'] = p.pick([10, 1000, 1, 2, 3])
        if len(parts) > 10 > kw['max_parts']:
            w.probe('more-parts-than-announced')
    w.probe('direct' if direct else 'rdd_as_db')
    if repart:
        w.probe('repartition')

    def write():
        rdd = make_rdd(sess, parts)
        to = path if not p.chance(1, 4) else str(path)
        if not direct:
            return spark.rdd_as_db(rdd, to, repartition=repart, **kw)
        if repart:
            rdd = rdd.repartition(repart)
        with MultipartDb.Writer(to, **kw) as writer:
            rdd.mapPartitionsWithIndex(writer).count()
        return MultipartDb.load(to)
    before = gen.raw_tree(path) if old else None
    extra = w.fault_ch.weighted([(4, None), (1, 'storage'), (1, 'stop'), (1, 'interrupt')])
    n_ops = 8 + 14 * len(parts) + (10 if old else 0)
    a = None
    if extra == 'storage':
        a = arm_faults(w, n_ops, 4000)
    elif extra == 'stop':
        a = arm_stop(w, n_ops)
    elif extra == 'interrupt':
        poolutil.interrupt_driver(w)
    w.sample = dict(parts=[len(x) for x in parts], repartition=repart, start=start, overwrite=overwrite,
                    cluster=c.faults, extra=extra)
    o = w.crashable(write)
    w.disarm()
    w.sched.interrupt = None
    if w.sched.was_interrupted:
        poolutil.must_interrupt(w, o.exc)
    stopped = w.fs.frozen or isinstance(o.exc, KeyboardInterrupt)
    if a is not None and a.crash_at is not None and a.fired and not stopped:
        c.kill_all()        # the stop would come right after the operation of a task that goes on
    if stopped:
        w.probe('driver-stopped')
        if not w.sched.was_interrupted:
            c.driver_gone()
        w.fs.revive()
    w.nontrivial = sum(w.faults.values()) > 0 or len(parts) > 1
    fired = bool(a and a.fired)
    if old is not None and not overwrite:
        if o.ok:
            raise Violation('overwritten', 'writing over a database without permission returned normally')
        if gen.raw_tree(path) != before:
            raise Violation('overwritten', 'without permission to overwrite, the older database changed')
        w.probe('refused-overwrite')
        return
    allowed = [want] if o.ok else ([old] if old else [])
    if not o.ok:
        if fired or stopped:
            allowed.append(want)
            w.probe('storage-failed')
        elif not isinstance(o.exc, simspark.SparkJobFailed) or c.faults != 'fatal':
            raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
        else:
            w.probe('job-failed')
    look(w, path, allowed, o, 'after the job')
    if c.running():
        w.probe('zombies-checked')
        steps = 0
        while c.running() and steps < 400:
            steps += 1
            w.sched.sleep(1.0)
            if p.chance(1, 8):
                look(w, path, allowed, o, 'while tasks of the job still run')
        look(w, path, allowed, o, 'after tasks that outlived the job')
    if o.ok:
        w.probe('stored')
        db = o.value
        n = w.observe('length', lambda: len(db))
        if n != len(want.want):
            raise Violation('length', f'the returned database has {n} records of {len(want.want)}')
        rows = w.must('reading the returned database', gen.read_rows, db, want.names)
        d = gen.diff_rows(rows, want.want)
        if d:
            raise Violation('wrong-data', f'the returned database: {d}')
        if p.chance(2, 3):
            return
    # again, without faults
    sess.stop()
    c.faults, c.local = 'none', False
    sess = simspark.session(w)
    feed, want = dataset()
    parts = partitions(p, feed)
    kw['overwrite'] = True
    w.must('writing again, overwriting', write)
    if look(w, path, [want], None, 'after writing again') is None:
        raise Violation('refused', 'a database written without faults is refused')


def look(w, path, allowed, o, when):
    f = dbutil.open_and_match(w, path, allowed, f'{when} ({o!r:.200})') if path.exists() else None
    if f is None and o is not None and o.ok:
        raise Violation('incomplete', f'{when}: success was reported, but the database is refused')
    return f
