"""C09: parallel pipelines fail loudly and always terminate."""
import functools

from ..core import Violation
from .. import codecutil, mappers
from . import poolutil

ID = 'C09'
RUNS = {'quick': 8000, 'thorough': 80000}
RULE = ('One evaluation is one parallel pipeline (encoding stream, or map-reduce) in which the mapper, encoder, '
        'reducer or input fails at drawn items, or the consumer stops early or is interrupted while it waits, under one drawn schedule of all threads '
        'and worker processes; deadlock, an endless run, a wrong or lost error, wrong results before it, and workers '
        'left alive are violations. Non-trivial: a failure or an early stop happened.')
REAL = ['nlcodec.codec (encode_parallel, parallel_map)', 'nlcodec.para.mapred',
        'the multiprocessing.pool code of the standard library (Pool, its threads, imap, termination)', 'pickle']
STUB = ['scheduling of threads and processes', 'processes (isolated by pickling), pipes, locks, condition variables',
        'clock and sleep']
ASSUMES = ['Errors are ordinary picklable exceptions of 17 classes, not StopIteration and not a killed worker process.',
           'A terminated worker keeps the locks of pipes it holds, and leaves messages it moved in part.']
MUST_HIT = ['mapper-error', 'reducer-error', 'input-error', 'encoder-error', 'early-stop', 'several-errors',
            'error-in-first', 'error-in-last', 'after-prefix', 'clean-rerun', 'empty-input', 'no-error',
            'interrupted', 'endless-input', 'all-interrupted', 'pipe-full']


class Item:
    """a line whose encoding fails"""

    def __init__(self, s):
        self.s = s


def encode_stream(w, p):
    kind = p.pick(mappers.KINDS)
    ls, lex = codecutil.corpus(p)
    level = p.pick(['word', 'char', 'bpe', 'byte'])
    scheme = w.must('learning', codecutil.learn, ls, level)
    n = p.pick([1, 2, 3, 5, 8, 13, 21])
    chunk = 1 + p.small(6)
    items = list(range(n))
    cause = p.weighted([(3, 'mapper'), (2, 'input'), (2, 'encoder'), (2, 'stop'), (2, 'interrupt'), (1, 'none')])
    bad = sorted({p.below(n) for _ in range(1 + p.below(3))})
    fail_at, err = None, None
    par = dict(n_cpus=2 + p.small(3), chunksize=chunk)
    stop_at = None
    lines = [p.pick(ls) for _ in range(n)]
    want = [scheme.encode(l) for l in lines]
    mapper = scheme.encode
    src = lines
    first = None
    if cause == 'mapper':
        w.probe('mapper-error')
        mapper = mappers.Failing(mappers.square, bad, 'mapper', kind)
        src, want = items, [x * x for x in items]
        first = bad[0]
        msg = f'mapper at {bad[0]!r}'
    elif cause == 'encoder':
        w.probe('encoder-error')
        src = [None if i in bad else l for i, l in enumerate(lines)]      # not a line: AttributeError or TypeError
        first = bad[0]
        o = w.call(scheme.encode, None)
        msg, kind = str(o.exc), type(o.exc).__name__
    elif cause == 'input':
        fail_at = p.below(n + 1)
        w.probe('input-fails')
        msg = f'input at {fail_at}'
        err = mappers.error(kind, msg)
    elif cause == 'stop':
        stop_at = p.below(n)
        w.probe('early-stop')
    elif cause == 'interrupt':
        mapper = mappers.Slow(mapper)
    else:
        w.probe('no-error')
    if len(bad) > 1 and cause in ('mapper', 'encoder'):
        w.probe('several-errors')
    if first == 0:
        w.probe('error-in-first')
    if first == n - 1:
        w.probe('error-in-last')
    w.nontrivial = cause != 'none'
    w.sample = dict(pipe='encode', cause=cause, n=n, at=bad if first is not None else fail_at, policy=str(w.sched.policy),
                    **par)
    consume = p.below(4)
    endless = cause in ('mapper', 'encoder', 'stop', 'interrupt') and p.chance(1, 3)
    it = iter(scheme.parallel_map(mapper, poolutil.feed(w, src, fail_at, err, endless), **par))
    got, exc, ended = [], None, False
    if cause == 'interrupt':
        poolutil.interrupt(w, n)
    while not ended:
        if stop_at is not None and len(got) >= stop_at:
            break
        if endless and cause == 'interrupt' and len(got) == n:
            w.must('closing', getattr(it, 'close', lambda: None))       # it came too late
            break
        o = w.crashable(next, it, StopIteration)
        if not o.ok:
            exc = o.exc
            break
        if o.value is StopIteration:
            ended = True
        else:
            got.append(o.value)
            poolutil.pause(w, consume, len(got))
    if stop_at is not None:
        w.must('closing', getattr(it, 'close', lambda: None))
    del it
    if got != want[:len(got)]:
        raise Violation('wrong-prefix', f'{got!r} is no prefix of {want!r}')
    if cause in ('mapper', 'encoder', 'input'):
        if exc is None:
            raise Violation('swallowed', f'{cause} failed (at {bad if first is not None else fail_at}), but the stream '
                                         f'ended normally after {len(got)} of {n} results')
        if not poolutil.same(exc, kind, msg):
            raise Violation('other-error', f'{cause} failed with {kind}({msg}), the caller got {exc!r}')
        limit = first if first is not None else fail_at
        if len(got) > limit:
            raise Violation('wrong-prefix', f'{len(got)} results although item {limit} failed')
        if got:
            w.probe('after-prefix')
    elif w.sched.was_interrupted:
        poolutil.must_interrupt(w, exc)
    elif exc is not None:
        raise Violation('unexpected-error', repr(exc))
    elif stop_at is None and len(got) != n:
        raise Violation('lost', f'{len(got)} results of {n}')
    exc = None
    poolutil.released(w, f'after {cause}')


def map_reduce(w, p):
    from nlcodec.para import mapred
    kind = p.pick(mappers.KINDS)
    n = p.pick([1, 2, 3, 4, 5, 7, 8, 13, 17])
    chunk = 1 + p.small(5)
    cause = p.weighted([(3, 'mapper'), (3, 'reducer'), (2, 'input'), (2, 'interrupt'), (1, 'none'), (1, 'empty')])
    mapper, reducer = mappers.wrap, mappers.cat
    bad = sorted({p.below(n) for _ in range(1 + p.below(2))})
    fail_at, err = None, None
    items = list(range(n))
    raises = True
    if cause == 'mapper':
        w.probe('mapper-error')
        mapper = mappers.Failing(mappers.wrap, bad, 'mapper', kind)
    elif cause == 'reducer':
        mode = p.pick(['left', 'right', 'root'])
        k = bad[0] if mode != 'root' else 1 + p.below(n)
        reducer = mappers.FailingReducer(k, mode, kind)
        # what reaches the reducer is decided by the pairing, which the property leaves open: run it in order
        # without processes to know whether it has to fail
        raises = None
        w.probe('reducer-error')
    elif cause == 'input':
        fail_at = p.below(n + 1)
        err = mappers.error(kind, f'input at {fail_at}')
        w.probe('input-fails')
    elif cause == 'empty':
        items, n = [], 0
        w.probe('empty-input')
    elif cause == 'interrupt':
        poolutil.interrupt(w, n)
    else:
        raises = False
        w.probe('no-error')
    args = dict(map_procs=1 + p.below(3), red_procs=1 + p.below(3), chunksize=chunk)
    w.sample = dict(pipe='map-reduce', cause=cause, n=n, at=bad, fail_at=fail_at, policy=str(w.sched.policy), **args)
    w.nontrivial = cause != 'none'
    mr = mapred.MapReduce(mapper, reducer, ())
    endless = cause in ('mapper', 'interrupt') and p.chance(1, 3)
    if endless and cause == 'interrupt':
        w.sched.interrupt = [1, 0]       # main waits once each time the items double, perhaps shortly
    o = w.crashable(mr.multiprocess, poolutil.feed(w, items, fail_at, err, endless), **args)
    if w.sched.was_interrupted:
        poolutil.must_interrupt(w, o.exc)
    elif o.ok:
        if raises and cause != 'interrupt':
            raise Violation('swallowed', f'{cause} failed at {bad if fail_at is None else fail_at} of {n} items, but '
                                         f'the result is {o.value!r}')
        if cause == 'reducer':
            # it may be that no reduction meets the condition; but then the result is complete
            if mode == 'root' and n > 1 and k <= n:
                raise Violation('swallowed', f'the reducer fails at {k} items, the result is {o.value!r}')
        if tuple(o.value) != tuple(items):
            raise Violation('differs', f'{o.value!r} instead of the items in order')
    else:
        if raises is False:
            raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
        exp = {'mapper': 'mapper at', 'reducer': 'reducer at', 'input': 'input at'}.get(cause)
        if exp and not poolutil.same(o.exc, kind, exp):
            raise Violation('other-error', f'{cause} failed, the caller got {o!r}')
        if cause == 'mapper' and not any(poolutil.same(o.exc, kind, f'mapper at {b!r}') for b in bad):
            raise Violation('other-error', f'{o!r}')
    o = None
    poolutil.released(w, f'after {cause}')
    w.sched.interrupt = None
    if p.chance(1, 5):
        w.probe('clean-rerun')
        got = w.must('map-reduce again', mapred.MapReduce(mappers.wrap, mappers.cat, ()).multiprocess, iter(range(5)),
                     **args)
        if tuple(got) != tuple(range(5)):
            raise Violation('differs', f'again: {got!r}')
        poolutil.released(w, 'again')


def scenario(w):
    p = poolutil.setup(w)
    if p.chance(1, 2):
        encode_stream(w, p)
    else:
        map_reduce(w, p)
