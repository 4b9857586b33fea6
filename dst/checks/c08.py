"""C08: parallel map-reduce equals the sequential fold."""
import collections
import functools

from ..core import Violation
from .. import cli, gen, mappers
from . import poolutil

ID = 'C08'
RUNS = {'quick': 8000, 'thorough': 80000}
RULE = ('One evaluation is one drawn map-reduce (mapper, associative reducer with its identity, commutative or not, in '
        'place or not, items, processes, chunk size, speeds, pipe sizes) under one drawn schedule of all threads and '
        'worker processes, compared with the fold in order. Non-trivial: at least three items, run with processes.')
REAL = ['nlcodec.para.mapred (MapReduce, IterativeReducer, ireduce, pair_subsequent, WordCounter)',
        'the multiprocessing.pool code of the standard library (Pool, its threads, imap, termination)', 'pickle']
STUB = ['scheduling of threads and processes', 'processes (isolated by pickling), pipes, locks, condition variables',
        'clock and sleep']
ASSUMES = ['The reducer is associative and the default is its identity.', 'Worker processes are not killed from '
                                                                         'outside.']
MUST_HIT = ['many-items', 'whole-input', 'false-values', 'processes', 'no-processes', 'non-commutative', 'in-place', 'word-count', 'odd', 'power-of-two', 'single',
            'many-chunks', 'mixed-pools', 'empty-line', 'printed']

KINDS = [
    ('sum', mappers.square, mappers.add, 0), ('concat', mappers.wrap, mappers.cat, ()),
    ('strings', mappers.as_str, mappers.cat, ''), ('matrices', mappers.affine, mappers.matmul, ((1, 0), (0, 1))),
    ('lists', mappers.as_list, mappers.extend, []), ('union', mappers.as_set, mappers.union, frozenset()),
    ('maximum', mappers.ident, mappers.biggest, -1), ('first', mappers.ident, mappers.first_nonzero, 0),
    ('lists', mappers.as_list, mappers.cat, []), ('some', mappers.some, mappers.cat, ()),
    ('some strings', mappers.some_str, mappers.cat, ''), ('product', mappers.counted_zero, mappers.times, 1),
    ('minimum', mappers.ident, mappers.smallest, float('inf')), ('last given', mappers.falsy, mappers.last_given, '∅'),
    ('first given', mappers.falsy, mappers.first_given, '∅'), ('all', mappers.even, mappers.all_true, True)]
COMMUTATIVE = ('sum', 'union', 'maximum', 'product', 'minimum', 'all')


def scenario(w):
    from nlcodec.para import mapred
    import copy
    p = poolutil.setup(w)
    n = p.pick([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 25, 33])
    words = p.chance(1, 4)
    many = p.chance(1, 60)
    if many:
        w.probe('many-items')
        n = p.pick([130, 257, 1025, 2050, 4100, 5000]) + p.below(3)
    if words:
        w.probe('word-count')
        lex = gen.lexicon(p, 4)
        items = [gen.line(p, lex, 4, spaces=True) for _ in range(n)]
        if any(not x.split() for x in items):
            w.probe('empty-line')
        mr = mapred.WordCounter()
        want = dict(collections.Counter(t for x in items for t in x.split()))
        kind = 'words'
    else:
        kind, mapper, reducer, default = p.pick(KINDS)
        if kind not in COMMUTATIVE:
            w.probe('non-commutative')
        if kind in ('product', 'minimum', 'last given', 'first given', 'all'):
            w.probe('false-values')
        if reducer is mappers.extend:
            w.probe('in-place')
        items = [p.below(50) for _ in range(n)]
        mr = mapred.MapReduce(mapper, reducer, copy.deepcopy(default))
        want = functools.reduce(reducer, [mapper(x) for x in copy.deepcopy(items)], copy.deepcopy(default))
    w.probe('odd' if n % 2 else 'even')
    if n & (n - 1) == 0:
        w.probe('power-of-two')
    if n == 1:
        w.probe('single')
    mode = p.weighted([(6, 'processes'), (1, 'no-processes'), (1, 'mixed-pools'), (1, 'ireduce')])
    w.probe(mode)
    chunk = 1 + p.small(6)
    if many:
        chunk += n // (1 + p.below(20))
    mp_, rp = 1 + p.below(3), 1 + p.below(3)
    w.sample = dict(kind=kind, items=n, mode=mode, chunk=chunk, map_procs=mp_, red_procs=rp,
                    policy=str(w.sched.policy))
    if n > chunk:
        w.probe('many-chunks')

    def run():
        src = poolutil.feed(w, items)
        if mode == 'processes':
            return mr.multiprocess(src, map_procs=mp_, red_procs=rp, chunksize=chunk)
        if mode == 'no-processes':
            return mr(src, map_pool=map, reduce_pool=map)
        if mode == 'ireduce':
            return mapred.ireduce(mr.reducer, mr.default, map(mr.mapper, src))
        import multiprocessing
        with multiprocessing.Pool(mp_) as pool:
            f = functools.partial(pool.imap, chunksize=chunk)
            if rp % 2:
                return mr(src, map_pool=f, reduce_pool=map)
            return mr(src, map_pool=f, reduce_pool=f)
    if words and p.chance(1, 4):
        return printed(w, items, want)
    times = 1 + (p.below(2) if n < 10 else 0)
    for k in range(times):
        got = w.must('map-reduce', run)
        if words:
            got = dict(got)
        if got != want or type(got) is not type(want):
            raise Violation('differs', f'{kind} of {items!r}: {got!r} instead of {want!r} ({mode}, run {k + 1})')
        poolutil.released(w, 'after the result')
    if n >= 3 and mode != 'no-processes' and mode != 'ireduce':
        w.nontrivial = True


def printed(w, items, want):
    """the counts as the module's main prints them"""
    from nlcodec.para import mapred
    w.probe('printed')
    chan = cli.Chan(w)
    with cli.Session():
        ok, err = cli.run(w, lambda: mapred.main(poolutil.feed(w, items)), ['mapred'],
                          cli.text_in(cli.RawIn(w, b''), 64), cli.text_out(cli.RawOut(w, chan, short=2), 64))
    if not ok:
        raise Violation('unexpected-error', f'counting words failed: {err!r}')
    poolutil.released(w, 'after the result')
    rows = [l.rpartition('\t') for l in bytes(chan.total).decode().split('\n')[:-1]]
    got = [(t, int(f.replace(',', ''))) for t, _, f in rows]
    if dict(got) != want or len(got) != len(want):
        raise Violation('differs', f'the counts printed for {items!r} are {got!r} instead of {want!r}')
    if [f for _, f in got] != sorted(want.values(), reverse=True):
        raise Violation('order', f'the counts printed do not decrease: {got!r}')
    w.nontrivial = len(items) >= 3
