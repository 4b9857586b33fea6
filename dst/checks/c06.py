"""C06: a batch reproduces its records under padding and boundary marks."""
import collections
import errno

from ..core import Violation
from .. import gen
from . import batchutil

ID = 'C06'
RUNS = {'quick': 15000, 'thorough': 150000}
RULE = ('One evaluation stores a drawn dataset (sequences with and without boundary marks and values equal to the '
        'padding inside) and compares every row of every batch of several epochs, interleaved in a drawn order and '
        'with drawn random numbers, with the stored records; some epochs are cut short by failing storage reads or '
        'abandoned. Non-trivial: a batch with rows of different length, or an added mark.')
REAL = ['nlcodec.db.batch (BatchIterable, Batch, IdExample, BatchMeta)', 'nlcodec.db.core', 'numpy']
STUB = ['random and numpy.random (seeded)', 'errors of storage reads', 'clock']
ASSUMES = ['Values fit in the signed 64-bit integers of a batch.',
           'A stored mark where the configuration says there is none may be refused with an error.']
MUST_HIT = ['many-records', 'long-sequence', 'bos-added', 'eos-added', 'bos-kept', 'eos-kept', 'padded', 'transposed', 'sorted', 'second-epoch',
            'interleaved', 'wide', 'unexpected-mark', 'pad-inside', 'abandoned', 'read-error']


def scenario(w):
    from nlcodec.db.batch import BatchIterable, BatchMeta
    from nlcodec.db.core import Db, MultipartDb
    p = w.plan
    multi = p.chance(1, 2)
    pad, bos, eos = p.pick([(0, 2, 3), (0, 1, 1), (1, 0, 2), (-1, 260, 70000), (7, 5, 6)])
    flags = dict(add_bos_x=p.chance(1, 2), add_bos_y=p.chance(1, 2), add_eos_x=not p.chance(1, 3),
                 add_eos_y=not p.chance(1, 3))
    meta = BatchMeta(pad_idx=pad, bos_idx=bos, eos_idx=eos, **flags)
    wide = p.weighted([(5, (8, 30)), (1, (8, 70000)), (1, (8, 2 ** 33)), (1, (8, 2 ** 63 - 1)), (1, (-5, -2)),
                       (1, (-2 ** 63, 2 ** 62))])
    if wide[1] > 2 ** 32:
        w.probe('wide')
    bad_marks = p.chance(1, 12)
    side = [0]

    def fix(pl, s):
        """decides the marks of one sequence"""
        add_bos, add_eos = (flags['add_bos_x'], flags['add_eos_x']) if side[0] % 2 == 0 else \
            (flags['add_bos_y'], flags['add_eos_y'])
        side[0] += 1
        s = [v for v in s if v not in (bos, eos)]
        if not s:
            return [] if pl.chance(1, 8) else [9]
        for k in range(len(s)):
            if pl.chance(1, 8):
                s[k] = pl.pick([pad, bos, eos])
                w.probe('pad-inside')
        if not bad_marks:
            if s[0] == bos and not add_bos or s[0] in (pad,):
                s[0] = 9
            if s[-1] == eos and not add_eos or s[-1] in (pad,):
                s[-1] = 9
        if add_bos and pl.chance(1, 3):
            s[0] = bos
        if add_eos and pl.chance(1, 3):
            s[-1] = eos
        if not bad_marks and not add_eos and s[-1] == eos or not add_bos and s[0] == bos:
            if not bad_marks:
                s = [9] + s + [9]
        return s
    sp = batchutil.dataset(w, hi=p.weighted([(4, 10), (1, 30)]), ranges=(wide, wide), fix=fix)
    path = w.path('db')
    batchutil.store(w, sp, path, multi)
    usable = {i: r for i, r in sp.want.items() if r[0] and r[1]}
    unexpected = any((s[0] == bos and not ab) or (s[-1] == eos and not ae)
                     for r in usable.values()
                     for s, ab, ae in ((r[0], flags['add_bos_x'], flags['add_eos_x']),
                                       (r[1], flags['add_bos_y'], flags['add_eos_y'])))
    if unexpected:
        w.probe('unexpected-mark')
    want = collections.Counter(
        (tuple(batchutil.marked(r[0], flags['add_bos_x'], flags['add_eos_x'], meta)),
         tuple(batchutil.marked(r[1], flags['add_bos_y'], flags['add_eos_y'], meta))) for r in usable.values())
    for r in usable.values():
        for s, ab, ae in ((r[0], flags['add_bos_x'], flags['add_eos_x']),
                          (r[1], flags['add_bos_y'], flags['add_eos_y'])):
            if ab:
                w.probe('bos-kept' if s[0] == bos else 'bos-added')
            if ae:
                w.probe('eos-kept' if s[-1] == eos else 'eos-added')
    longest = max((max(map(len, r)) for r in usable.values()), default=1)
    size = p.pick([longest + p.small(40), (longest + p.small(40), 1 + p.below(6))])
    if len(usable) > 100:
        # batches of hundreds of rows
        size = p.pick([longest * len(usable), (longest * len(usable), 130 + p.below(500)), 700])
    w.sample = dict(multi=multi, marks=[pad, bos, eos], flags=flags, wide=list(wide), records=len(usable))

    def matches(n, xs, ys, b):
        """the records of a batch, from its rows and reported lengths"""
        xl, yl = [int(v) for v in b.x_len], [int(v) for v in b.y_len]
        if not (n == len(xs) == len(ys) == len(xl) == len(yl)):
            raise Violation('layout', f'{n} records, {len(xs)} and {len(ys)} rows, {len(xl)} and {len(yl)} lengths')
        out = []
        for rows, lens, tot, mx in ((xs, xl, int(b.x_toks), int(b.max_x_len)), (ys, yl, int(b.y_toks),
                                                                                int(b.max_y_len))):
            if tot != sum(lens) or mx != max(lens):
                raise Violation('lengths', f'lengths {lens}, but total {tot} and maximum {mx}')
            seqs = []
            for r, k in zip(rows, lens):
                if len(r) != max(lens):
                    raise Violation('layout', f'a row of {len(r)} columns, the longest has {max(lens)}')
                if any(v != pad for v in r[k:]):
                    raise Violation('padding', f'row {r} of length {k} is followed by something else than {pad}')
                if k < max(lens):
                    w.probe('padded')
                    w.nontrivial = True
                seqs.append(tuple(r[:k]))
            out.append(seqs)
        return xl, list(zip(*out))

    def make():
        cfg = dict(sort_by=p.pick([None, 'eq_len_rand_batch', 'random']), batch_first=not p.chance(1, 3),
                   sort_desc=p.chance(1, 2), keep_in_mem=p.chance(1, 2))
        return cfg, w.must('opening', lambda: BatchIterable(path, size, meta, **cfg))
    sets = [make() for _ in range(1 + p.below(2))]
    for epoch in range(1 + p.below(3)):
        w.seed_random()
        if epoch:
            w.probe('second-epoch')
        passes = []
        for j in range(1 + p.below(3)):
            cfg, ds = sets[p.below(len(sets))]
            passes.append(dict(cfg=cfg, it=iter(ds), got=collections.Counter(), end=None))
        if len(passes) > 1:
            w.probe('interleaved')
        if multi and p.chance(1, 6):
            w.arm(errors={w.fault_ch.below(20): errno.EIO}, kinds=('open-r', 'read'))
        live = list(passes)
        drop = p.chance(1, 6)
        while live:
            ps = live[w.ch.sched.below(len(live))]
            cfg = ps['cfg']
            fired0 = w.fs.armed.fired if w.fs.armed else 0
            o = w.call(next, ps['it'], None)
            if not o.ok:
                live.remove(ps)
                ps['end'] = 'error'
                if w.fs.armed and w.fs.armed.fired > fired0:
                    w.probe('read-error')
                elif unexpected or not usable:
                    pass
                else:
                    raise Violation('unexpected-error', f'{cfg}: {o!r}\n{o.tb}')
                continue
            if o.value is None:
                live.remove(ps)
                ps['end'] = 'end'
                continue
            b = o.value
            n, xs, ys = w.observe('rows', lambda: batchutil.rows_of(b, cfg['batch_first'], meta))
            xl, recs = w.observe('lengths', lambda: matches(n, xs, ys, b))
            if not cfg['batch_first']:
                w.probe('transposed')
            if cfg['sort_desc']:
                w.probe('sorted')
                if xl != sorted(xl, reverse=True):
                    raise Violation('order', f'source lengths {xl} are not decreasing')
            w.note('batch', f'{passes.index(ps)} {recs}')
            ps['got'].update(recs)
            extra = ps['got'] - want
            if extra and not unexpected:
                raise Violation('rows', f'{cfg}: rows that are no stored record (or twice): {dict(extra)}, '
                                        f'stored {dict(want)}')
            if drop and p.chance(1, 5):
                live.remove(ps)
                ps['end'] = 'dropped'
                w.probe('abandoned')
        w.disarm()
        for ps in passes:
            if ps['end'] == 'end' and want - ps['got'] and not unexpected:
                raise Violation('rows', f'{ps["cfg"]}: no row for {dict(want - ps["got"])}')
    for cfg, ds in sets[:1]:
        rows = w.must('reading', lambda: gen.read_rows(ds.data, ['x', 'y']))
        d = gen.diff_rows(rows, sp.want)
        if d:
            raise Violation('stored-data', f'after the epochs: {d}')
