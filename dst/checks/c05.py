"""C05: an epoch batches every usable record exactly once, within the limits."""
import collections

from ..core import Violation
from .. import gen
from . import batchutil, dbutil
from .faultutil import READ_ERRNOS

ID = 'C05'
RUNS = {'quick': 15000, 'thorough': 150000}
RULE = ('One evaluation stores a drawn dataset (some records with empty fields, some beyond the token limit) and '
        'reads epochs of batches through drawn interfaces (BatchIterable in every mode, Db and MultipartDb '
        'length-sorted batches), up to three of them interleaved batch by batch in a drawn order, some while storage '
        'reads fail, with drawn random numbers. Non-trivial: an epoch has several batches, or fails as it should.')
REAL = ['nlcodec.db.batch (BatchIterable, Batch)', 'nlcodec.db.core (Db, MultipartDb, SeqField)', 'numpy']
STUB = ['random and numpy.random (seeded)', 'errors of storage reads', 'clock']
ASSUMES = ['Records read through BatchIterable have the fields x and y.',
           'A dataset without any usable record may be refused or give no batch.']
MUST_HIT = ['many-records', 'many-records', 'long-sequence', 'lost-part', 'cut-part', 'interleaved', 'eq-len', 'in-order', 'raw-db', 'raw-multi', 'oversize-refused', 'empty-field',
            'no-usable', 'part-without-usable', 'read-error', 'sents-bound', 'toks-bound', 'second-epoch', 'streamed',
            'in-memory', 'other-fields']


class Pass:
    def __init__(self, name, mk, kind, cfg):
        self.name, self.mk, self.kind, self.cfg = name, mk, kind, cfg
        self.it = None
        self.batches = []          # lists of (x, y)
        self.ids = []

    def step(self):
        """one batch; False at the end"""
        if self.it is None:
            self.it = iter(self.mk())
        try:
            b = next(self.it)
        except StopIteration:
            return False
        if self.kind == 'batch':
            n, xs, ys = batchutil.rows_of(b, self.cfg['batch_first'], None)
            if not (n == len(xs) == len(ys)):
                raise ValueError(f'a batch of {n} has {len(xs)} and {len(ys)} rows')

            def body(row):
                while row and row[-1] == 0:       # padding
                    row = row[:-1]
                if row and row[-1] == 3:          # end mark
                    row = row[:-1]
                if row and row[0] == 2:
                    row = row[1:]
                return tuple(row)
            self.batches.append([(body(x), body(y)) for x, y in zip(xs, ys)])
        else:
            rows = [(gen.key(r.id), tuple(gen.plain(r.x)), tuple(gen.plain(r.y))) for r in b]
            self.ids += [r[0] for r in rows]
            self.batches.append([r[1:] for r in rows])
        return True


def many(w):
    """more records than 16 bits count"""
    from nlcodec.db.batch import BatchIterable, BatchMeta
    from nlcodec.db.core import Db
    p = w.plan
    w.probe('many-records')
    n = 65536 + p.below(40)
    path = w.path('db')
    w.must('creating', lambda: Db.create(([[5 + i % 200], [5 + i // 300] * (1 + (i % 7 == 0))] for i in range(n)),
                                         ['x', 'y'], path=path))
    want = collections.Counter((5 + i % 200, 5 + i // 300) for i in range(n))
    size = p.pick([(4000, 1000), 5001, (100000, 70000)])
    toks, sents = size if isinstance(size, tuple) else (size, n)
    w.seed_random()
    for sort_by in p.pick([['eq_len_rand_batch'], ['eq_len_rand_batch', 'random'], [None]]):
        got = collections.Counter()
        data = BatchIterable(path, size, BatchMeta(pad_idx=0, bos_idx=2, eos_idx=3, add_eos_x=False, add_eos_y=False),
                             sort_by=sort_by)
        for b in w.must('batching', lambda: list(data)):
            x, y = b.x_seqs[:, 0].tolist(), b.y_seqs[:, 0].tolist()
            if not 0 < len(x) == len(y) <= sents or len(x) * b.y_seqs.shape[1] > toks:
                raise Violation('limits', f'{sort_by}: {len(x)} records of {b.y_seqs.shape[1]}')
            got.update(zip(x, y))
        if got != want:
            raise Violation('missing', f'{sort_by}, {n} records: {len(want - got)} are missing, {len(got - want)} more')
    w.nontrivial = True


def other_fields(w):
    """databases of one or three fields, batched by length"""
    from nlcodec.db.core import Db, MultipartDb
    p = w.plan
    w.probe('other-fields')
    multi = p.chance(1, 2)
    nf = p.pick([1, 3, 3])
    sp = dbutil.spec(w, hi=12, n_fields=nf, max_len=5)
    path = w.path('db')
    batchutil.store(w, sp, path, multi)
    usable = {i: r for i, r in sp.want.items() if all(r)}
    longest = max((max(map(len, r)) for r in usable.values()), default=1)
    toks, sents = longest + p.small(30), p.pick([None, 1 + p.below(5)])
    w.sample = dict(fields=nf, records=len(sp.want), usable=len(usable), max_toks=toks, max_sents=sents)
    keep = p.chance(1, 2)
    db = w.must('opening', lambda: MultipartDb.load(path, keep_in_mem=keep) if multi else Db.load(path))
    for _ in range(1 + p.below(2)):
        w.seed_random()
        o = w.call(lambda: list(db.make_eq_len_ran_batches(toks, **({} if sents is None else dict(max_sents=sents)))))
        if not usable:
            if o.ok and any(o.value):
                raise Violation('extra', f'no record is usable, batches are {o.value!r}')
            continue
        if not o.ok:
            raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
        got = {}
        for b in o.value:
            n = max(len(getattr(r, f)) for r in b for f in sp.names)
            if n * len(b) > toks or len(b) > (sents or len(b)):
                raise Violation('limits', f'{len(b)} records x longest {n}, limits {toks} and {sents}')
            for r in b:
                i = gen.key(r.id)
                if i in got:
                    raise Violation('extra', f'record {i} is batched twice')
                got[i] = [gen.plain(getattr(r, f)) for f in sp.names]
        if got != usable:
            raise Violation('missing' if usable.keys() - got.keys() else 'extra',
                            f'{nf} fields: batched are {sorted(map(str, got))}, usable {sorted(map(str, usable))}')
        w.nontrivial = w.nontrivial or len(o.value) > 1


def scenario(w):
    from nlcodec.db.batch import BatchIterable, BatchMeta
    from nlcodec.db.core import Db, MultipartDb
    p = w.plan
    if p.chance(1, 1500):
        return many(w)
    if p.chance(1, 20):
        return other_fields(w)
    multi = p.chance(3, 5)
    max_len = p.pick([6, 3, 12])
    density = p.below(4)

    def fix(pl, s):
        return [] if pl.below(10) < density * density // 1.5 else (s or [4])
    sp = batchutil.dataset(w, hi=p.weighted([(4, 14), (1, 40)]), max_len=max_len, fix=fix)
    path = w.path('db')
    batchutil.store(w, sp, path, multi)
    usable = {i: (tuple(r[0]), tuple(r[1])) for i, r in sp.want.items() if r[0] and r[1]}
    if len(usable) < len(sp.want):
        w.probe('empty-field')
    order = [i for i, _ in sp.recs]
    if multi and usable and any(not any(i in usable for i in order[k:k + sp.part_size])
                                for k in range(0, len(order), sp.part_size)):
        w.probe('part-without-usable')
    if not usable:
        w.probe('no-usable')
    longest = max((max(len(x), len(y)) for x, y in usable.values()), default=0)
    if p.chance(1, 5):
        max_toks = 1 + p.below(max(1, longest))      # likely too small for the longest
    else:
        max_toks = max(1, longest) + p.small(40)
    max_sents = p.weighted([(2, None), (3, 1 + p.below(6))])
    if len(usable) > 100 and p.chance(1, 2):
        # batches of hundreds of records
        max_toks, max_sents = longest * p.pick([len(usable), 140]), p.pick([None, 130, 257, 300])
    oversize = longest > max_toks
    w.sample = dict(multi=multi, records=len(sp.want), usable=len(usable), part=sp.part_size, max_toks=max_toks,
                    max_sents=max_sents, oversize=oversize, passes=[])
    want = collections.Counter(usable.values())

    objs = {}

    def make(j):
        kind = p.weighted([(4, 'batch'), (1, 'raw')])
        keep = p.chance(1, 2)
        if kind == 'batch':
            sort_by = p.pick([None, 'eq_len_rand_batch', 'random'])
            w.probe('eq-len' if sort_by == 'eq_len_rand_batch' else 'in-order')
            if multi:
                w.probe('in-memory' if keep or len(order) <= sp.part_size else 'streamed')
            cfg = dict(sort_by=sort_by, batch_first=not p.chance(1, 4), sort_desc=p.chance(1, 3), keep_in_mem=keep)
            size = max_toks if max_sents is None else (max_toks, max_sents)
            as_str = p.chance(1, 4)

            key = (kind, tuple(sorted(cfg.items(), key=str)))
            if key not in objs or p.chance(1, 2):
                objs[key] = w.must('opening', lambda: BatchIterable(
                    str(path) if as_str else path, size, BatchMeta(pad_idx=0, bos_idx=2, eos_idx=3,
                                                                   add_bos_y=p.chance(1, 4)), **cfg))
            o = objs[key]
            n = w.observe('the number of items', lambda: o.num_items)
            if n != len(sp.want):
                raise Violation('wrong-size', f'{n} items reported, {len(sp.want)} stored')
            return Pass(f'p{j}:{cfg}', lambda: o, 'batch', cfg)
        w.probe('raw-multi' if multi else 'raw-db')
        db = w.must('opening', lambda: MultipartDb.load(path, keep_in_mem=keep) if multi else Db.load(path))
        return Pass(f'p{j}:raw', lambda: db.make_eq_len_ran_batches(
            max_toks, **({} if max_sents is None else dict(max_sents=max_sents))), 'raw', {})

    def judge(ps, failed, faulted):
        got = collections.Counter(r for b in ps.batches for r in b)
        for b in ps.batches:
            if not b:
                raise Violation('limits', f'{ps.name}: an empty batch')
            n = max(max(len(x), len(y)) for x, y in b)
            if len(b) * n > max_toks:
                raise Violation('limits', f'{ps.name}: {len(b)} records x longest {n} > {max_toks} tokens')
            if max_sents is not None and len(b) > max_sents:
                raise Violation('limits', f'{ps.name}: {len(b)} records > {max_sents}')
            if max_sents is not None and len(b) == max_sents:
                w.probe('sents-bound')
            if len(b) * n == max_toks:
                w.probe('toks-bound')
        extra = got - want
        if extra:
            raise Violation('extra', f'{ps.name}: records batched too often or never stored: {dict(extra)}')
        if len(set(ps.ids)) != len(ps.ids):
            raise Violation('extra', f'{ps.name}: identifiers batched twice: {ps.ids}')
        if failed:
            return
        if oversize:
            raise Violation('not-refused', f'{ps.name}: a record of length {longest} > {max_toks} tokens, but the '
                                           f'epoch ended normally after {sum(got.values())} records')
        miss = want - got
        if miss:
            raise Violation('missing', f'{ps.name}: usable records in no batch: {dict(miss)} '
                                       f'({"a read failed" if faulted else "no fault"})')
        if ps.kind == 'raw':
            for i in ps.ids:
                if i not in usable:
                    raise Violation('extra', f'{ps.name}: record {i} is not usable')
        if len(ps.batches) > 1:
            w.nontrivial = True

    for epoch in range(1 + p.below(3)):
        w.seed_random()
        k = 1 + p.below(3)
        passes = [make(j) for j in range(k)]
        if epoch:
            w.probe('second-epoch')
        if k > 1:
            w.probe('interleaved')
        fault = multi and p.chance(2, 5)
        if fault:
            f = w.fault_ch
            n_parts = -(-len(order) // sp.part_size)
            w.arm(errors={f.below(2 + 3 * n_parts * k): f.pick(READ_ERRNOS) for _ in range(1 + f.below(2))},
                  kinds=('open-r', 'read'))
        mended = None
        if not fault and multi and p.chance(1, 4):
            mended = dbutil.damage(w, path)
        live = list(passes)
        failed = set()
        while live:
            ps = live[w.ch.sched.below(len(live))]
            fired0 = w.fs.armed.fired if w.fs.armed else 0
            o = w.call(ps.step)
            fired = (w.fs.armed.fired if w.fs.armed else 0) - fired0
            if not o.ok:
                live.remove(ps)
                failed.add(ps)
                if fired or mended is not None:
                    w.probe('read-error')
                    w.nontrivial = True
                elif isinstance(o.exc, (TypeError, ValueError)) and not oversize and usable:
                    raise Violation('malformed', f'{ps.name}: {o!r}\n{o.tb}')
                elif oversize:
                    w.probe('oversize-refused')
                    w.nontrivial = True
                elif usable:
                    raise Violation('unexpected-error', f'{ps.name}: {o!r}\n{o.tb}')
            elif not o.value:
                live.remove(ps)
            else:
                w.note('batch', f'{passes.index(ps)} {ps.batches[-1]}')
        faulted = mended is not None or bool(w.fs.armed and w.fs.armed.fired)
        w.disarm()
        if mended is not None:
            mended()
        for ps in passes:
            judge(ps, ps in failed, faulted)
        w.sample['passes'].append(dict(n=k, failed=len(failed), batches=[len(ps.batches) for ps in passes]))
