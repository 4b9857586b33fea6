"""C04: stored records read back exactly on every read path."""
import random

from ..core import Violation
from .. import gen, other
from . import dbutil
from .faultutil import READ_ERRNOS

ID = 'C04'
RUNS = {'quick': 15000, 'thorough': 150000}
RULE = ('One evaluation stores one drawn dataset (lengths, values up to 64 bits, identifiers, fields, buffer and part '
        'sizes) and reads it through drawn paths: several iterations interleaved step by step in a drawn order with '
        'look-ups, shuffled or not, in memory or streamed, re-opened or pickled or read by another process, some of '
        'them while storage reads fail. Non-trivial: at least two records and, over the run, an interleaving of two '
        'readers, a failed read, a re-opening in another process or a buffer boundary inside a record.')
REAL = ['nlcodec.db.core (Db, SeqField and Builder, MultipartDb)', 'numpy, pickle', 'a second interpreter (other.py)']
STUB = ['errors and short results of storage reads', 'random (seeded)', 'clock']
ASSUMES = ['No field holds both negative values and values above 2**63 - 1 (no 64-bit type does; refused loudly).',
           'Identifiers are integers; datasets are not empty.',
           'Storage returns the bytes that were written, fewer at a time, or an error.']
MUST_HIT = ['many-records', 'records-beyond-16-bits', 'long-sequence', 'damaged-part', 'lost-part', 'cut-part', 'interleaved', 'shuffled', 'streamed', 'in-memory', 'single', 'multi', 'lookup', 'read-error',
            'error-then-clean', 'short-read', 'other-process', 'buffer-boundary', 'pickled', 'big-values',
            'mixed-dtypes', 'column-alone']


class Reader:
    def __init__(self, name, it, names):
        self.name, self.names = name, names
        self.it = iter(it)
        self.rows = []
        self.done = False

    def step(self):
        try:
            r = next(self.it)
        except StopIteration:
            self.done = True
            return
        self.rows.append((gen.key(r.id), [gen.plain(getattr(r, n)) for n in self.names]))


def check_lookup(w, db, sp, i):
    r = w.observe('look-up', lambda: db[i])
    row = w.observe('look-up', lambda: (gen.key(r.id), [gen.plain(getattr(r, n)) for n in sp.names]))
    if row != (i, sp.want[i]):
        raise Violation('wrong-record', f'look-up of {i} gives {row!r}, stored {sp.want[i]!r}')
    w.probe('lookup')


def check_fields(w, db, sp):
    """the column view of a Db"""
    def view():
        out = {}
        for j, n in enumerate(sp.names):
            f = db.fields[n]
            out[n] = (len(f), {gen.key(i): gen.plain(f[i]) for i in f.keys()},
                      {gen.key(i): int(k) for i, k in f.lengths()}, {i: int(f.get_len(i)) for i in sp.want},
                      sorted(gen.plain(v) for v in f.values()), sorted(gen.plain(v) for v in f.items()))
        return out
    v = w.observe('columns', view)
    for j, n in enumerate(sp.names):
        col = {i: row[j] for i, row in sp.want.items()}
        lens = {i: len(s) for i, s in col.items()}
        vals = sorted(col.values())
        if v[n] != (len(col), col, lens, lens, vals, vals):
            raise Violation('wrong-column', f'column {n} reads {v[n]!r}, stored {col!r}')


def check_alone(w, sp):
    """a column by itself"""
    from nlcodec.db.core import SeqField
    w.probe('column-alone')
    for j, n in enumerate(sp.names):
        col = {i: row[j] for i, row in sp.want.items()}
        f = w.must('creating a column', SeqField.create, n, iter([(i, fs[j]) for i, fs in gen.as_input(w.plan, sp.recs)]))
        got = w.observe('column', lambda: {i: gen.plain(f[i]) for i in col})
        ks = w.observe('column', lambda: [gen.key(i) for i in f.keys()])
        if got != col or sorted(ks) != sorted(col) or len(f) != len(col):
            raise Violation('wrong-column', f'a column by itself reads {got!r}, stored {col!r}')


def scenario(w):
    from nlcodec.db.core import Db, MultipartDb, SeqField
    import pickle
    p = w.plan
    if hasattr(SeqField, 'Builder') and hasattr(SeqField.Builder, 'BUFFER_SIZE'):
        size = p.weighted([(2, SeqField.Builder.BUFFER_SIZE), (3, 1 + p.below(12)), (1, 1)])
        real_size = SeqField.Builder.BUFFER_SIZE
        SeqField.Builder.BUFFER_SIZE = size
        w.closing.append(lambda: setattr(SeqField.Builder, 'BUFFER_SIZE', real_size))
    else:
        size = None
    w.fs.bufsize = p.weighted([(2, None), (1, 64), (1, 512)])
    multi = p.chance(1, 2)
    hi = p.weighted([(6, 9), (1, 40)])
    ranges = None
    if p.chance(1, 5):
        # values that do not fit an array of the type of the earlier ones
        r = p.pick([(0, 2 ** 64 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 40), (-200, 70000)])
        ranges = [r, p.pick(gen.RANGES)]
        w.probe('mixed-dtypes')
    sp = dbutil.spec(w, hi=hi, max_len=p.weighted([(5, 5), (1, 300)]), ranges=ranges,
                     n_fields=2 if ranges else None)
    if p.chance(1, 150):
        # positions and lengths beyond 16 bits
        w.probe('long-sequence')
        i, row = p.pick(sp.recs)
        j = p.below(len(row))
        row[j] = ((row[j] or [1]) * 65540)[:p.pick([65535, 65536, 65540])]
        sp.feed = gen.as_input(p, sp.recs)
        sp.want = gen.as_dict(sp.recs)
    if p.chance(1, 1500):
        w.probe('records-beyond-16-bits')
        n = 65536 + p.below(700)
        sp.recs = gen.many_records(p, n, len(sp.names), 2, ranges, True, None if sp.has_id else 0)
        sp.feed, sp.want = gen.as_input(p, sp.recs, numpy=False), gen.as_dict(sp.recs)
        sp.part_size, sp.max_parts = p.pick([n, n // 2 + 1]), 1000
        multi = p.chance(3, 4)
    tot = sum(len(s) for _, row in sp.recs for s in row)
    if size and tot > size:
        w.probe('buffer-boundary')
        w.nontrivial = True
    if any(v > 2 ** 53 for _, row in sp.recs for s in row for v in s):
        w.probe('big-values')
    w.sample = dict(multi=multi, records=len(sp.recs), fields=len(sp.names), part_size=sp.part_size, buffer=size,
                    readers=[])
    if p.chance(1, 6):
        check_alone(w, sp)
    path = w.path('db')
    shuffle = p.chance(1, 2)
    keep = p.chance(1, 2)

    def opened():
        if multi:
            return MultipartDb.load(path, keep_in_mem=keep, shuffle=shuffle)
        return Db.load(path, shuffle=shuffle)
    if multi:
        w.probe('multi')
        first = w.must('creating', sp.create, path, overwrite=False)
        first = first if first is not None else w.must('opening', opened)
    else:
        w.probe('single')
        feed = sp.feed if sp.has_id else [row for _, row in sp.feed]

        def make():
            kind = p.below(3)
            if kind == 0:
                return Db.create(feed, sp.names, has_id=sp.has_id, path=path)
            db = Db.create(iter(feed), sp.names, has_id=sp.has_id)
            if kind == 1:
                db.save(path)
                return db
            db = Db(fields=list(db.fields.values()), shuffle=shuffle)
            db.save(str(path))
            return db
        first = w.must('creating', make)
    for db in [first] if p.chance(1, 2) else []:
        if len(db) != len(sp.want):
            raise Violation('wrong-size', f'the created database reports {len(db)} of {len(sp.want)} records')
    db = w.must('opening', opened)
    if p.chance(1, 4):
        db = w.must('pickling', lambda: pickle.loads(pickle.dumps(db))) if not multi else db
        w.probe('pickled')
    w.probe('shuffled' if shuffle else 'plain')
    if multi:
        w.probe('in-memory' if keep or len(sp.recs) <= sp.part_size else 'streamed')
    n = w.observe('size', lambda: len(db))
    if n != len(sp.want):
        raise Violation('wrong-size', f'{n} records reported, {len(sp.want)} stored')
    if not multi:
        w.observe('columns', lambda: check_fields(w, db, sp))

    # passes, interleaved
    rounds = 1 + p.below(3)
    for rnd in range(rounds):
        fault = p.chance(1, 4) and multi
        k = 1 + p.below(3)
        dbs = [db if p.chance(2, 3) else w.must('opening', opened) for _ in range(k)]
        readers = [w.must('starting a pass', Reader, f'r{j}', d, sp.names) for j, d in enumerate(dbs)]
        if k > 1:
            w.probe('interleaved')
            w.nontrivial |= len(sp.want) > 1
        if fault:
            n_parts = -(-len(sp.recs) // sp.part_size)
            f = w.fault_ch
            w.arm(errors={f.below(8 * n_parts * k): f.pick(READ_ERRNOS)},
                  read_short=f.below(3), kinds=('open-r', 'read'))
        elif p.chance(1, 4):
            w.arm(read_short=1 + w.fault_ch.below(3))
        mended = None
        if not fault and multi and p.chance(1, 5):
            mended = dbutil.damage(w, path)
        failed = []
        live = list(readers)
        abandon = p.chance(1, 6)
        while live:
            r = live[w.ch.sched.below(len(live))] if len(live) > 1 else live[0]
            burst = 1 + (w.ch.sched.below(4) if len(live) > 1 else 0)
            for _ in range(burst):
                before = w.fs.armed.fired if w.fs.armed else 0
                o = w.call(r.step)
                if not o.ok:
                    fired = w.fs.armed.fired if w.fs.armed else 0
                    if fired == before and mended is None:
                        raise Violation('unexpected-error', f'reading failed without a fault: {o!r}\n{o.tb}')
                    failed.append(r)
                    live.remove(r)
                    w.probe('read-error')
                    w.nontrivial = True
                    break
                if r.done:
                    live.remove(r)
                    break
            if p.chance(1, 8) and not multi:
                check_lookup(w, db, sp, p.pick(list(sp.want)))
            if abandon and live and p.chance(1, 6):
                w.call(lambda: live[0].it.close() if hasattr(live[0].it, 'close') else None)
                readers.remove(live[0])
                live.pop(0)
        a = w.disarm()
        if mended is not None:
            mended()
            w.probe('damaged-part')
        for r in readers:
            if r in failed:
                sub = [x for x in r.rows if sp.want.get(x[0]) != x[1]]
                if sub or len({x[0] for x in r.rows}) != len(r.rows):
                    raise Violation('wrong-data', f'a pass that failed had delivered {r.rows!r} of {sp.want!r}')
                continue
            d = gen.diff_rows(r.rows, sp.want)
            if d:
                raise Violation('wrong-data', f'pass {rnd} of {r.name} ({k} readers, shuffle={shuffle}): {d}')
        w.sample['readers'].append(dict(n=k, failed=len(failed)))
        if failed:
            rows = w.must('reading after a failed read', lambda: gen.read_rows(db, sp.names))
            d = gen.diff_rows(rows, sp.want)
            if d:
                raise Violation('wrong-data', f'after a failed read: {d}')
            w.probe('error-then-clean')
    if not multi:
        for i in sp.want:
            check_lookup(w, db, sp, i)
    if w.ch.plan.chance(1, 20):
        w.probe('other-process')
        w.nontrivial = True
        r = other.ask(1 + p.below(2), 'read_db', path=str(path), names=sp.names, multi=multi)
        if 'error' in r:
            raise Violation('unexpected-error', f'another process cannot read it: {r["error"]}')
        d = gen.diff_rows([(tuple(i) if isinstance(i, list) else i, fs) for i, fs in r['ok'][1]], sp.want)
        if d or r['ok'][0] != len(sp.want):
            raise Violation('wrong-data', f'in another process: {d}, size {r["ok"][0]}')
    rows = w.must('the last pass', lambda: gen.read_rows(opened(), sp.names))
    d = gen.diff_rows(rows, sp.want)
    if d:
        raise Violation('wrong-data', f'the last pass: {d}')
