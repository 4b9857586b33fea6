"""C02: storage errors while a database is created surface and lose nothing else."""
from ..core import Violation
from .. import gen, mappers
from .. import fs as simfs
from . import dbutil
from .faultutil import arm_faults

ID = 'C02'
RUNS = {'quick': 12000, 'thorough': 120000}
RULE = ('One evaluation is one simulated creation on a directory in a drawn state (absent, empty, older database, '
        'foreign files, leftovers of an earlier failed creation), with or without permission to overwrite, while '
        'drawn storage operations fail (no space after a drawn number of bytes, an error at one operation or at all '
        'from one on, short writes, an input stream that fails or is interrupted), what it left being opened and read, and a creation '
        'after the faults. Non-trivial: a fault fired, or overwriting was refused.')
REAL = ['nlcodec.db.core (MultipartDb.create, Writer, load, Db, SeqField)', 'nlcodec.utils.replacing',
        'Python buffered I/O, pickle, json, shutil.rmtree, pathlib']
STUB = ['errors and partial effects of storage operations', 'clock', 'os.urandom']
ASSUMES = ['A failed open, mkdir, rename or unlink has no effect; a failed write may have written a prefix, and a failed '
           'sync may lose what was not synced before.',
           'Storage does not alter data it has accepted without error.']
MUST_HIT = ['many-records', 'ENOSPC-quota', 'EIO', 'ENOSPC', 'EACCES', 'short-write', 'input-error', 'input-interrupt', 'input-error-seen', 'refused-overwrite',
            'error-reported', 'done-despite', 'sticky', 'left-old', 'over-old', 'single-file', 'leftover-start', 'lost-pages']


def single_file(w):
    """a database in one file"""
    from nlcodec.db.core import Db
    p = w.plan
    w.probe('single-file')
    path = w.path('one.db')
    old = None
    sib = w.path('other')
    gen.raw_write(sib, b'something else')
    if p.chance(1, 2):
        old = dbutil.spec(w, n_fields=2)
        w.must('saving', lambda: Db.create(old.feed, old.names, has_id=True, path=path))
    new = dbutil.spec(w, n_fields=2)
    by = p.below(2)

    def create(to):
        if by:
            Db.create(new.feed, new.names, has_id=True).save(to)
        else:
            Db.create(new.feed, new.names, has_id=True, path=to)
    dry = w.path('dry')
    a = w.arm()
    w.must('saving', create, dry)
    w.disarm()
    size = len(gen.raw_read(dry))
    gen.raw_remove(dry)
    a = arm_faults(w, a.n, size)
    o = w.crashable(create, path)
    a = w.disarm()
    w.nontrivial = bool(a.fired)
    w.probe('error-reported' if not o.ok else 'done-despite' if a.fired else 'unfired')
    w.sample = dict(single=True, fired=a.fired, ok=o.ok)
    if not o.ok and not a.fired:
        raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
    ld = w.call(Db.load, path)
    if ld.ok:
        cands = [new] if o.ok else [new] + ([old] if old else [])
        rows = w.observe('reading', lambda: gen.read_rows(ld.value, new.names))
        if all(gen.diff_rows(rows, c.want) is not None for c in cands):
            raise Violation('wrong-data', f'after {o!r} the file opens with {rows!r}')
    elif o.ok:
        raise Violation('incomplete', f'saving returned, but the file does not open: {ld!r}')
    elif old is not None:
        raise Violation('lost', f'saving failed and the older database is gone: {ld!r}')
    if gen.raw_read(sib) != b'something else':
        raise Violation('collateral', 'another file changed')
    w.must('saving again', create, path)
    rows = w.must('reading', lambda: gen.read_rows(Db.load(path), new.names))
    d = gen.diff_rows(rows, new.want)
    if d:
        raise Violation('wrong-data', d)


def scenario(w):
    p = w.plan
    w.fs.bufsize = p.weighted([(3, None), (1, 64), (1, 512)])
    if p.chance(1, 8):
        return single_file(w)
    start = p.weighted([(3, 'none'), (1, 'empty'), (5, 'old'), (1, 'foreign'), (2, 'leftover')])
    path = w.path('db') if not p.chance(1, 6) else w.path('sub', 'dir', 'db')
    sib = w.path('neighbour')
    nb = dbutil.spec(w)
    w.must('creating', nb.create, sib, overwrite=False)
    sib_tree = gen.raw_tree(sib)
    old = None
    if start == 'empty':
        path.mkdir(parents=True)
    elif start == 'old':
        old = dbutil.spec(w)
        w.must('creating the older database', old.create, path, overwrite=p.chance(1, 2))
    elif start == 'foreign':
        path.mkdir(parents=True)
        gen.raw_write(path / 'notes.txt', b'keep me')
        if p.chance(1, 2):
            (path / 'part-00x').mkdir()
    elif start == 'leftover':
        w.probe('leftover-start')
        o = dbutil.spec(w)
        dry = w.path('dry')
        a = w.arm()
        w.must('creating', o.create, dry, overwrite=True)
        w.disarm()
        gen.raw_remove(dry)
        w.arm(crash_at=w.fault_ch.below(a.n), when='after')
        done = w.crashable(o.create, path, overwrite=True)
        w.disarm()
        w.fs.revive()
        f = dbutil.open_and_match(w, path, [o], 'after the stop')
        old = f
    nonempty = path.exists() and bool(gen.raw_tree(path).keys() - {'.'})
    overwrite = p.chance(3, 4)
    new = dbutil.spec(w)
    w.sample = dict(start=start, overwrite=overwrite, records=len(new.recs), parts=new.part_size)
    if nonempty and not overwrite:
        before = gen.raw_tree(path)
        if p.chance(1, 2):
            arm_faults(w, 12, 200)
        o = w.crashable(new.create, path, overwrite=False)
        w.disarm()
        if o.ok:
            raise Violation('overwritten', 'creating without permission to overwrite returned normally')
        after = gen.raw_tree(path)
        if after != before:
            ch = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
            raise Violation('overwritten', f'without permission to overwrite these changed: {ch}')
        w.probe('refused-overwrite')
        w.nontrivial = True
    else:
        dry = w.path('dry')
        if path.exists():
            gen.raw_copy(path, dry)
        a = w.arm()
        w.must('creating', new.create, dry, overwrite=overwrite)
        w.disarm()
        size = sum(len(v) for v in gen.raw_tree(dry).values() if v)
        gen.raw_remove(dry)
        fail_at = error = None
        if p.chance(1, 6):
            fail_at = p.below(len(new.recs) + 1)
            kind = p.pick(mappers.KINDS + ['interrupt'])
            error = simfs.SimInterrupt('input') if kind == 'interrupt' else mappers.error(kind, 'the input failed')
        if fail_at is None or p.chance(1, 3):
            arm_faults(w, a.n, size)
        else:
            w.arm()
        if fail_at is not None:
            w.fault('input-interrupt' if kind == 'interrupt' else 'input-error', f'{fail_at} {kind}')
        o = w.crashable(new.create, path, overwrite=overwrite, fail_at=fail_at, error=error)
        a = w.disarm()
        w.nontrivial = bool(a.fired) or fail_at is not None
        w.sample.update(fired=a.fired, ok=o.ok)
        if not o.ok and not a.fired and fail_at is None:
            raise Violation('unexpected-error', f'creating failed without any fault: {o!r}\n{o.tb}')
        if fail_at is not None and o.exc is error:
            w.probe('input-error-seen')
        if o.ok and fail_at is not None:
            raise Violation('swallowed', 'the input stream failed, but the creation reports success')
        if o.ok:
            cands = [new]
            w.probe('done-despite' if a.fired else 'unfired')
        else:
            w.probe('error-reported')
            cands = ([] if fail_at is not None else [new]) + ([old] if old else [])
        if old is not None:
            w.probe('over-old')
        found = dbutil.open_and_match(w, path, cands, 'after the failure' if not o.ok else 'after success')
        if o.ok and found is None:
            raise Violation('incomplete', f'the creation reports success, but the database is refused '
                                          f'({a.fired} faults)')
        if found is old and old is not None:
            w.probe('left-old')
        if o.ok and o.value is not None:
            n = w.observe('returned', lambda: len(o.value))
            if n != len(new.want):
                raise Violation('wrong-length', f'{n} records reported of {len(new.want)}')
    if gen.raw_tree(sib) != sib_tree:
        raise Violation('collateral', 'another database changed')
    new = dbutil.spec(w) if p.chance(1, 2) else new
    w.must('creating again, overwriting', new.create, path, overwrite=True)
    if dbutil.open_and_match(w, path, [new], 'after the last creation') is None:
        raise Violation('refused', 'a database created without faults is refused')
    if gen.raw_tree(sib) != sib_tree:
        raise Violation('collateral', 'another database changed')
