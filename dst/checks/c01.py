"""C01: creating or overwriting a multipart database is all-or-nothing across crashes and power failures."""
from ..core import Violation
from .. import gen
from . import dbutil
from .faultutil import ERRNOS

ID = 'C01'
RUNS = {'quick': 12000, 'thorough': 120000}
RULE = ('One evaluation is one simulated history: a directory (absent, empty, a complete older database, or what an '
        'interrupted creation left), 1 to 3 creations of which the earlier ones are stopped at a drawn storage '
        'operation (process stop, machine stop with loss of unsynced data, or interrupt; some after a storage error), '
        'the path opened and read after each, and a last creation without faults. Non-trivial: at least one stop or '
        'error fell between the first and the last storage operation of a creation.')
REAL = ['nlcodec.db.core (MultipartDb.create, Writer, load, Db, SeqField)', 'nlcodec.utils.replacing', 'pickle, json',
        'shutil.rmtree, pathlib', 'Linux tmpfs below the interposed operations']
STUB = ['durability of file data (simulated page cache)', 'clock', 'os.urandom']
ASSUMES = ['Metadata operations (create, rename, unlink, mkdir) are durable in the order they were made; only file '
           'data not synced may be lost, per file: none, all, a prefix, or the size with a zero tail.',
           'A stop takes effect at a storage operation; between two of them nothing observable changes.']
MUST_HIT = ['many-records', 'crash-before', 'crash-inside', 'crash-after', 'power-before', 'power-inside', 'power-after', 'lost-write',
            'interrupt', 'opened-old', 'opened-new', 'refused', 'over-old', 'over-leftover', 'double-crash',
            'error-before', 'stop-later']


def scenario(w):
    p = w.plan
    n_stops = p.weighted([(5, 1), (2, 2), (1, 3)])
    start = p.weighted([(4, 'none'), (1, 'empty'), (6, 'old')])
    w.fs.bufsize = p.weighted([(3, None), (1, 64), (1, 512)])
    specs = []
    complete = {}                # name -> spec of datasets that may legitimately be found
    path = w.path('db')
    if start == 'old':
        spec = dbutil.spec(w, lo=1)
        w.must('creating the older database', spec.create, path, overwrite=False)
        specs.append(spec)
        complete = [spec]
    else:
        complete = []
        if start == 'empty':
            path.mkdir()
    w.fs.synced.clear()          # whatever was there before is on disk
    w.sample = dict(start=start, stops=[])
    new = None
    stopped = 0
    for k in range(n_stops):
        if new is None or p.chance(1, 2):
            new = dbutil.spec(w, lo=1)
        # the same creation on a copy, without faults, to know its operations
        dry = w.path('dry')
        if path.exists():
            gen.raw_copy(path, dry)
        a = w.arm()
        w.must('creating', new.create, dry, overwrite=True)
        w.disarm()
        n_ops = a.n
        gen.raw_remove(dry)
        w.fs.synced.clear() if w.plan.chance(1, 2) else None
        at = w.fault_ch.below(n_ops)
        mode = w.fault_ch.below(3)       # process, machine, interrupt
        when = w.fault_ch.pick(['before', 'inside', 'after'])
        errors = {}
        if w.fault_ch.chance(1, 5):     # an operation fails before; whether it is reported or not
            w.probe('error-before')
            errors = {w.fault_ch.below(at + 1): w.fault_ch.pick(ERRNOS)}
            at += w.fault_ch.below(20)
        if mode == 2:
            w.arm(interrupt_at=at, errors=errors)
        else:
            w.arm(crash_at=at, power=mode == 1, when=when, errors=errors)
        o = w.crashable(new.create, path, overwrite=True)
        a = w.disarm()
        w.fs.revive()
        if not a.fired:
            w.note('unreached', f'{at} of {n_ops}')
        if o.ok and w.fault_ch.chance(1, 2):    # the machine stops later
            w.probe('stop-later')
            w.fs.power_loss()
        stopped += bool(a.fired)
        if a.fired and 0 < at < n_ops - 1:
            w.nontrivial = True
        w.sample['stops'].append(dict(op=at, of=n_ops, mode=['process', 'machine', 'interrupt'][mode], when=when))
        if o.ok and not a.fired:
            complete = [new]
        elif o.ok:
            complete = [new]     # it was reported complete before the stop
        else:
            complete = complete + [new]
        found = dbutil.open_and_match(w, path, complete, 'after the stop')
        if o.ok and found is not new:
            raise Violation('lost', 'the creation had returned, but the path does not hold its dataset')
        if found is None:
            w.probe('refused')
            complete = []
        else:
            w.probe('opened-new' if found is new else 'opened-old')
            complete = [found]
        if start == 'old' and k == 0:
            w.probe('over-old')
        if k > 0:
            w.probe('over-leftover')
            if stopped > 1:
                w.probe('double-crash')
    if p.chance(1, 2):
        new = dbutil.spec(w, lo=1)
    w.must('creating again, overwriting', new.create, path, overwrite=True)
    found = dbutil.open_and_match(w, path, [new], 'after the last creation')
    if found is None:
        raise Violation('refused', 'a database created without faults is refused')
