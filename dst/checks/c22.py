"""C22: reading order is the stored order, or random on every pass when that is asked for."""
import itertools

from ..core import Violation
from .. import gen, other

ID = 'C22'
RUNS = {'quick': 4000, 'thorough': 40000}
RULE = ('One evaluation stores a drawn dataset (parts written in a drawn order, drawn identifiers, directories listed in '
        'a drawn order) and reads passes through drawn interfaces under random sources the simulator seeds: without '
        'shuffling, passes under differing random states and interleaved with each other must follow the stored order; '
        'with shuffling, a hundred or more passes of a small dataset must show every order of the parts and of the '
        'records of a part, and passes from the same random state must agree, also in another process; with grouping '
        'by length, batches of a part must not overlap in length, every batch and part must come first in some pass, '
        'in larger datasets all that is shuffled must come early and late, before and after its neighbour in some pass '
        'and every two records of equal length must be found together and apart. Non-trivial: at least two records.')
REAL = ['nlcodec.db.core (Db, MultipartDb, Writer)', 'nlcodec.db.batch (BatchIterable)', 'random, numpy.random',
        'a second interpreter (other.py)']
STUB = ['the states of the random sources', 'the order in which directories are listed', 'clock']
ASSUMES = ['The random sources of Python and numpy are fair: an order that has not come up in so many passes that its '
           'probability is below 1e-9 is taken to be impossible.',
           'The stored order of a multipart database is that of its part numbers and, in a part, of its records.']
MUST_HIT = ['stored', 'coverage', 'groups', 'spread', 'many-parts', 'many-records', 'many-batches', 'db', 'multi', 'batch', 'in-memory', 'streamed', 'other-process',
            'interleaved', 'arbitrary-ids', 'parts-out-of-order', 'more-parts-than-digits', 'single-part', 'created',
            'unusable-skipped']


class Data:
    def __init__(self, w, parts, multi):
        """parts: [[(length of x, length of y)]]"""
        from nlcodec.db.core import Db, MultipartDb
        p = w.plan
        n = sum(map(len, parts))
        self.w, self.multi = w, multi
        self.ids = list(range(n))
        has_id = p.chance(1, 2)
        if has_id:
            w.probe('arbitrary-ids')
            kind = p.below(3)
            if kind == 0:
                self.ids = self.ids[::-1]
            elif kind == 1:
                self.ids = [1 + (i * 7919 + 13 * p.below(90)) % 100003 for i in self.ids]
                self.ids = [i if self.ids.index(i) == k else 200000 + k for k, i in enumerate(self.ids)]
            else:
                self.ids = [2 ** 40 - 8 * i for i in self.ids]
        self.token = {}
        k, self.parts = 0, []
        self.lens = {}
        for part in parts:
            recs = []
            for lx, ly in part:
                i = self.ids[k]
                self.token[10 + k] = i
                self.lens[i] = (lx, ly)
                recs.append((i, ([10 + k] + [4] * (lx - 1) if lx else [], [10 + k] + [5] * (ly - 1) if ly else [])))
                k += 1
            self.parts.append(recs)
        self.order = [i for part in self.parts for i, _ in part]
        self.usable = [i for i in self.order if min(self.lens[i])]
        self.path = w.path('db')
        flat = [r for part in self.parts for r in part]
        if not multi:
            self.db = w.must('creating', lambda: Db.create(
                flat if has_id else [r[1] for r in flat], ['x', 'y'], has_id=has_id, path=self.path))
            return
        max_parts = p.pick([1000, 10, max(2, len(parts) // 3)])
        if len({len(x) for x in parts[:-1]}) <= 1 and len(parts[-1]) <= len(parts[0]) and p.chance(1, 2):
            self.db = w.must('creating', lambda: MultipartDb.create(
                self.path, flat if has_id else [r[1] for r in flat], field_names=['x', 'y'], has_id=has_id,
                part_size=len(parts[0]), max_parts=max_parts))
            if len(parts) > 10 >= max_parts:
                w.probe('more-parts-than-digits')
            return
        nums = list(range(len(parts)))
        if p.chance(1, 2):
            nums = [3 * k + p.below(3) for k in nums]
        if nums[-1] > 9 and max_parts <= 10:
            w.probe('more-parts-than-digits')
        jobs = list(zip(nums, self.parts))
        if len(jobs) > 1:
            w.probe('parts-out-of-order')
            order = list(jobs)
            jobs = []
            while order:
                jobs.append(order.pop(p.below(len(order))))

        def write():
            with MultipartDb.Writer(self.path, field_names=['x', 'y'], max_parts=max_parts) as wr:
                for num, recs in jobs:
                    wr(num, recs)
            return MultipartDb.load(self.path)
        self.db = w.must('creating', write)

    def source(self, shuffle, how):
        """opens the data; returns a function that starts a pass (an iterator over identifiers)"""
        from nlcodec.db.batch import BatchIterable, BatchMeta
        from nlcodec.db.core import Db, MultipartDb
        w, p = self.w, self.w.plan
        keep = p.chance(1, 2)
        if self.multi:
            w.probe('in-memory' if keep else 'streamed')
        w.probe(how)
        if how == 'batch':
            toks = sum(map(max, self.lens.values())) * 3 + 10
            size = p.pick([toks, (toks, 1 + p.below(5))])
            bi = w.must('opening', lambda: BatchIterable(
                self.path if p.chance(1, 2) else str(self.path), size, BatchMeta(pad_idx=0, bos_idx=2, eos_idx=3),
                sort_by='random' if shuffle else None, keep_in_mem=keep))

            def ids():
                for b in bi:
                    for row in b.x_seqs:
                        yield self.token[int(row[0])]
            return ids
        if how == 'created' and not shuffle:
            db = self.db
        elif self.multi:
            db = w.must('opening', lambda: MultipartDb.load(self.path, keep_in_mem=keep, shuffle=shuffle))
        else:
            db = w.must('opening', lambda: Db.load(self.path, shuffle=shuffle))
        return lambda: (gen.key(r.id) for r in db)

    def hows(self):
        return ['batch', 'multi' if self.multi else 'db']


def scenario(w):
    p = w.plan
    kind = p.weighted([(40, 'stored'), (20, 'coverage'), (20, 'groups'), (3, 'spread')])
    w.probe(kind)
    dict(stored=stored, coverage=coverage, groups=groups, spread=spread)[kind](w)


def stored(w):
    p = w.plan
    multi = p.chance(2, 3)
    n_parts = p.weighted([(4, 1 + p.below(5)), (1, 11 + p.below(4))]) if multi else 1

    def length():
        return p.below(5) if p.chance(1, 4) else 1 + p.below(5)
    parts = [[(length(), length()) for _ in range(1 + p.below(4))] for _ in range(n_parts)]
    if multi and p.chance(1, 3):
        parts = [[(1, 1)] * len(parts[0]) for _ in parts]
    if not multi:
        parts[0] = parts[0] * (1 + p.below(5))
    d = Data(w, parts, multi)
    w.sample = dict(kind='stored', multi=multi, parts=[len(x) for x in parts], passes=[])
    w.nontrivial = len(d.order) > 1
    if len(d.usable) < len(d.order):
        w.probe('unusable-skipped')
    for _ in range(1 + p.below(3)):
        k = 1 + p.below(3)
        if k > 1:
            w.probe('interleaved')
        live = []
        for _ in range(k):
            how = p.pick(d.hows() + ['created'])
            src = d.source(False, how)
            if p.chance(1, 2):
                w.seed_random()
            live.append((how, w.must('a pass', lambda: iter(src())), []))
            w.sample['passes'].append(how)
        passes = list(live)
        while live:
            how, it, got = x = live[w.ch.sched.below(len(live))] if len(live) > 1 else live[0]
            i = w.must('reading', next, it, None)
            if i is None:
                live.remove(x)
            else:
                got.append(i)
        for how, _, got in passes:
            want = d.usable if how == 'batch' else d.order
            if got != want:
                raise Violation('wrong-order', f'{how} without shuffling reads {got[:40]}, stored in the order '
                                               f'{want[:40]} in parts of {[len(x) for x in d.parts]}')
    if p.chance(1, 12):
        w.probe('other-process')
        r = other.ask(1 + p.below(2), 'order', path=str(d.path), multi=multi, shuffle=False, seed=1)
        if r.get('ok') != d.order:
            raise Violation('wrong-order', f'another process reads {r!r}, stored in the order {d.order}')


def orders(n):
    return set(itertools.permutations(range(n)))


def coverage(w):
    p = w.plan
    multi = p.chance(2, 3)
    if multi:
        sizes = p.pick([[2, 2], [3, 2], [1, 1, 1], [2, 3, 1], [3], [3, 3, 3], [1, 1], [4, 1], [2, 1, 1, 1]])
    else:
        sizes = [p.pick([2, 3, 3, 4])]
    if len(sizes) == 1:
        w.probe('single-part')
    d = Data(w, [[(1 + p.below(3), 1 + p.below(3)) for _ in range(n)] for n in sizes], multi)
    worst = max(sizes + [len(sizes)])
    n_passes = {1: 40, 2: 40, 3: 160, 4: 620}[worst]
    how = p.pick(d.hows())
    w.sample = dict(kind='coverage', multi=multi, parts=sizes, how=how, passes=n_passes)
    w.nontrivial = True
    src = d.source(True, how)
    part_of = {i: k for k, part in enumerate(d.parts) for i, _ in part}
    pos_in = {i: j for part in d.parts for j, (i, _) in enumerate(part)}
    of_parts, within = set(), [set() for _ in sizes]
    seed = w.seed_random()
    first = []
    for k in range(n_passes):
        got = w.must('a pass', lambda: list(src()))
        if sorted(got) != sorted(d.order):
            raise Violation('wrong-data', f'a shuffled pass reads {got}, stored {d.order}')
        if k < 3:
            first.append(got)
        seen = []
        for i in got:
            if part_of[i] not in seen:
                seen.append(part_of[i])
        of_parts.add(tuple(seen))
        for j, s in enumerate(within):
            s.add(tuple(pos_in[i] for i in got if part_of[i] == j))
    w.note('orders', f'{len(of_parts)} {[len(s) for s in within]}')
    if of_parts != orders(len(sizes)):
        raise Violation('not-random', f'{how}: in {n_passes} shuffled passes the parts came only in the orders '
                                      f'{sorted(of_parts)}')
    for j, (n, s) in enumerate(zip(sizes, within)):
        if s != orders(n):
            raise Violation('not-random', f'{how}: in {n_passes} shuffled passes the {n} records of part {j} came only '
                                          f'in the orders {sorted(s)}')
    w.seed_random(seed)
    again = [w.must('a pass', lambda: list(src())) for _ in first]
    if again != first:
        raise Violation('not-repeatable', f'{how}: from the same random state, passes are {first} and then {again}')
    if how != 'batch' and p.chance(1, 3):
        w.probe('other-process')
        s = p.below(1000)
        a, b = [other.ask(k, 'order', path=str(d.path), multi=multi, shuffle=True, seed=s) for k in (1, 2)]
        if a != b or sorted(a.get('ok', ())) != sorted(d.order):
            raise Violation('not-repeatable', f'from the same random state two processes read {a} and {b}')


def spread(w):
    """larger datasets: whatever is shuffled comes early in some passes and late in others, and every two neighbours
    come in both orders"""
    from nlcodec.db.batch import BatchIterable, BatchMeta
    p = w.plan
    what = p.pick(['many-parts', 'many-records', 'many-batches'])
    w.probe(what)
    multi = what == 'many-parts' or p.chance(1, 2)
    n = 33 + p.below(70)
    n_passes = 60
    if what == 'many-parts':
        sizes = [1 + p.below(2) for _ in range(n)]
        parts = [[(1, 1)] * k for k in sizes]
    elif what == 'many-records':
        parts = [[(1 + p.below(3), 1 + p.below(3)) for _ in range(n)]]
    else:
        parts = [[(k, k) for k in range(1, n + 1)]]
    d = Data(w, parts, multi)
    w.nontrivial = True
    group = {i: k if what == 'many-parts' else i for k, part in enumerate(d.parts) for i, _ in part}
    if what == 'many-batches':
        keep = p.chance(1, 2)
        bi = w.must('opening', lambda: BatchIterable(
            d.path, (n + 2, 1), BatchMeta(pad_idx=0, bos_idx=2, eos_idx=3), sort_by='eq_len_rand_batch',
            keep_in_mem=keep))

        def src():
            return [d.token[int(row[0])] for b in bi for row in b.x_seqs]
        how = 'batch'
    else:
        how = p.pick(d.hows())
        src = d.source(True, how)
    w.sample = dict(kind=what, multi=multi, parts=len(d.parts), records=len(d.order), how=how)
    keys = list(dict.fromkeys(group[i] for i in d.order))
    early, late, before, after = set(), set(), set(), set()
    w.seed_random()
    for _ in range(n_passes):
        got = w.must('a pass', lambda: list(src()))
        if sorted(got) != sorted(d.order):
            raise Violation('wrong-data', f'a shuffled pass reads {got}, stored {d.order}')
        seen = list(dict.fromkeys(group[i] for i in got))
        pos = {k: j for j, k in enumerate(seen)}
        early |= {k for k in keys if pos[k] < len(keys) // 2}
        late |= {k for k in keys if pos[k] >= (len(keys) + 1) // 2}
        for a, b in zip(keys, keys[1:]):
            (before if pos[a] < pos[b] else after).add((a, b))
    unit = dict(zip(('many-parts', 'many-records', 'many-batches'), ('parts', 'records', 'batches')))[what]
    for name, s in (('in the first half', early), ('in the second half', late)):
        if len(s) < len(keys):
            raise Violation('not-random', f'{how}: in {n_passes} shuffled passes the {unit} {sorted(set(keys) - s)[:9]} of '
                                          f'{len(keys)} were never {name}')
    for name, s in (('before', before), ('after', after)):
        miss = [x for x in zip(keys, keys[1:]) if x not in s]
        if miss:
            raise Violation('not-random', f'{how}: in {n_passes} shuffled passes {miss[0][0]} was never {name} '
                                          f'{miss[0][1]}, and so for {len(miss)} of {len(keys) - 1} neighbouring {unit}')


def groups(w):
    """batches of records of similar length"""
    from nlcodec.db.batch import BatchIterable, BatchMeta
    from nlcodec.db.core import Db, MultipartDb
    p = w.plan
    multi = p.chance(2, 3)
    n_parts = 1 + p.below(3) if multi else 1
    n_lens = 1 + p.below(3)
    parts, lens = [], []
    for _ in range(n_parts):
        # equal numbers of records of each length fill whole batches, so groups stay apart
        ls = [1 + p.below(3)]
        while len(ls) < n_lens:
            ls.append(ls[-1] + 1 + p.below(3))
        lens.append(ls)
        part = [ln for ln in ls for _ in range(4)]
        order = []
        while part:
            order.append(part.pop(p.below(len(part))))
        parts.append([(ln, 1 + p.below(ln)) if p.chance(1, 2) else (1 + p.below(ln), ln) for ln in order])
    d = Data(w, parts, multi)
    sents = 2
    toks = 100
    n_passes = 150 if n_lens * n_parts <= 4 else 320
    keep = p.chance(1, 2)
    if multi:
        w.probe('in-memory' if keep else 'streamed')
    how = p.pick(d.hows())
    w.probe(how)
    w.sample = dict(kind='groups', multi=multi, lengths=lens, how=how, passes=n_passes)
    w.nontrivial = True
    if how == 'batch':
        bi = w.must('opening', lambda: BatchIterable(
            d.path, (toks, sents), BatchMeta(pad_idx=0, bos_idx=2, eos_idx=3), sort_by='eq_len_rand_batch',
            keep_in_mem=keep))

        def run():
            return [[d.token[int(row[0])] for row in b.x_seqs] for b in bi]
    else:
        db = w.must('opening', lambda: MultipartDb.load(d.path, keep_in_mem=keep) if multi else Db.load(d.path))

        def run():
            return [[gen.key(r.id) for r in b] for b in db.make_eq_len_ran_batches(toks, sents)]
    part_of = {i: k for k, part in enumerate(d.parts) for i, _ in part}
    size = {i: max(a) for i, a in d.lens.items()}
    together, led = set(), set()
    seed = w.seed_random()
    first = []
    for k in range(n_passes):
        bs = w.must('a pass', run)
        if sorted(i for b in bs for i in b) != sorted(d.order):
            raise Violation('wrong-data', f'a pass batches {bs}, stored {d.order}')
        if k < 3:
            first.append(bs)
        for b in bs:
            if len({part_of[i] for i in b}) == 1 and len({size[i] for i in b}) > 1:
                raise Violation('lengths-mixed', f'{how}: records of lengths {[size[i] for i in b]} are in one batch of '
                                                 f'{sents}, although there are 4 of each length')
            together |= {(i, j) for i in b for j in b if i != j}
        led.add((part_of[bs[0][0]], size[bs[0][0]]))
        for j in range(n_parts):
            x = [b for b in bs if part_of[b[0]] == j]
            led.add(('in', j, size[x[0][0]]))
    want = {(k, ln) for k, ls in enumerate(lens) for ln in ls}
    if led != want | {('in', k, ln) for k, ln in want}:
        raise Violation('not-random', f'{how}: in {n_passes} passes only batches of these (part, length) came first: '
                                      f'{sorted(led, key=str)} of {sorted(want)}')
    for i in d.order:
        for j in d.order:
            if i != j and part_of[i] == part_of[j] and size[i] == size[j] and (i, j) not in together:
                raise Violation('not-random', f'{how}: in {n_passes} passes the records {i} and {j}, of equal length, were '
                                              f'never in one batch')
    w.seed_random(seed)
    again = [w.must('a pass', run) for _ in first]
    if again != first:
        raise Violation('not-repeatable', f'{how}: from the same random state, passes are {first} and then {again}')
