"""Databases used by several checks: what to store, how it is created through the public interface, how it reads back."""
import itertools

from ..core import Violation
from .. import gen


class Spec:
    """one dataset and the way it is written"""

    def __init__(self, recs, names, part_size, max_parts, has_id, via, feed, use_str):
        self.recs, self.names = recs, names
        self.part_size, self.max_parts = part_size, max_parts
        self.has_id, self.via, self.feed = has_id, via, feed
        self.use_str = use_str
        self.want = gen.as_dict(recs)

    def __repr__(self):
        return f'<{len(self.recs)} records in parts of {self.part_size} via {self.via}>'

    def create(self, path, overwrite, fail_at=None, error=None):
        from nlcodec.db.core import MultipartDb
        feed = self.feed if self.has_id else [row for _, row in self.feed]
        if fail_at is not None:
            def failing(given):
                for i, r in enumerate(given):
                    if i == fail_at:
                        raise error or InputError('the input stream failed')
                    yield r
                if fail_at == len(given):
                    raise error or InputError('the input stream failed')
            feed = failing(feed)
        if self.use_str:
            path = str(path)
        if self.via == 'create':
            return MultipartDb.create(path, iter(feed), field_names=self.names, has_id=self.has_id,
                                      overwrite=overwrite, part_size=self.part_size, max_parts=self.max_parts)
        feed = iter(feed) if self.has_id else iter(enumerate(feed))
        with MultipartDb.Writer(path, field_names=self.names, overwrite=overwrite, max_parts=self.max_parts) as wr:
            for k in range(0, len(self.feed), self.part_size):
                wr(k // self.part_size, itertools.islice(feed, self.part_size))
            if next(feed, None) is not None:
                raise AssertionError('records left')
        return None


class InputError(Exception):
    pass


def damage(w, path):
    """a part of a stored database is lost or cut short; what puts it back, or None"""
    import os
    f = w.fault_ch
    names = sorted(n for n in os.listdir(path) if n.startswith('part-') and not n.endswith('.meta'))
    if len(names) < 2:
        return None
    name = os.path.join(path, f.pick(names))
    data = gen.raw_read(name)
    if f.chance(1, 4):
        w.fault('lost-part', os.path.basename(name))
        gen.raw_remove(name)
    else:
        n = f.pick([0, f.below(len(data)), len(data) - 1])
        w.fault('cut-part', f'{os.path.basename(name)} {n}')
        gen.raw_write(name, data[:n])
    return lambda: gen.raw_write(name, data)


def spec(w, lo=1, hi=9, n_fields=None, via=None, max_len=5, allow_empty=True, ranges=None,
         many=(150, 270, 520, 1100, 2300)):
    p = w.plan
    n = lo + p.small(hi - lo)
    nf = n_fields or p.weighted([(4, 2), (1, 1), (1, 3)])
    names = ['x', 'y', 'z'][:nf]
    has_id = p.chance(1, 2)
    if max_len <= 6 and p.chance(1, 70):
        # parts of more records than a byte counts
        w.probe('many-records')
        n = p.pick(many) + p.below(9)
        recs = gen.many_records(p, n, nf, min(max_len, 3), ranges, allow_empty, None if has_id else 0)
        part_size = p.pick([n, n, n // 2 + 1, n // 3 + 1, n // 7 + 1])
        return Spec(recs, names, part_size, 1000, has_id,
                    via or p.weighted([(3, 'create'), (1, 'writer')]), gen.as_input(p, recs), p.chance(1, 3))
    recs = gen.records(p, n, nf, max_len, ranges=ranges, allow_empty=allow_empty, id_kind=None if has_id else 0)
    part_size = 1 + p.small(max(1, n))
    n_parts = -(-n // part_size)
    max_parts = p.pick([1000, 1000, max(n_parts, 2), 10])
    via = via or p.weighted([(3, 'create'), (1, 'writer')])
    return Spec(recs, names, part_size, max_parts, has_id, via, gen.as_input(p, recs), p.chance(1, 3))


def open_and_match(w, path, candidates, when, strict=True):
    """which of the candidate datasets the path holds; None if it is refused; a violation if it is none of them"""
    from nlcodec.db.core import MultipartDb
    p = w.plan
    kw = {}
    if p.chance(1, 3):
        kw['keep_in_mem'] = True
    if p.chance(1, 3):
        kw['shuffle'] = True
    o = w.call(MultipartDb.load, str(path) if p.chance(1, 3) else path, **kw)
    if not o.ok:
        w.note('refused', type(o.exc).__name__)
        return None
    db = o.value
    n = w.observe('length', lambda: len(db))
    bad = []
    for c in candidates:
        rows = w.call(gen.read_rows, db, c.names)
        if not rows.ok:
            bad.append(f'reading failed: {rows!r}')
            continue
        d = gen.diff_rows(rows.value, c.want)
        if d is None and n != len(c.want):
            d = f'length is {n}, it has {len(c.want)} records'
        if d is None:
            w.note('opened', repr(c))
            return c
        bad.append(d)
    raise Violation('wrong-data', f'{when} the path opens, but it is none of the {len(candidates)} datasets it may '
                                  f'hold: ' + ' | '.join(bad))
