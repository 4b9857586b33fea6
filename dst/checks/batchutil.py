"""Batched datasets: storing, opening and reading batches back as rows."""
from ..core import Violation
from .. import gen
from . import dbutil


def rows_of(b, batch_first, meta):
    """what a Batch says: list of dicts with the full rows and the reported lengths"""
    import numpy as np
    n = len(b)
    x = np.asarray(b.x_seqs)
    y = np.asarray(b.y_seqs)
    if x.dtype.kind not in 'iu' or y.dtype.kind not in 'iu':
        raise TypeError(f'batch of {x.dtype} and {y.dtype}')
    if x.ndim != 2 or y.ndim != 2:
        raise ValueError(f'shapes {x.shape} {y.shape}')
    if not batch_first:
        x, y = x.T, y.T
    return n, x.tolist(), y.tolist()


def marked(seq, add_bos, add_eos, meta):
    s = list(seq)
    if add_bos and s[0] != meta.bos_idx:
        s = [meta.bos_idx] + s
    if add_eos and s[-1] != meta.eos_idx:
        s = s + [meta.eos_idx]
    return s


def dataset(w, lo=1, hi=14, max_len=6, ranges=((4, 30), (4, 30)), fix=None, part_max=None):
    p = w.plan
    sp = dbutil.spec(w, lo=lo, hi=hi, n_fields=2, max_len=max_len, ranges=[tuple(r) for r in ranges],
                     many=(150, 290, 550))
    if p.chance(1, 12):
        # a sequence longer than one byte counts
        w.probe('long-sequence')
        for _ in range(1 + p.below(2)):
            i, row = p.pick(sp.recs)
            j = p.below(len(row))
            row[j] = (row[j] or [ranges[j][0]]) * 130
            row[j] = row[j][:p.pick([127, 128, 129, 255, 256, 257, 300, 600])]
        sp.feed = gen.as_input(p, sp.recs)
        sp.want = gen.as_dict(sp.recs)
    if fix is not None:
        sp.recs = [(i, [fix(p, s) for s in row]) for i, row in sp.recs]
        sp.feed = gen.as_input(p, sp.recs)
        sp.want = gen.as_dict(sp.recs)
    return sp


def store(w, sp, path, multi):
    from nlcodec.db.core import Db
    if multi:
        w.must('creating', sp.create, path, overwrite=False)
    else:
        feed = sp.feed if sp.has_id else [row for _, row in sp.feed]
        w.must('creating', lambda: Db.create(feed, sp.names, has_id=sp.has_id, path=path))
