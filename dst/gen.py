"""Workloads: records, lines of text, vocabularies."""
import os
import random

from . import fs as simfs

# ranges of values a field may hold; a field never mixes negative values with values above 2**63 - 1 (no 64-bit type
# holds both, and the code refuses them)
RANGES = [
    (0, 10), (0, 255), (0, 256), (-3, 5), (-128, 127), (-129, 128), (0, 65535), (0, 65536), (-32769, 3),
    (0, 2 ** 31), (0, 2 ** 32 - 1), (0, 2 ** 32), (-2 ** 31 - 1, 7), (0, 2 ** 53 + 1), (0, 2 ** 63 - 1),
    (-2 ** 63, 2 ** 63 - 1), (2 ** 63 - 5, 2 ** 64 - 1), (0, 2 ** 64 - 1)]


def value(p, rng):
    lo, hi = rng
    k = p.below(6)
    if k <= 2:      # near zero, or near the low end
        return min(hi, max(lo, p.below(8) + (lo if lo > 0 else 0)))
    if k == 3:
        return hi - p.below(2)
    if k == 4:
        return lo + p.below(2)
    return lo + p.below(min(hi - lo + 1, 1 << 62)) if hi - lo < (1 << 62) else lo + p.below(1 << 40)


def seq(p, max_len, rng, allow_empty=True):
    n = p.below(max_len + 1)
    if not allow_empty and n == 0:
        n = 1
    return [value(p, rng) for _ in range(n)]


def ids(p, n, kind=None):
    """n distinct record identifiers"""
    kind = p.weighted([(3, 0), (3, 1), (3, 2), (3, 3), (1, 4), (1, 5), (1, 6)]) if kind is None else kind
    if kind == 0:
        return list(range(n))
    if kind == 1:
        off = p.pick([1, 7, 250, 65530, 2 ** 31 - 2, 2 ** 40])
        return [off + 3 * i for i in range(n)]
    if kind == 2:
        return list(range(n))[::-1]
    if kind == 4:       # names
        return p.shuffle([f'{p.pick(["doc", "é", ""])}-{i}' for i in range(n)])
    if kind == 5:       # below zero, beyond 2 ** 63
        return p.shuffle([-2 - i for i in range(n // 2)] + [2 ** 63 + 3 * i for i in range(n - n // 2)])
    if kind == 6:       # pairs
        return p.shuffle([(f'd{i // 3}', i % 3) for i in range(n)])
    return p.shuffle(range(0, 5 * n, 5))


def records(p, n, n_fields=2, max_len=6, ranges=None, allow_empty=True, id_kind=None):
    """[(id, [seq, ...])]"""
    if ranges is None:
        wide = p.below(3)
        ranges = [p.pick(RANGES[:4] if wide == 0 else RANGES) for _ in range(n_fields)]
    return [(i, [seq(p, max_len, r, allow_empty) for r in ranges]) for i in ids(p, n, id_kind)]


def many_records(p, n, n_fields=2, max_len=3, ranges=None, allow_empty=True, id_kind=None):
    """a large dataset of short records, from one draw"""
    rng = random.Random(p.seed32())
    ranges = ranges or [p.pick(RANGES[:5]) for _ in range(n_fields)]
    kind = (p.below(4) if id_kind is None else id_kind)
    ids_ = list(range(n)) if kind == 0 else [250 + 3 * i for i in range(n)] if kind == 1 else \
        list(range(n))[::-1] if kind == 2 else rng.sample(range(5 * n), n)
    out = []
    for i in ids_:
        row = []
        for lo, hi in ranges:
            k = rng.randrange(0 if allow_empty else 1, max_len + 1)
            row.append([rng.randint(lo, min(hi, lo + 1000)) if rng.random() < .8 else rng.choice([lo, hi])
                        for _ in range(k)])
        out.append((i, row))
    return out


def as_input(p, recs, numpy=None):
    """records in a form the code accepts: sequences as lists, tuples or arrays"""
    import numpy as np
    kind = p.below(3) if numpy is None else (2 if numpy else 0)
    if kind == 0:
        return [(i, [list(s) for s in row]) for i, row in recs]
    if kind == 1:
        return [(i, tuple(tuple(s) for s in row)) for i, row in recs]

    def arr(s):
        if s and max(s) > 2 ** 63 - 1:
            return np.array(s, dtype=np.uint64)
        return np.array(s, dtype=np.int64)
    return [(i, [arr(s) for s in row]) for i, row in recs]


def plain(seq_):
    """a stored sequence as a list of exact Python integers"""
    out = []
    for v in seq_:
        if hasattr(v, 'dtype'):
            if v.dtype.kind not in 'iu':
                raise TypeError(f'a stored value came back as {v.dtype}')
            v = v.item()
        if type(v) is not int:
            raise TypeError(f'a stored value came back as {type(v).__name__}')
        out.append(v)
    return out


def key(i):
    return i.item() if hasattr(i, 'dtype') else i


def as_dict(recs):
    return {i: [list(s) for s in row] for i, row in recs}


def read_rows(db, names, limit=None):
    """[(id, [seq, ...])] of one pass over a database (its records have an id and the fields)"""
    out = []
    for r in db:
        out.append((key(r.id), [plain(getattr(r, n)) for n in names]))
        if limit is not None and len(out) >= limit:
            break
    return out


def diff_rows(rows, want):
    """None, or what differs between a list of rows and the expected {id: fields}"""
    seen = {}
    for i, fs in rows:
        if i in seen:
            return f'record {i} is there twice'
        seen[i] = fs
        if i not in want:
            return f'record {i} was never stored'
        if fs != want[i]:
            return f'record {i} is {fs!r}, stored {want[i]!r}'
    miss = [i for i in want if i not in seen]
    if miss:
        return f'records {miss[:8]} are missing ({len(miss)} of {len(want)})'
    return None


# ---------------------------------------------------------------- files as the simulator sees them
def raw_read(path):
    with simfs.real_open(os.fspath(path), 'rb') as f:
        return f.read()


def raw_write(path, data, synced=True):
    with simfs.real_open(os.fspath(path), 'wb') as f:
        f.write(data)


def raw_tree(path):
    """{relative name: content (None: a directory)} of everything below path"""
    out = {}
    path = os.fspath(path)
    if os.path.isfile(path):
        return {'': raw_read(path)}
    for d, dirs, files in os.walk(path):
        rel = os.path.relpath(d, path)
        out[rel] = None
        for f in files:
            out[os.path.join(rel, f)] = raw_read(os.path.join(d, f))
    return out


def raw_copy(src, dst):
    """copies a tree without going through the simulated storage (everything in it is durable)"""
    src, dst = os.fspath(src), os.fspath(dst)
    for rel, data in raw_tree(src).items():
        p = os.path.normpath(os.path.join(dst, rel))
        if data is None:
            if not os.path.isdir(p):
                simfs.REAL['mkdir'](p)
        else:
            raw_write(p, data)


def raw_remove(path):
    path = os.fspath(path)
    if os.path.isdir(path) and not os.path.islink(path):
        from .core import wipe
        wipe(path)
        simfs.REAL['rmdir'](path)
    elif os.path.lexists(path):
        simfs.REAL['unlink'](path)


# ---------------------------------------------------------------- text
ALPHABETS = [
    'ab',
    'abcde',
    'aàb中',
    'ab\U0001f600ñ',
    'xyzé。',
    'aAbBéÉ',
    'e\u0301éEÅ\u212bå',       # a letter and its parts, the same sign twice
    '0123٣',
    '.,-\'"#<>',
    'a\u200b\u200db',             # invisible, but no white space
    'ｱアaａﬁß',
    'ıİiIsſS',
]


def word(p, alpha, max_len=5):
    n = 1 + p.below(max_len)
    return ''.join(p.pick(alpha) for _ in range(n))


def lexicon(p, n=8, alpha=None, max_len=5):
    alpha = alpha or p.pick(ALPHABETS)
    out = []
    for _ in range(n):
        w = word(p, alpha, max_len)
        if w not in out:
            out.append(w)
    return out


def line(p, lex, max_words=6, spaces=False):
    n = p.below(max_words + 1)
    ws = [p.pick(lex) for _ in range(n)]
    if not spaces:
        return ' '.join(ws)
    s = ''
    for w in ws:
        s += w + p.pick([' ', ' ', '  ', '\t', ' \t '])
    if p.chance(1, 3):
        s = ' ' + s
    return s if p.chance(1, 2) else s.rstrip()


def alike(p, lex, longest=1200):
    """long lines that differ in one word only: the first, one in the middle, or the last"""
    n = p.pick([n for n in (20, 64, 70, 130, 260, 1030) if n < longest])
    ws = []
    while sum(map(len, ws)) + len(ws) < n:
        ws.append(p.pick(lex))
    out = []
    for _ in range(2 + p.below(3)):
        k = p.pick([0, len(ws) // 2, len(ws) - 1])
        out.append(' '.join(ws[:k] + [p.pick(lex)] + ws[k + 1:]))
    if p.chance(1, 3):
        out.append(' '.join(ws + [p.pick(lex)]))
    return out


def lines(p, n, lex=None, max_words=6, spaces=False):
    lex = lex or lexicon(p)
    return [line(p, lex, max_words, spaces) for _ in range(n)]
