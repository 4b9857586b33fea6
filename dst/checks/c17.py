"""C17: shrinking a vocabulary keeps everything that is used."""
import gzip

from .. import codecutil, gen
from ..core import Violation
from .faultutil import arm_faults, arm_stop

ID = 'C17'
RUNS = {'quick': 30000, 'thorough': 300000}
RULE = ('One evaluation shrinks a drawn model (all schemes) to drawn files (plain and gzip, empty, of empty lines, with '
        'unknown words) with a drawn minimum, saving over nothing or an older model, while reads come in drawn '
        'portions or fail, the storage fails, or the process, machine or user stops it at a drawn operation; mapping '
        'and saved model are compared with the definition. Non-trivial: types were dropped, or a fault fired.')
REAL = ['nlcodec.codec (shrink_vocab, Type.write_out, load_scheme, all schemes)', 'nlcodec.utils (IO, replacing)', 'gzip']
STUB = ['durability, errors and portions of storage operations', 'clock', 'os.urandom']
ASSUMES = ['A model no type remains of (labels only) may be refused instead.',
           'Lines hold no carriage return.', 'Storage does not alter data it has accepted and synced.',
           'Whether the line break at the end of a line counts as a use of the byte 0x0a is left open.']
MUST_HIT = ['other-locale', 'many-lines', 'far-pieces', 'large-vocabulary', 'long-pieces', 'big-counts', 'word', 'char', 'bpe', 'byte', 'class', 'gz', 'plain', 'dropped', 'kept-piece', 'kept-deep', 'min-1', 'min>1',
            'crash-before', 'power-inside', 'interrupt', 'EIO', 'short-read', 'failed', 'no-save', 'old-model', 'no-files',
            'empty-lines', 'reserved-use', 'cut-gz', 'reloaded', 'twice']


def scenario(w):
    from nlcodec import codec
    p = w.plan
    level = p.weighted([(4, 'bpe'), (2, 'word'), (2, 'char'), (1, 'byte'), (1, 'class')])
    w.probe(level)
    w.fs.bufsize = p.weighted([(2, None), (1, 64), (1, 256)])
    if p.chance(1, 8):
        # the locale of the process names another encoding
        w.probe('other-locale')
        w.fs.locale = p.pick(['ascii', 'latin-1', 'utf-16'])
    if level == 'class':
        ls, lex = codecutil.corpus(p, labels=True)
    else:
        ls, lex = codecutil.corpus(p, 4 + p.below(16))
    size = 400 if level == 'bpe' else -1
    if level == 'bpe' and p.chance(1, 20):
        w.probe('long-pieces')
        ls += [codecutil.long_word(p, 40 + p.below(300))] * 3
        size = 2000
    source = ls
    if level != 'byte' and p.chance(1, 80):
        w.probe('large-vocabulary')
        source, some = codecutil.large_vocabulary(p, level)
        source, ls, size = source + ls, ls[:3] + some, -1
    scheme = w.must('learning', codecutil.learn, source, level, vocab_size=size)
    if level in ('word', 'char', 'bpe') and p.chance(1, 6):
        w.probe('big-counts')
        table = codecutil.with_kids([t.copy(freq=t.freq if t.freq < 1 else codecutil.big_count(p)) for t in scheme.table])
        scheme = type(scheme)(table)
    if level == 'bpe' and p.chance(1, 4):
        table = list(scheme.table)
        for _ in range(1 + p.below(8)):
            a, b = p.pick(table[5:]), p.pick(table[5:])
            table.append(codec.Type(a.name + b.name, level=1, idx=len(table), freq=1, kids=(a, b)))
        scheme = codec.BPEScheme(table)
    if level == 'bpe' and source is not ls:
        w.probe('far-pieces')
        scheme = codecutil.far_pieces(p, scheme)
        ls += [t.name for t in scheme.table[-4:]]
    if p.chance(1, 3):
        w.probe('reloaded')
        scheme.save(w.path('full'))
        scheme = codec.load_scheme(w.path('full'))
    save_at = w.path('small') if not p.chance(1, 8) else None
    if save_at is None:
        w.probe('no-save')
    old = None
    if save_at and p.chance(1, 2):
        w.probe('old-model')
        o_lev = p.pick(codecutil.LEVELS)
        old = codecutil.learn(codecutil.corpus(p, labels=o_lev == 'class')[0], o_lev)
        old.save(save_at)
        old = [type(old).__name__, codecutil.table_of(old.table)]
    for k in range(1 + p.chance(1, 4)):
        if k:
            w.probe('twice')
        old = shrink(w, scheme, level, ls, lex, save_at, old, k)


def want_mapping(scheme, lines, min_freq, extra):
    """indices that must stay; extra: uses that may count or not {idx: n}. Returns the possible answers"""
    freq = {}
    for l in lines:
        for i in scheme.encode(l):
            freq[int(i)] = freq.get(int(i), 0) + 1
    out = []
    for add in ({}, extra) if extra else ({},):
        keep = set()
        for t in scheme.table:
            f = freq.get(t.idx, 0) + add.get(t.idx, 0)
            if t.level == -1 or f >= min_freq:
                keep.add(t.idx)
        direct = set(keep)
        todo = list(keep)
        while todo:
            for k in scheme.table[todo.pop()].kids or ():
                if k.idx not in keep:
                    keep.add(k.idx)
                    todo.append(k.idx)
        out.append((sorted(keep), direct))
    return out


def small_table(scheme, mapping):
    new = {o: n for n, o in enumerate(mapping)}
    return [[n, t.name, t.level, t.freq, [new[k.idx] for k in t.kids] if t.kids else []]
            for n, t in enumerate(scheme.table[o] for o in mapping)]


def shrink(w, scheme, level, ls, lex, save_at, old, k):
    from nlcodec import codec
    p = w.plan
    table0 = codecutil.table_of(scheme.table)
    files, lines = [], []
    n_breaks = 0
    n_files = p.below(4)
    if n_files == 0:
        w.probe('no-files')
    cut_gz = None
    for i in range(n_files):
        fl = [p.pick(ls) for _ in range(p.below(6))]
        if p.chance(1, 80):
            w.probe('many-lines')
            m = [p.pick(ls) for _ in range(9)]
            m = [x for x in m if len(x) < 80] or ls[:1]
            fl = [m[(j * 5 + j // 11) % len(m)] for j in range(p.pick([70, 300, 1100]) + p.below(9))] + [p.pick(ls)]
        if p.chance(1, 4):
            fl += ['', '']
            w.probe('empty-lines')
        if level != 'class' and p.chance(1, 4):
            fl.append('zq@ ' + p.pick(lex))
        if level not in ('class', 'byte') and p.chance(1, 5):
            fl.append(p.pick(['<s>', '<unk> </s>']))
            w.probe('reserved-use')
        if level == 'class' and p.chance(1, 6):
            fl.append('unknown-label')
        gz = p.chance(1, 3)
        w.probe('gz' if gz else 'plain')
        path = w.path(f'text{k}-{i}' + ('.gz' if gz else ''))
        txt = '\n'.join(fl) + ('\n' if fl and p.chance(2, 3) else '')
        n_breaks += txt.count('\n')
        # the lines as the file has them
        fl = txt.split('\n')
        if fl[-1] == '':
            fl.pop()
        data = txt.encode()
        if gz:
            data = gzip.compress(data, mtime=0)
            if cut_gz is None and p.chance(1, 12) and len(data) > 12:
                cut_gz = i
                data = data[:-1 - p.below(len(data) - 11)]
        gen.raw_write(path, data)
        files.append(str(path) if p.chance(1, 4) else path)
        lines += fl
    min_freq = p.pick([1, 1, 2, 3, 1 + p.below(6)])
    w.probe('min-1' if min_freq == 1 else 'min>1')
    extra = {10: n_breaks} if level == 'byte' else {}
    wants = want_mapping(scheme, lines, min_freq, extra)
    for keep, direct in wants:
        if len(keep) < len(table0):
            w.probe('dropped')
            w.nontrivial = True
        for t in scheme.table:
            if t.idx in keep and t.idx not in direct:
                w.probe('kept-piece')
                parents = [x.idx for x in scheme.table if x.kids and t.idx in [y.idx for y in x.kids]]
                if not set(parents) & direct:
                    w.probe('kept-deep')
    w.sample = dict(level=level, types=len(table0), min_freq=min_freq, files=len(files), lines=len(lines),
                    kept=len(wants[0][0]))
    fault = p.weighted([(3, 'none'), (2, 'faults'), (2, 'stop')])
    n_ops = 4 + 3 * len(files) + (6 if save_at else 0) + len(''.join(lines)) // (w.fs.bufsize or 8192)
    if save_at:
        n_ops += len(table0) * 12 // (w.fs.bufsize or 8192)
    if p.chance(1, 2):
        w.fs.synced.clear()
    if fault == 'faults':
        a = arm_faults(w, n_ops, 40 * len(table0))
        a.read_short = w.fault_ch.below(3)
    elif fault == 'stop':
        a = arm_stop(w, n_ops)
    else:
        a = w.arm(read_short=w.fault_ch.below(3), short_den=w.fault_ch.below(3))
    at = str(save_at) if save_at and p.chance(1, 3) else save_at
    o = w.crashable(scheme.shrink_vocab, files, min_freq, at)
    a = w.disarm()
    w.fs.revive()
    w.nontrivial |= bool(a.fired)
    if codecutil.table_of(scheme.table) != table0:
        raise Violation('model-changed', 'shrinking altered the model in memory')

    def load():
        s = codec.load_scheme(save_at)
        return s, [type(s).__name__, codecutil.table_of(s.table)]
    new = [[type(scheme).__name__, small_table(scheme, m)] for m, _ in wants]
    if not o.ok:
        if not a.fired and cut_gz is None and all(m for m, _ in wants):
            raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
        w.probe('failed')
        if cut_gz is not None:
            w.probe('cut-gz')
        if save_at is None:
            return None
        l = w.call(load)
        if not l.ok:
            return None
        got = l.value[1]
        if got != old and (got not in new or cut_gz is not None):
            raise Violation('partial', f'after {o!r} the saved model is {got!r}; before: {old!r}; complete: {new!r}')
        return got
    if cut_gz is not None:
        raise Violation('false-success', f'a file could not be read to its end, and the result is {o.value!r}')
    mapping = w.observe('the mapping', lambda: [int(i) for i in o.value])
    if not any(mapping == m for m, _ in wants):
        m = wants[0][0]
        raise Violation('mapping', f'kept {[(i, scheme.table[i].name) for i in mapping if i not in m][:5]} too many and '
                                   f'{[(i, scheme.table[i].name) for i in m if i not in mapping][:5]} too few '
                                   f'(min {min_freq}, {lines[:6]!r}): {mapping} {m}')
    if save_at is None:
        return None
    small, got = w.must('loading the shrunk model', load)
    if got != [type(scheme).__name__, small_table(scheme, mapping)]:
        raise Violation('saved', f'saved {got!r} for {type(scheme).__name__} {mapping!r}')
    if min_freq == 1:
        for l in lines:
            a, b = scheme.encode_str(l), small.encode_str(l)
            if a != b:
                raise Violation('pieces', f'{l!r} was {a}, is {b}')
            if level != 'class':
                ia, ib = scheme.encode(l), small.encode(l)
                if [scheme.table[i].name for i in ia] != [small.table[i].name for i in ib]:
                    raise Violation('pieces', f'{l!r} was {ia}, is {ib}')
    return got
