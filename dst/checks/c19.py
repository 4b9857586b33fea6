"""C19: subword merges follow the most-frequent-pair rule."""
from .. import codecutil, gen, other
from ..core import Violation

ID = 'C19'
RUNS = {'quick': 30000, 'thorough': 250000}
RULE = ('One evaluation learns one drawn corpus (runs of one character, where pairs overlap, included) with one drawn '
        'setting under one drawn memory layout (the identity hash of the learner\'s nodes) and a jumping clock, from a '
        'list, a stream read in drawn portions, or frequencies that arrive in a drawn order, in this or in another '
        'process, and replays the learned merges one by one on the words with a naive count of all adjacent pairs. '
        'Non-trivial: at least two merges.')
REAL = ['nlcodec.codec (learn_vocab, BPEScheme.learn, read_term_freqs)', 'nlcodec.bpe.BPELearn',
        'nlcodec.dstruct (LnNode, MaxHeap)', 'other interpreters (other.py)']
STUB = ['the identity hash of LnNode (drawn, as memory addresses would be)', 'clock', 'the memory used so far', 'portions of file reads',
        'order in which frequencies arrive']
ASSUMES = ['The text holds no U+2581 (the space mark).', 'The counts of pairs include overlapping ones (a a a holds a a '
           'twice), and a merge replaces them from left to right.', 'Any of several most frequent pairs may be merged.']
MUST_HIT = ['many-words', 'many-chars', 'long-words', 'merges', 'deep', 'runs-of-one', 'overlap', 'tie', 'early-end', 'full', 'unknown-char', 'term-freqs', 'list',
            'iter', 'file', 'other-process', 'layout', 'big-freqs', 'clock-jump', 'stale-pair', 'single-char']


def replay(table, words, size, mce, w):
    """checks the merges of a table on the words ([(characters, frequency)])"""
    base = {t[1]: t[0] for t in table if not t[4]}
    unk = 1
    segs = []
    for chars, f in words:
        s = [base.get(c, unk) for c in chars]
        if unk in s:
            w.probe('unknown-char')
        segs.append((s, f))
    count, where = {}, {}

    def add(k, sign):
        s, f = segs[k]
        for a in zip(s, s[1:]):
            c = count.get(a, 0) + sign * f
            if c:
                count[a] = c
            else:
                count.pop(a, None)
            if sign > 0:
                where.setdefault(a, set()).add(k)
    for k in range(len(segs)):
        add(k, 1)
    merges = [t for t in table if t[4]]
    dropped = set()
    for n, (idx, name, _, freq, kids) in enumerate(merges):
        top = max(count.values(), default=0)
        if len(kids) != 2:
            raise Violation('pieces', f'{name!r} is composed of {len(kids)} pieces')
        pair = tuple(kids)
        have = count.get(pair, 0)
        if have != top:
            best = [p for p, c in count.items() if c == top]
            raise Violation('merge', f'merge {n} takes {[table[k][1] for k in pair]}, there {have} times, but '
                                     f'{[table[k][1] for k in best[0]]} is there {top} times')
        if freq != have:
            raise Violation('frequency', f'merge {n} ({name!r}) is given {freq}, the pair is there {have} times')
        if have < mce:
            raise Violation('evidence', f'merge {n} ({name!r}) is there {have} times, {mce} are required')
        if sum(c == top for c in count.values()) > 1:
            w.probe('tie')
        if pair in dropped:
            w.probe('stale-pair')
        before = dict(count)
        for k in sorted(where.get(pair, ())):
            s, f = segs[k]
            if not any(a == pair for a in zip(s, s[1:])):
                continue
            add(k, -1)
            out, i = [], 0
            while i < len(s):
                if i + 1 < len(s) and (s[i], s[i + 1]) == pair:
                    out.append(idx)
                    i += 2
                else:
                    out.append(s[i])
                    i += 1
            if len(s) - len(out) < sum(a == pair for a in zip(s, s[1:])):
                w.probe('overlap')
            segs[k] = (out, f)
            add(k, 1)
        dropped.update(p for p, c in before.items() if 0 < count.get(p, 0) < c)
        if any(table[k][4] for k in kids):
            w.probe('deep')
    top = max(count.values(), default=0)
    if size > 1 and len(table) > size:
        raise Violation('size', f'{len(table)} types, {size} asked for')
    if (size <= 1 or len(table) < size) and top >= max(1, mce):
        best = [p for p, c in count.items() if c == top]
        raise Violation('stopped', f'learning stopped with {len(table)} types of {size}, although '
                                   f'{[table[k][1] for k in best[0]]} is there {top} times ({mce} required)')
    if merges:
        w.probe('merges')
        w.probe('full' if len(table) == size else 'early-end')
    return len(merges)


def scenario(w):
    from nlcodec import codec
    p = w.plan
    kind = p.below(4)
    if kind == 0:
        w.probe('runs-of-one')
        a, b = p.pick(['a', '中', 'é']), p.pick(['b', '0', '\U0001f600'])
        lex = [a * (1 + p.below(7)) + b * p.below(3) + a * p.below(6) for _ in range(1 + p.below(5))]
        ls = gen.lines(p, 1 + p.below(8), lex) + [lex[0]]
    elif kind == 1:
        lex = gen.lexicon(p, 4 + p.below(20), max_len=10)
        ls = gen.lines(p, 2 + p.below(20), lex) + [lex[0]]
    elif p.chance(1, 8):
        w.probe('many-chars')
        ls, lex = codecutil.many_chars(p)
    else:
        ls, lex = codecutil.corpus(p)
    if p.chance(1, 16):
        w.probe('long-words')
        ls += [p.pick(lex) + ' ' + ' '.join(codecutil.long_words(p)) for _ in range(1 + p.below(3))]
    if p.chance(1, 80):
        # thousands of words, most of them in few places
        w.probe('many-words')
        n, parts = p.pick([300, 1100, 2300]), [gen.word(p, 'abcdefgh', 3) for _ in range(24)]
        ws = [parts[k % 24] + parts[k // 24 % 24] + parts[k // 576] for k in range(n)]
        ls += [' '.join(ws[k:k + 30]) for k in range(0, n, 30)]
    if p.chance(1, 5):
        w.probe('single-char')
        ls += [x[:1] for x in lex]
    how = p.pick(['list', 'iter', 'file', 'term-freqs'])
    w.probe(how)
    counts = {}
    for l in ls:
        for x in l.split():
            counts[x] = counts.get(x, 0) + 1
    if how == 'term-freqs':
        # they come from a cluster, in any order
        scale = p.pick([1, 1, 1000, 10 ** 9, 2 ** 40])
        if scale > 1000:
            w.probe('big-freqs')
        counts = {x: f * scale + (p.below(scale) if scale > 1 else p.below(5)) for x, f in counts.items()}
        counts = dict(w.sched_ch.shuffle(list(counts.items())))
        ls = [f'{x}\t{f}' for x, f in counts.items()]
        if p.chance(1, 2):
            ls.insert(0, '#{"types": %d, "line_count": 7}' % len(counts))
    n_chars = len({c for x in counts for c in x})
    size = p.weighted([(2, -1), (3, 7 + n_chars + p.below(12)), (2, 7 + n_chars + p.below(60)), (1, 2000)])
    mce = p.pick([2, 1, 2, 3, 5])
    if how == 'term-freqs' and p.chance(1, 3):
        mce = p.pick(sorted(counts.values()))
    if size < 2 and mce < 2:
        mce = 2
    kw = dict(vocab_size=size, min_freq=1, char_coverage=p.pick([1.0, 1.0, 1.0, 0.95, 0.8]), min_co_ev=mce,
              term_freqs=how == 'term-freqs')
    w.sample = dict(how=how, lines=len(ls), **kw)
    words = [(list(x) + ['▁'], f) for x, f in counts.items()]
    w.max_rss = w.sched_ch.pick(codecutil.RSS)

    def learn():
        if how == 'file':
            gen.raw_write(w.path('corpus'), ''.join(l + '\n' for l in ls).encode())
            w.arm(read_short=1 + w.fault_ch.below(3))
            try:
                with open(w.path('corpus'), encoding='utf8') as f:
                    return codec.learn_vocab(inp=f, level='bpe', model=None, **kw)
            finally:
                w.disarm()
        return codec.learn_vocab(inp=iter(ls) if how != 'list' else list(ls), level='bpe', model=None, **kw)
    seed = w.sched_ch.seed32()
    if p.chance(1, 8) and how != 'file':
        w.probe('other-process')
        r = other.ask(1 + p.below(3), 'learn', lines=ls, level='bpe', kw=kw, layout=seed)
        if 'ok' not in r:
            raise Violation('unexpected-error', f'learning in another process failed: {r["error"]}')
        table = r['ok']
    else:
        w.clock_jumps = True
        w.note('layout', seed)
        with codecutil.layout(seed):
            w.probe('layout')
            o = w.call(learn)
        w.clock_jumps = False
        if not o.ok:
            raise Violation('unexpected-error', f'learning failed: {o!r}\n{o.tb}')
        table = w.observe('the model', lambda: codecutil.table_of(o.value))
    n = w.observe('the merges', lambda: replay(table, words, size, mce, w))
    w.note('merges', n)
    w.nontrivial = n > 1
