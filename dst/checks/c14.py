"""C14: learning is reproducible and well-formed in every process."""
from .. import codecutil, gen, other
from ..core import Violation

ID = 'C14'
RUNS = {'quick': 40000, 'thorough': 250000}
RULE = ('One evaluation learns one drawn corpus with one drawn setting several times: under drawn memory layouts '
        '(the identity hash of the learner\'s nodes), a drawn clock that jumps, after other learning in the same '
        'process, from a list, an iterator or a file read in drawn portions, and in other interpreters with other '
        'hash seeds; all tables must be equal and well formed. Non-trivial: a model with merged pieces, or learning '
        'that was refused, compared over at least two layouts or processes.')
REAL = ['nlcodec.codec (learn_vocab, all schemes)', 'nlcodec.bpe.BPELearn', 'nlcodec.dstruct (LnNode, MaxHeap)',
        'nlcodec.utils.filter_types_coverage', 'other interpreters (other.py)']
STUB = ['the identity hash of LnNode (drawn, as memory addresses would be)', 'clock', 'the memory used so far', 'portions of file reads']
ASSUMES = ['Requested sizes hold at least the six reserved types.']
MUST_HIT = ['many-chars', 'long-words', 'word', 'char', 'bpe', 'class', 'byte', 'merges', 'early-end', 'sized', 'other-process', 'layout', 'file',
            'term-freqs', 'refused', 'clock-jump', 'runs-of-one', 'coverage']


def well_formed(level, table, size, objs=None):
    from nlcodec.codec import Reseved
    if level in ('word', 'char', 'bpe'):
        for (name, idx) in Reseved.ALL:
            if idx >= len(table) or table[idx][1] != name:
                raise Violation('reserved', f'{name} is not at {idx}: {table[:8]}')
        if size > 0 and len(table) > size:
            raise Violation('size', f'{len(table)} types, {size} asked for')
    if level == 'byte':
        marks = [name for name, _ in (Reseved.BOS_TOK, Reseved.EOS_TOK)]
        if [t[1] for t in table] != [f'{c:x}' for c in range(256)] + marks:
            raise Violation('bytes', f'{len(table)} types: {[t[1] for t in table][:20]} ... {[t[1] for t in table][-8:]}')
    marks = {name for name, _ in Reseved.ALL}
    for i, (idx, name, lev, freq, kids) in enumerate(table):
        if idx != i:
            raise Violation('index', f'type {i} has index {idx}')
        exp = -1 if name in marks and level != 'class' else 2 if level == 'word' else 1 if kids else 0
        if lev != exp:
            raise Violation('level', f'{name!r} ({idx}) has level {lev}, a {level} model has {exp} there')
        if kids:
            if any(k >= idx or k < 0 for k in kids):
                raise Violation('order', f'{name!r} ({idx}) is composed of {kids}')
            if ''.join(table[k][1] for k in kids) != name:
                raise Violation('name', f'{name!r} ({idx}) is composed of {[table[k][1] for k in kids]}')
    if objs is not None:
        for t in objs:
            for k in t.kids or ():
                if (k.name, k.level) != (objs[k.idx].name, objs[k.idx].level):
                    raise Violation('pieces', f'{t.name!r} is composed of {k.name!r}, which is not the type {k.idx}')


def scenario(w):
    from nlcodec import codec
    p = w.plan
    level = p.weighted([(6, 'bpe'), (2, 'word'), (2, 'char'), (1, 'class'), (1, 'byte')])
    w.probe(level)
    if level == 'class':
        ls, lex = codecutil.corpus(p, labels=True)
    elif level == 'bpe' and p.chance(1, 4):
        # runs of the same character, where pairs overlap
        w.probe('runs-of-one')
        a, b = p.pick(['a', '中', 'é']), p.pick(['b', '0', '\U0001f600'])
        lex = [a * (1 + p.below(6)) + b * p.below(3) + a * p.below(6) for _ in range(1 + p.below(5))]
        ls = gen.lines(p, 1 + p.below(8), lex) + [lex[0]]
    elif p.chance(1, 16):
        w.probe('many-chars')
        ls, lex = codecutil.many_chars(p)
    else:
        ls, lex = codecutil.corpus(p)
    if level != 'class' and p.chance(1, 16):
        w.probe('long-words')
        ls += [' '.join(codecutil.long_words(p)) for _ in range(1 + p.below(3))]
    if p.chance(1, 6):
        ls = [' ' + l + ' \t' for l in ls]
    tfs = level in ('word', 'bpe') and p.chance(1, 6)
    if tfs:
        w.probe('term-freqs')
        big = p.chance(1, 2)
        ls = [f'{t}\t{codecutil.big_count(p) if big else 1 + p.below(9)}' for t in dict.fromkeys(x for l in ls for x in l.split())]
    size = p.weighted([(2, -1), (2, 6 + p.below(12)), (2, 12 + p.below(40)), (2, 1000)])
    if size > 12 and p.chance(1, 2):        # about what the characters need
        size = max(6, 4 + len({c for l in ls for c in l}) + p.below(8))
    cov = p.pick([1.0, 1.0, 0.98, 0.9, 0.5])
    if cov < 1 and level in ('char', 'bpe'):
        w.probe('coverage')
    mce = p.pick([2, 1, 2, 3, 5])
    if level == 'bpe' and size < 2 and mce < 2:
        mce = 2
    kw = dict(vocab_size=size, min_freq=p.pick([1, 1, 2, 3]), char_coverage=cov, min_co_ev=mce, term_freqs=tfs)
    if size > 0:
        w.probe('sized')
    w.sample = dict(level=level, lines=len(ls), **kw)
    path = w.path('corpus')
    gen.raw_write(path, ''.join(l + '\n' for l in ls).encode())

    def learn(how):
        if how == 'file':
            w.probe('file')
            w.arm(read_short=1 + w.fault_ch.below(3))
            try:
                with open(path, encoding='utf8') as f:
                    return codec.learn_vocab(inp=f, level=level, model=None, **kw)
            finally:
                w.disarm()
        return codec.learn_vocab(inp=iter(ls) if how == 'iter' else list(ls), level=level, model=None, **kw)

    def result(o):
        return codecutil.table_of(o.value) if o.ok else type(o.exc).__name__

    def ok_error(o):
        # only: nothing to learn from, or no room for the characters
        if isinstance(o.exc, AssertionError) and 'too small' in str(o.exc):
            return True
        if isinstance(o.exc, (ValueError, AssertionError)) and not any(l.strip() for l in ls):
            return True
        return False

    first = w.call(learn, 'list')
    ref = result(first)
    if first.ok:
        w.observe('the model', lambda: well_formed(level, ref, size, first.value))
        if any(r[4] for r in ref):
            w.probe('merges')
            w.nontrivial = True
            if size < 0 or len(ref) < size:
                w.probe('early-end')
        again = w.call(lambda: codecutil.table_of(codec.REGISTRY[level](first.value).table))
        if not again.ok or again.value != ref:
            raise Violation('unusable', f'no codec with the learned vocabulary: {again!r}')
    else:
        if not ok_error(first):
            raise Violation('unexpected-error', f'learning failed: {first!r}\n{first.tb}')
        w.probe('refused')
        w.nontrivial = True

    def same(got, where):
        if got != ref:
            d = '' if isinstance(got, str) or isinstance(ref, str) else \
                next((f'first at {i}: {a} and {b}' for i, (a, b) in enumerate(zip(got, ref)) if a != b),
                     f'{len(got)} and {len(ref)} types')
            raise Violation('not-reproducible', f'{where}: {d or (got, ref)}; {ls!r} {kw}')
    w.clock_jumps = True
    for k in range(1 + p.below(3)):
        if p.chance(1, 4):
            other_ls, _ = codecutil.corpus(p)
            codec.learn_vocab(inp=other_ls, level='bpe', model=None, vocab_size=200, min_co_ev=2)
        seed = w.sched_ch.seed32()
        w.note('layout', seed)
        w.max_rss = w.sched_ch.pick(codecutil.RSS)
        with codecutil.layout(seed):
            w.probe('layout')
            o = w.call(learn, p.pick(['list', 'iter', 'file']))
        if not o.ok and not ok_error(o):
            raise Violation('unexpected-error', f'learning failed in layout {seed}: {o!r}\n{o.tb}')
        same(result(o), f'learned again with other addresses (layout {seed})')
    w.clock_jumps = False
    if p.chance(1, 2):
        w.probe('other-process')
        hs = 1 + p.below(3)
        r = other.ask(hs, 'learn', lines=ls, level=level, kw=kw, layout=w.sched_ch.seed32())
        got = r['ok'] if 'ok' in r else r['error'].split(':')[0]
        same(got, f'learned in another process (hash seed {hs})')
    if first.ok:
        same(w.observe('the model', lambda: codecutil.table_of(first.value)), 'the first model, after learning more')
