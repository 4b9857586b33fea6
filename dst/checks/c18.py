"""C18: vocabulary selection honours frequency, coverage and size limits."""
import sys
from fractions import Fraction

from .. import cli, codecutil, gen, other
from ..core import Violation
from . import sparkutil

ID = 'C18'
NEEDS_SPARK = True
RUNS = {'quick': 12000, 'thorough': 150000}
RULE = ('One evaluation learns a word, character or class vocabulary, or the alphabet of a subword vocabulary, with '
        'drawn limits from drawn text (words named like reserved types included) that arrives as a list, as a stream '
        'in drawn portions, as frequencies in a drawn order, to the command line program, in another process, or '
        'through the learning command of a simulated cluster with lost, failing and repeated tasks and drawn arrival order, and compares it with the '
        'definition computed exactly. Non-trivial: something was left out, or the cluster was used.')
REAL = ['nlcodec.codec (learn_vocab, all schemes, get_init_vocab, read_term_freqs)', 'nlcodec.utils.filter_types_coverage',
        'nlcodec.learn, nlcodec.term_freq (on the cluster)', 'nlcodec.__main__ (learn)',
        'another interpreter (other.py)']
STUB = ['order in which frequencies arrive', 'portions of file reads', 'the JVM side of Spark', 'clock']
ASSUMES = ['Requested sizes hold at least the six reserved types.', 'Which of several types of equal frequency are kept at '
           'a limit is left open.', 'Where sums of frequencies are rounded, those within 1e-12 of the coverage may fall on either side of it.',
           'Lines hold no carriage return.']
MUST_HIT = ['cluster-labels', 'other-locale', 'many-chars', 'long-words', 'nearly-all', 'word', 'char', 'bpe', 'class', 'list', 'file', 'term-freqs', 'command', 'command-term-freqs', 'other-process', 'cluster', 'covered', 'rare',
            'cut', 'at-frequency', 'at-size', 'tie-at-limit', 'reserved-names', 'default-frequency', 'all-kept',
            'word-coverage', 'no-header', 'big-freqs', 'dedup', 'exact-coverage', 'large-vocabulary']
RESERVED = ['<pad>', '<unk>', '<s>', '</s>', '<cls>', '▁']


def prefixes(freqs, cov):
    """how many of the most frequent types the coverage allows"""
    tot = sum(freqs)
    if not tot:
        return {len(freqs)}
    lo = hi = None
    # sums of multiples of 1/2^k are exact
    cum, c, eps = 0, Fraction(cov), 0 if tot & (tot - 1) == 0 and tot < 2 ** 52 else Fraction(1, 10 ** 12)
    for k, f in enumerate(freqs, 1):
        cum += f
        if lo is None and Fraction(cum, tot) >= c - eps:
            lo = k
        if Fraction(cum, tot) >= c + eps:
            hi = k
            break
    hi = len(freqs) if hi is None else hi
    return set(range(lo or hi, hi + 1))


def compare(w, table, counts, n_lines, cov, min_freq, size, where):
    for i, name in enumerate(RESERVED):
        if i >= len(table) or table[i][1] != name:
            raise Violation('reserved', f'{where}: {name} is not at {i}')
    types = {x: f for x, f in counts.items() if x not in RESERVED}
    if any(x in RESERVED for x in counts):
        w.probe('reserved-names')
    rest = [(t[1], t[3]) for t in table[6:]]
    seen = set()
    for name, f in rest:
        if name in seen or name not in types:
            raise Violation('type', f'{where}: {name!r} ' + ('is there twice' if name in seen else 'never occurs'))
        seen.add(name)
        if f != types[name]:
            raise Violation('frequency', f'{where}: {name!r} is given {f}, occurs {types[name]} times')
    fs = [f for _, f in rest]
    if fs != sorted(fs, reverse=True):
        raise Violation('order', f'{where}: frequencies do not decrease: {rest}')
    every = sorted(types.values(), reverse=True)
    wanted = []
    for k in prefixes(every, cov) if cov else {len(every)}:
        keep = every[:k]
        if k < len(every):
            w.probe('covered')
        if any(f < min_freq for f in keep):
            w.probe('rare')
        if min_freq in keep:
            w.probe('at-frequency')
        keep = [f for f in keep if f >= min_freq]
        if size > 0 and 6 + len(keep) == size:
            w.probe('at-size')
        if size > 0 and 6 + len(keep) > size:
            w.probe('cut')
            if keep[size - 6] == keep[max(0, size - 7)]:
                w.probe('tie-at-limit')
            keep = keep[:size - 6]
        wanted.append(keep)
    if fs not in wanted:
        d = 'missing' if len(fs) < len(wanted[0]) else 'too many' if len(fs) > len(wanted[0]) else 'others than the most'
        raise Violation('selection', f'{where}: holds {rest} ({d} frequent); frequencies of all types: {every}, allowed '
                                     f'are {wanted[0]} (coverage {cov}, minimum {min_freq}, size {size})')
    left = sum(every) - sum(fs)
    w.nontrivial |= left > 0
    if not left and types:
        w.probe('all-kept')
    own = counts.get('<unk>', 0)
    if table[1][3] != ((left + own) or -1) and not (left + own == 0 and table[1][3] == 0):
        raise Violation('unknown', f'{where}: the unknown type is given {table[1][3]}; {left} were left out, {own} are '
                                   f'its own')
    if n_lines is not None:
        for i in (2, 3, 4):
            f = n_lines + counts.get(RESERVED[i], 0)
            if table[i][3] != (f or -1):
                raise Violation('boundary', f'{where}: {RESERVED[i]} is given {table[i][3]}, {f} is right')


def compare_class(table, counts, where):
    if [(t[1], t[3]) for t in table] != sorted(counts.items()):
        raise Violation('class', f'{where}: holds {[(t[1], t[3]) for t in table]}, labels are {sorted(counts.items())}')


def direct(level, ls):
    counts = {}
    for l in ls:
        toks = [l.strip()] if level == 'class' else list('▁'.join(l.split())) if level == 'char' else l.split()
        for x in toks:
            counts[x] = counts.get(x, 0) + 1
    return counts


def alphabet(words):
    chars = {}
    for x, f in words.items():
        for ch in x + '▁':
            chars[ch] = chars.get(ch, 0) + f
    return chars


def scenario(w):
    import nlcodec
    from nlcodec import codec
    p = w.plan
    level = p.weighted([(4, 'word'), (4, 'char'), (2, 'bpe'), (1, 'class')])
    w.probe(level)
    how = p.weighted([(3, 'list'), (3, 'file'), (4, 'term-freqs'), (1, 'other-process'), (1, 'cluster')])
    w.probe(how)
    lex = gen.lexicon(p, 3 + p.below(14), max_len=p.pick([2, 5]))
    if level == 'class':
        ls = [p.pick(lex) for _ in range(1 + p.below(15))]
    elif how != 'cluster' and p.chance(1, 16):
        w.probe('many-chars')
        ls, lex = codecutil.many_chars(p)
    else:
        if p.chance(1, 4):
            lex += [p.pick(RESERVED[:5]) for _ in range(2)]
        ls = gen.lines(p, 1 + p.below(10), lex, max_words=8, spaces=p.chance(1, 4)) + [' '.join(lex[:3])]
        if how != 'cluster' and p.chance(1, 12):
            w.probe('long-words')
            ls += [p.pick(lex) + ' ' + ' '.join(codecutil.long_words(p)) for _ in range(1 + p.below(3))]
    if how != 'cluster' and level != 'class' and p.chance(1, 60):
        w.probe('large-vocabulary')
        more, some = codecutil.large_vocabulary(p, 'bpe' if level == 'bpe' else level, 4300)
        ls += more + some * 2
    # a wider choice of frequencies
    for x in lex[:4]:
        if p.chance(1, 3) and level != 'class':
            ls.append(' '.join([x] * (2 + p.below(8))))
    min_freq = p.pick([1, 1, 2, 3, 5, None])
    cov = p.pick([1.0, 1.0, 0.99, 0.98, 0.9, 0.75, 0.5, 0.1])
    counts = direct(level, ls)
    n_types = len(alphabet(counts)) if level == 'bpe' else len(counts)
    size = p.weighted([(2, -1), (3, 6 + p.below(n_types + 2)), (1, 6 + n_types), (1, 1000 if n_types < 500 else n_types // 2)])
    mce = 2
    if level == 'bpe':
        size, mce = p.pick([(1000 + n_types, 2), (-1, 10 ** 9), (1000 + n_types, 10 ** 9)])
        want_min = 1
    else:
        want_min = min_freq or (nlcodec.DEF_WORD_MIN_FREQ if level == 'word' else nlcodec.DEF_CHAR_MIN_FREQ)
    if min_freq is None:
        w.probe('default-frequency')
    n_lines = len(ls)
    command = how in ('list', 'term-freqs') and p.chance(1, 4)
    if command:
        w.probe('command' if how == 'list' else 'command-term-freqs')
    if how == 'cluster':
        return on_cluster(w, level, lex, size, min_freq, want_min, cov, mce)
    if how == 'term-freqs':
        scale = p.pick([1, 1, 7, 10 ** 6, 2 ** 40])
        if scale > 10:
            w.probe('big-freqs')
        base = direct('word' if level == 'bpe' else level, ls)
        if level == 'char':
            base.pop('▁', None)
        items = [(x, f * scale + (p.below(scale) if scale > 1 else 0)) for x, f in base.items()]
        items = w.sched_ch.shuffle(items)
        if level in ('word', 'char') and p.chance(1, 4):
            # the coverage is reached exactly by some types
            x, f = items[0]
            tot = sum(f for _, f in items)
            items[0] = (x, f + 2 ** tot.bit_length() - tot)
            tot = 2 ** tot.bit_length()
            fs = sorted((f for y, f in items if y not in RESERVED), reverse=True)
            if tot < 2 ** 50 and fs and sum(fs) == tot:
                w.probe('exact-coverage')
                cov = sum(fs[:1 + p.below(len(fs))]) / tot
        elif level != 'class' and p.chance(1, 5):
            # almost everything is asked for, and one type is almost everything
            w.probe('nearly-all')
            cov = p.pick([0.9995, 0.9999, 0.99999, 0.9999999, 0.998])
            items[0] = (items[0][0], items[0][1] * p.pick([10 ** 3, 10 ** 5, 10 ** 8]))
        counts = dict(items)
        data = [f'{x}\t{f}' for x, f in items]
        if p.chance(2, 3):
            n_lines = 1 + p.below(50)
            data.insert(0, '#{"types": %d, "tokens": 3, "line_count": %d}' % (len(items), n_lines))
        else:
            w.probe('no-header')
            n_lines = None
        if level != 'class' and p.chance(1, 3):
            data = [l + '\n' for l in data]
    else:
        data = ls
    kw = dict(vocab_size=size, min_freq=min_freq, term_freqs=how == 'term-freqs', char_coverage=cov, min_co_ev=mce)
    w.sample = dict(level=level, how=how, types=len(counts), **kw)
    w.note('arrival', f'{level} {how} {kw} {data!r}')
    if command:
        if level == 'word':
            cov2, cov = cov, 0
        fn = lambda inp: run_command(w, level, inp, dict(kw, char_coverage=cov2 if level == 'word' else cov))
    elif level == 'word' and how != 'other-process' and p.chance(1, 3):
        w.probe('word-coverage')
        kw2 = dict(vocab_size=size, min_freq=want_min, coverage=cov, term_freqs=how == 'term-freqs')
        fn = lambda inp: codec.WordScheme.learn(inp, **kw2)
    else:
        if level == 'word':
            cov = 0
        fn = lambda inp: codec.learn_vocab(inp=inp, level=level, model=None, **kw)
    if how == 'other-process':
        r = other.ask(1 + p.below(3), 'learn', lines=data, level=level, kw=kw, layout=1)
        if 'ok' not in r:
            raise Violation('unexpected-error', f'learning in another process failed: {r["error"]}')
        table = r['ok']
    else:
        if how == 'file':
            gen.raw_write(w.path('corpus'), ''.join(l + '\n' for l in data).encode())
            w.arm(read_short=1 + w.fault_ch.below(3))
            with open(w.path('corpus'), encoding='utf8') as f:
                o = w.call(fn, f)
            w.disarm()
        else:
            o = w.call(fn, list(data) if p.chance(1, 2) else iter(data))
        if not o.ok:
            raise Violation('unexpected-error', f'learning failed: {o!r}\n{o.tb}')
        table = w.observe('the vocabulary', lambda: codecutil.table_of(o.value))
    judge(w, level, table, counts, n_lines, cov, want_min, size, f'{level} from {how}')


def judge(w, level, table, counts, n_lines, cov, min_freq, size, where):
    if level == 'class':
        return compare_class(table, counts, where)
    if level == 'bpe':
        table = [t for t in table if not t[4]]
        counts, size = alphabet(counts), -1
    compare(w, table, counts, n_lines, cov, min_freq, size, where)


def run_command(w, level, lines, kw):
    """the vocabulary the command line program writes"""
    from nlcodec import codec
    from nlcodec.__main__ import main
    p = w.plan
    model = w.path('model')
    data = ''.join(l.rstrip('\n') + '\n' for l in lines).encode()
    argv = ['nlcodec', 'learn', '-m', str(model), '-l', level, '-cv', repr(kw['char_coverage'])]
    if kw['vocab_size'] != -1 or p.chance(1, 2):
        argv += ['-vs', str(kw['vocab_size'])]
    if kw['min_freq'] is not None:
        argv += ['-mf', str(kw['min_freq'])]
    if kw['min_co_ev'] is not None:
        argv += ['-mce', str(kw['min_co_ev'])]
    if kw['term_freqs']:
        argv += [p.pick(['-tfs', '--term-freqs'])]
    if p.chance(1, 2):
        gen.raw_write(w.path('corpus'), data)
        argv += ['-i', str(w.path('corpus'))]
        data = b''
    out = cli.Chan(w)
    with cli.Session():
        ok, err = cli.run(w, main, argv, cli.text_in(cli.RawIn(w, data, short=w.fault_ch.below(3)), 64),
                          cli.text_out(cli.RawOut(w, out), 64))
    if not ok:
        raise err or ValueError('no success')
    return codec.load_scheme(model).table


def on_cluster(w, level, lex, size, min_freq, want_min, cov, mce):
    from nlcodec import codec, learn
    p = w.plan
    w.nontrivial = True
    if p.chance(1, 3):
        # the locale of the process names another encoding
        w.probe('other-locale')
        w.fs.locale = p.pick(['ascii', 'latin-1', 'utf-16'])
    files, lines = [], []
    for i in range(1 + p.small(2)):
        ls = sparkutil.odd_lines(p, lex, p.below(8)) + ([' '.join(lex)] if i == 0 else [])
        if level == 'class':
            w.probe('cluster-labels')
            ls = [l.replace('\t', ' ') for l in ls]
        files.append(sparkutil.text_file(w, f'text{i}', ls, p.chance(1, 5)))
        lines += ls
    dedup = p.chance(1, 3)
    if dedup:
        w.probe('dedup')
    words, chars, n = sparkutil.counts(lines, dedup)
    counts = sparkutil.labels(lines, dedup) if level == 'class' else chars if level == 'char' else words
    model = w.path('model')
    argv = ['nlcodec-learn', '-i'] + [str(f) for f in files] + ['-m', str(model), '-vs', str(size), '-l', level, '-cv',
                                                               repr(cov), '-mce', str(mce)]
    if min_freq is not None:
        argv += ['-mf', str(min_freq)]
    argv += ['--dedup'] if dedup else []
    sparkutil.setup(w, p.pick(['none', 'some']))
    w.sample = dict(level=level, how='cluster', lines=n, vocab_size=size, min_freq=min_freq, coverage=cov, dedup=dedup)
    argv0, sys.argv = sys.argv, argv
    try:
        w.must('learning on the cluster', learn.main)
    finally:
        sys.argv = argv0
    table = w.observe('the model', lambda: codecutil.table_of(codec.load_scheme(model).table))
    judge(w, level, table, counts, n, 0 if level == 'word' else cov, want_min, size, f'{level} learned on a cluster')
