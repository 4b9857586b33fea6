"""C20: quality and evaluation measures equal their definitions."""
import errno
import gc
import json
import math
import re

from .. import cli, codecutil, gen
from ..core import Violation
from ..fs import SimInterrupt
from .faultutil import arm_faults

ID = 'C20'
RUNS = {'quick': 12000, 'thorough': 150000}
RULE = ('One evaluation runs one measuring tool as a program on drawn text and a drawn model, over files or standard '
        'streams in drawn portions, under one drawn schedule of its worker processes and threads (for tools that '
        'encode in parallel) and drawn memory layout (for the tracker of merges), perhaps with errors of reading, '
        'writing or storage or an interrupt, and compares what it printed with the definition computed from the text '
        'and the codes of its lines. Non-trivial: a measure was compared on at least two lines, or a fault fired.')
REAL = ['nlcodec.qestim', 'nlcodec.eval.bpe_len, oov_count, pr_measure, termfreq', 'nlcodec.__main__ estimate',
        'nlcodec.utils.make_n_grams, make_n_grams_all', 'nlcodec.codec (load_scheme, encode, encode_parallel)',
        'multiprocessing.pool code of the standard library', 'argparse, io text and buffer layers']
STUB = ['raw standard streams', 'storage of -i, -c, -r, -f, -o and model files', 'processes and their scheduling',
        'clock', 'the identity hash of nodes (drawn)', 'process exit']
ASSUMES = ['Numbers printed with rounding are compared at the printed precision, others within 1e-9 of the definition.',
           'Text holds no carriage return; text for bpe_len holds no names of reserved types and no U+2581.',
           'Without any text the tools may refuse to compute means.', 'A precision is only compared where the candidate '
           'holds the n-gram.', 'Codes of lines are those encode gives for each line (C13 to C15 are about these).']
MUST_HIT = ['large-vocabulary', 'many-tokens', 'long-lines', 'estimate', 'qestim', 'termfreq', 'oov', 'pr', 'pr-freqs', 'bpe_len', 'divergence', 'word', 'char', 'bpe',
            'byte', 'class', 'unknown', 'n>1', 'overlap', 'lines>1000', 'short-read', 'short-write', 'output-ENOSPC',
            'input-OSError', 'ENOSPC-quota', 'interrupt', 'failure-reported', 'files', 'streams', 'no-text',
            'oov-gram', 'new-gram', 'repeated-gram']


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def half_l1(counts, k):
    """0.5 sum |p - 1/k|"""
    tot = sum(counts)
    return 0.5 * math.fsum(abs(c / tot - 1 / k) for c in counts)


def grams(seq, n):
    return [tuple(seq[i:i + n]) for i in range(len(seq) - n + 1)]


def count(items, into=None):
    into = {} if into is None else into
    for x in items:
        into[x] = into.get(x, 0) + 1
    return into


def text(lines, last_break=True):
    t = '\n'.join(lines)
    if lines and (last_break or not lines[-1]):
        t += '\n'
    return t.encode()


def rows_of(raw):
    t = raw.decode()
    if t and not t.endswith('\n'):
        raise Violation('output', f'the output does not end in a line break: {t[-60:]!r}')
    return t.split('\n')[:-1]


# ---------------------------------------------------------------- what the tools should print
def check_estimate(raw, scheme, codes):
    t = raw.decode()

    def num(name):
        m = re.search(r'\b' + name + r'\s*[=:]\s*(?:np\.\w+\()?(-?[0-9.]+(?:e[-+]?\d+)?|nan|inf)', t)
        if not m:
            raise Violation('output', f'no {name} in {t!r}')
        return float(m.group(1))
    toks = [i for s in codes for i in s]
    k = len(scheme.table)
    unk = {t.idx for t in scheme.table if t.name == '<unk>' and t.level == -1} | {-1}
    stats = [0] * k
    for i in toks:
        if i >= 0:
            stats[i] += 1
    want = dict(n_types=k, n_tokens=len(toks), mean_seq_len=len(toks) / len(codes),
                unk_count=sum(i in unk for i in toks))
    if any(stats):
        want['imbalance'] = half_l1(stats, k)
    for name, v in want.items():
        if not near(num(name), v):
            raise Violation(name.replace('_', '-'), f'{name} is given {num(name)}, the definition gives {v}')


def check_termfreq(raw, scheme, codes, n):
    want = count(g for s in codes for g in grams(s, n))
    seen, last = {}, None
    for l in rows_of(raw):
        try:
            g, f, names = json.loads(l)
            g = tuple(g)
        except (ValueError, TypeError) as e:
            raise Violation('output', f'the line {l!r} is no record: {e}')
        if g in seen:
            raise Violation('twice', f'the n-gram {g} is there twice')
        seen[g] = f
        if want.get(g) != f:
            raise Violation('frequency', f'{g} is given {f}, it is there {want.get(g, 0)} times')
        if names != [scheme.table[i].name for i in g]:
            raise Violation('name', f'{g} is called {names}')
        if last is not None and f > last:
            raise Violation('order', f'frequencies do not decrease: {f} after {last}')
        last = f
    if len(seen) != len(want):
        raise Violation('missing', f'{len(seen)} n-grams of {len(want)}')


def check_oov(raw, scheme, lines):
    vocab = {t.name for t in scheme.table}
    words = count(x for l in lines for x in l.split())
    iv = {x: f for x, f in words.items() if x in vocab}
    it, ot = len(iv), len(words) - len(iv)
    ik = sum(iv.values())
    ok = sum(words.values()) - ik
    rows = [r.split('\t') for r in rows_of(raw)]
    got = {r[0]: r[1:] for r in rows}
    try:
        types, toks, pct = [[float(x) for x in got[k]] for k in ('Types', 'Token Count', 'Token %')]
    except (KeyError, ValueError) as e:
        raise Violation('output', f'{rows}: {e}')
    if types != [it, ot]:
        raise Violation('types', f'{types} types in and out of the vocabulary, {[it, ot]} are right')
    if toks != [ik, ok]:
        raise Violation('tokens', f'{toks} tokens in and out of the vocabulary, {[ik, ok]} are right')
    want = [100 * ik / (ik + ok), 100 * ok / (ik + ok)]
    if any(abs(a - b) > 0.00501 for a, b in zip(pct, want)):
        raise Violation('percent', f'{pct} percent, {want} is right')


def check_pr(w, raw, scheme, cands, refs, n, freqs):
    rec, prec, rf, cf = {}, {}, {}, {}
    for c, r in zip(cands, refs):
        cg, rg = count(grams(c, n)), count(grams(r, n))
        for g, f in rg.items():
            if f > 1:
                w.probe('repeated-gram')
            rec.setdefault(g, []).append(min(f, cg.get(g, 0)) / f)
            rf[g] = rf.get(g, 0) + f
        for g, f in cg.items():
            prec.setdefault(g, []).append(min(f, rg.get(g, 0)) / f)
            cf[g] = cf.get(g, 0) + f
    if freqs is None:
        rank = dict(rf)
    else:
        rank = {g: f for g, f in freqs.items() if g in rf or g in cf}
        for g in rf:
            if g not in rank:
                w.probe('oov-gram')
                rank[g] = -1
    if any(g not in rank for g in cf):
        w.probe('new-gram')
    rows = [r.split('\t') for r in rows_of(raw)]
    if not rows:
        raise Violation('output', 'there is no header')
    head, rows = rows[0], rows[1:]
    col = {h: i for i, h in enumerate(head)}

    def close(s, v):
        return abs(float(s) - v) <= 6e-6 * max(abs(v), 1e-5)
    seen, last = set(), None
    for k, row in enumerate(rows):
        r = lambda name: row[col[name]]
        g = tuple(int(i) for i in r('Gram').split(','))
        if g in seen or g not in rank:
            raise Violation('gram', f'{g} is there ' + ('twice' if g in seen else 'without cause'))
        seen.add(g)
        if r('Name') != ','.join(scheme.table[i].name for i in g):
            raise Violation('name', f'{g} is called {r("Name")!r}')
        if int(r('Rank')) != k + 1:
            raise Violation('rank', f'row {k} has the rank {r("Rank")}')
        f = int(r('RankF'))
        if f != rank[g]:
            raise Violation('rank-frequency', f'{g} is ranked by {f}, {rank[g]} is right')
        if last is not None and f > last:
            raise Violation('order', f'ranked by {f} after {last}')
        last = f
        for name, have in (('RefF', rf), ('CandF', cf)):
            if int(r(name)) != have.get(g, -1) and not (g not in have and int(r(name)) == 0):
                raise Violation('frequency', f'{name} of {g} is given {r(name)}, {have.get(g, 0)} is right')
        recall = math.fsum(rec[g]) / len(rec[g]) if g in rec else 0
        if not close(r('Recall'), recall):
            raise Violation('recall', f'recall of {g} is given {r("Recall")}, {recall} is right')
        if g in prec:
            p = math.fsum(prec[g]) / len(prec[g])
            if not close(r('Precision'), p):
                raise Violation('precision', f'precision of {g} is given {r("Precision")}, {p} is right')
            f1 = 2 * p * recall / (p + recall) if p + recall else 0
            if not close(r('F1'), f1):
                raise Violation('f1', f'F1 of {g} is given {r("F1")}, {f1} is right')
    if len(seen) != len(rank):
        raise Violation('missing', f'{len(seen)} n-grams of {len(rank)}')


# ---------------------------------------------------------------- the tracker of merges
def tracker(w, model, lines, table):
    """(types, imbalance, mean length) before each merge and after the last"""
    base = {t[1]: t[0] for t in table if not t[4]}
    unk = base['<unk>']
    segs = [[base.get(c, unk) for c in '▁'.join(l.split()) + '▁'] for l in lines]
    merges = [t for t in table if t[4]]
    stats = [0] * len(table)
    for s in segs:
        for i in s:
            stats[i] += 1
    n_base = len(table) - len(merges)
    out = []

    def measure(k):
        out.append((k, half_l1(stats[:k], k), sum(map(len, segs)) / len(segs)))
    measure(n_base)
    for j, (idx, name, _, _, kids) in enumerate(merges):
        a, b = kids
        for k, s in enumerate(segs):
            if a not in s or b not in s:
                continue
            new, i = [], 0
            while i < len(s):
                if i + 1 < len(s) and s[i] == a and s[i + 1] == b:
                    new.append(idx)
                    stats[a] -= 1
                    stats[b] -= 1
                    stats[idx] += 1
                    i += 2
                else:
                    new.append(s[i])
                    i += 1
            if a == b and len(s) - len(new) < sum(x == y == a for x, y in zip(s, s[1:])):
                w.probe('overlap')
            segs[k] = new
        measure(n_base + j + 1)
    return out


def run_tracker(w, mpath, lines, table):
    from nlcodec.eval import bpe_len

    def go():
        t = bpe_len.BpeTracker(bpe_len.BPECodecXt(mpath), iter(lines))
        return t.track_merges()
    seed = w.sched_ch.seed32()
    w.note('layout', seed)
    with codecutil.layout(seed, 'nlcodec.eval.bpe_len'):
        got = w.must('tracking merges', go)
    got = [(int(k), float(e), float(m)) for k, e, m in got]
    want = tracker(w, mpath, lines, table)
    if [g[0] for g in got] != [x[0] for x in want]:
        raise Violation('steps', f'measured at {[g[0] for g in got]} types')
    for g, x in zip(got, want):
        if not near(g[2], x[2]):
            raise Violation('mean-length', f'at {g[0]} types the mean length is given {g[2]}, {x[2]} is right')
        if not near(g[1], x[1]):
            raise Violation('imbalance', f'at {g[0]} types the imbalance is given {g[1]}, {x[1]} is right')
    w.nontrivial = len(lines) > 1 and len(got) > 1


def divergences(w):
    import numpy as np
    from nlcodec.qestim import QualityEstimator as Q
    p = w.plan

    def distr(k):
        c = [p.below(5) * p.pick([1, 1, 100]) for _ in range(k)]
        if not sum(c):
            c[p.below(k)] = 1
        return [x / sum(c) for x in c]
    k = 1 + p.below(12)
    a, b = distr(k), distr(k)
    if p.chance(1, 5):
        b = list(a)

    def kl(x, y):
        return math.fsum(u * math.log(u / v) for u, v in zip(x, y) if u > 0)
    mid = [0.5 * (u + v) for u, v in zip(a, b)]
    A, B = np.array(a), np.array(b)
    cost = p.pick([0.5, 1, 2.0, 0.25])
    l1 = math.fsum(abs(u - v) for u, v in zip(a, b))
    todo = [('JS divergence', lambda: Q.js_div(A, B), 0.5 * (kl(a, mid) + kl(b, mid))),
            ('distance', lambda: Q.earth_mov_dist(A, B, moving_cost=cost), cost * l1),
            ('distance by default', lambda: Q.earth_mov_dist(A, B), 0.5 * l1)]
    if all(v > 0 or u == 0 for u, v in zip(a, b)):
        todo.append(('KL divergence', lambda: Q.kl_div(A, B), kl(a, b)))
    for what, fn, want in todo:
        got = float(w.must(what, fn))
        if not near(got, want):
            raise Violation('divergence', f'{what} of {a} and {b} is given {got}, {want} is right')
    w.nontrivial = True


# ---------------------------------------------------------------- one program
TOOLS = [(3, 'estimate'), (1, 'qestim'), (4, 'termfreq'), (3, 'oov'), (3, 'pr'), (2, 'pr-freqs'), (5, 'bpe_len'),
         (1, 'divergence')]
MODULE = {'estimate': 'nlcodec.__main__', 'qestim': 'nlcodec.qestim', 'termfreq': 'nlcodec.eval.termfreq',
          'oov': 'nlcodec.eval.oov_count', 'pr': 'nlcodec.eval.pr_measure', 'pr-freqs': 'nlcodec.eval.pr_measure'}
POOL = ('termfreq', 'pr', 'pr-freqs', 'bpe_len')
SPECIAL = ['  lead', 'trail  ', 'a\tb', 'x\x85y', 'l\u2028s', '\u3000i', 'e\u0301', '\U0001f600\u200d', '10 20', '中文字']


def scenario(w):
    from nlcodec import codec
    p = w.plan
    tool = p.weighted(TOOLS)
    w.probe(tool)
    if tool == 'divergence':
        return divergences(w)
    if tool == 'bpe_len':
        level = 'bpe'
    elif tool == 'oov':
        level = p.pick(['word', 'word', 'char', 'bpe', 'class'])
    else:
        level = p.pick(codecutil.LEVELS)
    w.probe(level)
    if tool == 'bpe_len' and p.chance(1, 2):
        a, b = p.pick(['a', '中']), p.pick(['b', '0'])
        lex = [a * (1 + p.below(9)) + b * p.below(3) + a * p.below(6) for _ in range(1 + p.below(5))]
        ls = gen.lines(p, 1 + p.below(8), lex) + [lex[0]]
    else:
        ls, lex = codecutil.corpus(p, 2 + p.below(12), labels=level == 'class')
    kw, source = {}, ls
    if level == 'bpe':
        kw['vocab_size'] = p.pick([400, 20, 30, 60])
    if level != 'byte' and tool != 'bpe_len' and p.chance(1, 30):
        w.probe('large-vocabulary')
        source, some = codecutil.large_vocabulary(p, level)
        source, ls = source + ls, ls + some[-3:]
        kw = {}
    mpath = w.path('model')
    codecutil.learn(source, level, **kw).save(mpath)
    scheme = w.must('loading the model', codec.load_scheme, mpath)
    table = codecutil.table_of(scheme.table)

    unknown = level != 'byte' and not (level == 'class' and tool in POOL) and p.chance(1, 2)

    def draw(n):
        out = [p.pick(ls) for _ in range(n)]
        if level != 'class':
            out += gen.lines(p, p.below(4), lex, spaces=p.chance(1, 2))
            if tool != 'bpe_len':
                out += [p.pick(SPECIAL) for _ in range(p.below(3)) if unknown]
        if unknown:
            out += [p.pick(['zzq', 'Q' + p.pick(lex), 'ab@'])]
            w.probe('unknown')
        return p.shuffle(out)
    n = p.below(3) if p.chance(1, 6) else 1 + p.below(14)
    lines = draw(n)
    if tool in POOL and p.chance(1, 60):
        w.probe('lines>1000')
        lines = (lines or [ls[0]]) * (2 + 1000 // max(1, len(lines)))
    if level != 'class' and p.chance(1, 14):
        w.probe('long-lines')
        for _ in range(1 + p.below(2)):
            x = [p.pick(lex) for _ in range(1 + p.below(3))]
            lines.insert(p.below(len(lines) + 1), ' '.join((x * 800)[:p.pick([130, 260, 300, 700])]))
        if p.chance(1, 2):
            lines.append(p.pick(lex)[:1] * (256 + p.below(300)))
    if level != 'class' and tool in ('estimate', 'qestim', 'oov', 'termfreq') and p.chance(1, 50):
        w.probe('many-tokens')
        lines.append(' '.join([p.pick(lex) for _ in range(2)] * 33000)[:66000 + p.below(5000) if level != 'word' else None])
    if tool == 'bpe_len':
        if not any(t[4] for t in table):
            return      # there is nothing to track
        lines = lines or [ls[0]]
        w.scheduler()
        w.sample = dict(tool=tool, lines=len(lines), types=len(table))
        return run_tracker(w, mpath, lines, table)
    codes = [[int(i) for i in scheme.encode(l)] for l in lines]
    n_gram = 1
    if tool in POOL:
        n_gram = p.pick([1, 1, 2, 3])
        if n_gram > 1:
            w.probe('n>1')
    w.sample = dict(tool=tool, level=level, lines=len(lines), n=n_gram)
    f = w.fault_ch
    streams = [p.pick([16, 64, 512, 8192]) for _ in range(2)]
    w.fs.bufsize = p.weighted([(2, None), (1, 32), (1, 200)])
    # options and inputs: the text comes from a file or from standard input
    data = text(lines, not p.chance(1, 4))
    flags, optional = [], {'estimate': '-i', 'qestim': '-d', 'termfreq': '-i', 'oov': '-i', 'pr': '-c', 'pr-freqs': '-c'}[tool]
    freqs = None
    if tool in ('pr', 'pr-freqs'):
        refs = [l if p.chance(1, 2) else ' '.join(l.split()[p.below(2):] + p.pick(ls).split()[:p.below(3)])
                if level != 'class' else p.pick(ls) for l in lines]
        rcodes = [[int(i) for i in scheme.encode(l)] for l in refs]
        other, which = ('-r', refs)
        if p.chance(1, 2):      # the references come from standard input
            optional, other, which = '-r', '-c', lines
            data = text(refs, not p.chance(1, 4))
        gen.raw_write(w.path('second'), text(which))
        flags += [other, str(w.path('second')), '-n', str(n_gram)]
        if tool == 'pr-freqs':
            seen = count(g for s in codes + rcodes for g in grams(s, n_gram))
            freqs = {g: 1 + p.below(9) for g in seen if p.chance(2, 3)}
            freqs[tuple([p.below(len(table))] * n_gram)] = 3
            gen.raw_write(w.path('freqs'), text([json.dumps([list(g), k, ['x'] * n_gram]) for g, k in freqs.items()]))
            flags += ['-f', str(w.path('freqs'))]
    if tool == 'termfreq':
        flags += ['-n', str(n_gram)]
    argv = [MODULE[tool]] + (['estimate'] if tool == 'estimate' else []) + flags
    argv += ['-c' if tool == 'qestim' else '-m', str(mpath)]
    inp, outp = w.path('text'), w.path('result')
    raw_in = cli.RawIn(w, data, short=f.below(3))
    chan = cli.Chan(w)
    raw_out = cli.RawOut(w, chan, short=f.below(3))
    use_in = p.chance(1, 2)
    use_out = tool in POOL and p.chance(1, 2)
    w.probe('files' if use_in else 'streams')
    if use_in:
        gen.raw_write(inp, data)
        argv += [optional, str(inp)]
        raw_in.data = b''
    if use_out:
        if p.chance(1, 2):
            gen.raw_write(outp, b'what was here before\n' * 3)
        argv += ['-o', str(outp)]
    if tool in POOL or p.chance(1, 4):
        w.scheduler()
    total = len(data)
    kind = f.below(4) if p.chance(1, 2) else -1
    if kind == 0:
        a = arm_faults(w, 6 + total // max(1, (w.fs.bufsize or 8192) // 2), 20 + total * 4)
        a.read_short = f.below(3)
    elif kind == 1 and tool not in POOL and not use_in:
        raw_in.err_at, raw_in.exc = f.below(total + 1), SimInterrupt()
    elif kind == 1 and tool not in POOL:
        w.arm(interrupt_at=f.below(8 + total // (w.fs.bufsize or 8192)), read_short=f.below(3))
    elif kind == 2 and not use_out:
        raw_out.room = f.below(400)
        raw_out.exc = OSError(f.pick([errno.ENOSPC, errno.EIO]), 'output')
    elif kind in (2, 3) and not use_in:
        raw_in.err_at, raw_in.exc = f.below(total + 1), OSError(errno.EIO, 'input')
    else:
        w.arm(read_short=f.below(3), short_den=f.below(3))
    with cli.Session():
        ok, err = cli.run(w, cli.program(MODULE[tool]), argv, cli.text_in(raw_in, streams[0]),
                          cli.text_out(raw_out, streams[1]))
    gc.collect(1)
    a = w.disarm()
    fired = raw_in.fired or raw_out.fired or bool(a and a.fired)
    if isinstance(raw_in.exc, SimInterrupt) and raw_in.fired:
        w.fault('interrupt')
    w.nontrivial = fired or len(lines) > 1
    out = gen.raw_read(outp) if use_out and outp.exists() else bytes(chan.total) if not use_out else b''
    empty = not lines if tool not in ('estimate', 'qestim', 'oov') else not any(codes) or not any(l.split() for l in lines)
    if empty:
        w.probe('no-text')
    if not ok:
        if not fired and not (empty and isinstance(err, ArithmeticError)):
            raise Violation('unexpected-error', f'{tool} failed without any fault: {err!r}')
        w.probe('failure-reported')
        return
    try:
        try:
            if tool in ('estimate', 'qestim'):
                if not empty:
                    check_estimate(out, scheme, codes)
            elif tool == 'termfreq':
                check_termfreq(out, scheme, codes, n_gram)
            elif tool == 'oov':
                if not empty:
                    check_oov(out, scheme, lines)
            else:
                check_pr(w, out, scheme, codes, rcodes, n_gram, freqs)
        except (UnicodeDecodeError, ValueError, IndexError, KeyError) as e:
            raise Violation('output', f'{tool} wrote {out[:300]!r}: {e!r}')
    except Violation as v:
        if fired:
            raise Violation('false-success', f'{tool} reported success although {dict(w.faults)}: {v.msg}')
        raise
    if use_out and chan.total:
        raise Violation('output', f'{tool} -o wrote {bytes(chan.total)[:80]!r} to standard output')
