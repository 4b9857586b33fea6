"""C13: a model file is complete or refused, and reloads to the same codec."""
from .. import codecutil, gen, other
from ..core import Violation
from .faultutil import arm_faults, arm_stop

ID = 'C13'
RUNS = {'quick': 15000, 'thorough': 150000}
RULE = ('One evaluation saves a drawn model (all schemes, saved by the codec, the table or the learner) over nothing, '
        'an older model or what an interrupted save left, while it is stopped (process, machine, interrupt) or its '
        'storage operations fail, loads the path and compares table and behaviour with the complete models, and saves '
        'and reloads once more without faults; or several processes save to and load from one path under one drawn '
        'schedule of their storage operations, some ending half way. Non-trivial: a stop or error fired during the '
        'save, or processes shared the path.')
REAL = ['nlcodec.codec (Type.write_out, read_vocab, parse, save, load_scheme, learn_vocab, all schemes)',
        'nlcodec.utils.replacing', 'a second interpreter (other.py)']
STUB = ['durability of file data, errors and partial effects of storage operations', 'clock', 'os.urandom']
ASSUMES = ['Metadata operations are durable in the order they were made; only file data not synced may be lost.',
           'Names with tabs or line breaks, which the format has no way to write, may be refused; so may invalid text.',
           'Storage does not alter data it has accepted and synced.']
MUST_HIT = ['odd-names', 'odd-names-refused', 'odd-names-kept', 'far-pieces', 'long-types', 'large-vocabulary', 'big-counts', 'error-then-stop', 'stop-later', 'crash-before', 'crash-inside', 'crash-after', 'power-before', 'power-inside', 'power-after', 'lost-write',
            'interrupt', 'ENOSPC-quota', 'EIO', 'short-write', 'kept-old', 'got-new', 'refused', 'over-old',
            'save', 'write_out', 'learn_vocab', 'stream', 'other-process', 'word', 'char', 'bpe', 'byte', 'class',
            'merges', 'error-reported', 'old-format', 'other-locale', 'long-pieces', 'together', 'together-changes', 'together-killed', 'kill']

EXTRA = ['#{', '#', '0', '12', '"', '\\', "'", '{"a":', '<unk>', '<s>', 'é', 'e\u0301', '\U0001f600', '\ufeff', 'ß',
         '\u200b', '中文', 'a:b', '|', '→']

# characters inside labels that other code takes for line breaks or blanks
BREAKS = ['u\u2028v', 'f\x0cg', 'n\x85k', 'n\xa0b', 'x\x1cy', 'p\u2029q', 'v\x0bw']


def model(w, level=None):
    p = w.plan
    level = level or p.pick(codecutil.LEVELS)
    w.probe(level)
    if level == 'class':
        ls, lex = codecutil.corpus(p, labels=True)
        if p.chance(1, 3):
            ls += [p.pick(EXTRA), 'two words', '', p.pick(BREAKS)]
    else:
        ls, lex = codecutil.corpus(p)
        for _ in range(p.below(4)):
            ls.append(' '.join(p.pick(EXTRA) for _ in range(1 + p.below(3))))
    size = -1
    if level == 'bpe' and p.chance(1, 40):
        w.probe('long-pieces')
        ls += [codecutil.long_word(p, 300 + p.below(1500))] * 3
    elif level == 'bpe':
        size = p.pick([-1, 200])
    elif p.chance(1, 4):
        size = 6 + p.below(30)
    if level in ('word', 'class') and p.chance(1, 60):
        w.probe('long-types')
        ls.insert(0, codecutil.long_word(p, p.pick([1030, 4100, 5000, 9000])))
    more = []
    if level != 'byte' and p.chance(1, 100):
        w.probe('large-vocabulary')
        large, more = codecutil.large_vocabulary(p, level)
        ls, size, more = ls + large, -1, more[-3:]
    probe = list(dict.fromkeys(ls[:4])) + more + ([] if level == 'class' else ['zq ' + lex[0], '', '  ' + lex[-1] + lex[0]])
    tfs = level in ('word', 'char', 'bpe') and p.chance(1, 6)
    if tfs:
        # frequencies of a large corpus
        w.probe('big-counts')
        terms = dict.fromkeys(x for l in ls for x in (l.split() if level != 'char' else l.replace(' ', '')))
        ls = [f'{t}\t{codecutil.big_count(p)}' for t in terms if t.strip() == t != '']
    s = w.must('learning', codecutil.learn, ls, level, vocab_size=size, min_co_ev=p.pick([2, 3, 1 if size > 1 else 2]),
               min_freq=p.pick([1, 1, 2]) if level != 'class' else 1, term_freqs=tfs)
    if level == 'bpe' and more:
        w.probe('far-pieces')
        s = codecutil.far_pieces(p, s)
        probe += [t.name for t in s.table[-4:]]
    if any(t.kids for t in s.table):
        w.probe('merges')
    return dict(tfs=tfs, level=level, scheme=s, lines=ls, size=size, probe=probe)


def old_format(raw):
    """the file as it was written before the header named the scheme"""
    import json
    head, rest = raw.split(b'\n', 1)
    d = json.loads(head[1:])
    d.pop('scheme', None)
    return b'#' + json.dumps(d).encode() + b'\n' + rest


def linearizable(ops, initial):
    """ops: (called, returned or None, 'save' or 'load', value); a save that did not return may have happened or not.
    One atomic register?"""
    n = len(ops)
    seen = set()
    todo = [(0, initial)]
    while todo:
        done, val = todo.pop()
        if (done, val) in seen:
            continue
        seen.add((done, val))
        left = [i for i in range(n) if not done >> i & 1]
        if all(ops[i][1] is None for i in left):
            return True
        first = min(ops[i][1] for i in left if ops[i][1] is not None)
        for i in left:
            called, returned, kind, v = ops[i]
            if called > first:
                continue
            if kind == 'save':
                todo.append((done | 1 << i, v))
            elif v == val:
                todo.append((done | 1 << i, val))
    return False


def together(w):
    """processes that save to and load from one path at the same time, some of which end half way"""
    from nlcodec import codec
    p = w.plan
    w.probe('together')
    w.scheduler()
    s = w.sched
    path = w.path('model')
    models = [model(w) for _ in range(2 + p.below(2))]
    lines = [l for m in models for l in m['probe']]
    values = [codecutil.behaviour(m['scheme'], lines) for m in models]
    initial = None
    if p.chance(2, 3):
        w.must('saving', models[0]['scheme'].save, path)
        initial = values.index(values[0])
    procs = [[('save', p.below(len(models))) if p.chance(1, 2) else ('load', None) for _ in range(1 + p.below(3))]
             for _ in range(2 + p.below(3))]
    procs[0][0] = ('save', len(models) - 1)
    procs[1][0] = ('load', None)
    history, kills = [], {}
    for k in range(len(procs)):
        if w.fault_ch.chance(1, 5):
            kills[k] = 1 + w.fault_ch.below(14)
    clock = [0]
    bad = []
    w.sample = dict(how='together', procs=procs, kills=kills, old=initial is not None)
    w.nontrivial = True

    def load():
        try:
            b = codecutil.behaviour(codec.load_scheme(path), lines)
        except FileNotFoundError:
            return None
        return values.index(b) if b in values else ('wrong', b)

    def run(k):
        def body():
            for kind, i in procs[k]:
                v = values.index(values[i]) if kind == 'save' else None
                op = [clock[0], None, kind, v]
                history.append(op)
                clock[0] += 1
                if kind == 'save':
                    o = w.call(models[i]['scheme'].save if (k + i) % 2 else
                               lambda m: codec.Type.write_out(models[i]['scheme'].table, m,
                                                              scheme=models[i]['scheme'].name), path)
                else:
                    o = w.call(load)
                if not o.ok:
                    bad.append(f'{kind} of process {k} failed: {o!r}\n{o.tb}')
                elif kind == 'load':
                    op[3] = o.value
                    if isinstance(o.value, tuple):
                        b = o.value[1]
                        bad.append(f'process {k} loaded {b[0]} with {len(b[1])} types: {b[1][:300]!r}; saved: '
                                   + ' | '.join(f'{e[0]} with {len(e[1])} types' for e in values))
                op[1] = clock[0]
                clock[0] += 1
        return body

    ps = [s.new_proc(f'process-{k}') for k in range(len(procs))]

    def on_gate(kind, where):
        k = ps.index(s.current.proc) if s.current.proc in ps else None
        if k in kills:
            kills[k] -= 1
            if kills[k] <= 0:
                del kills[k]
                w.fault('kill', f'process-{k} before {kind}')
                s.kill_proc(ps[k])
                s.check()
    w.fs.on_gate = on_gate
    for k in range(len(procs)):
        s.spawn(run(k), f'process-{k}', ps[k])
    s.quiesce(100_000)
    w.fs.on_gate = None
    if any(q.alive for q in ps):
        raise Violation('stuck', 'a process did not end')
    if bad:
        raise Violation('wrong-model', bad[0])
    history.append([clock[0], clock[0] + 1, 'load', w.must('loading', load)])
    ops = [tuple(op) for op in history if op[1] is not None or op[2] == 'save']
    if len(set(o[3] for o in ops)) > 1:
        w.probe('together-changes')
    if any(op[1] is None for op in ops):
        w.probe('together-killed')
    if not linearizable(ops, initial):
        raise Violation('not-one-model', f'called, returned, what, model: {ops!r}, at first {initial!r}')


def odd_names(w):
    """names with characters the format cannot write, or that are not valid text"""
    from nlcodec import codec
    p = w.plan
    w.probe('odd-names')
    names = sorted({'a' + p.pick(['\t', '\n', '\r', '\t0', '\udce9', '\ud800x', 'b', '']) + p.pick(['', 'b', '0', '1']) + str(k)
                    for k in range(2 + p.below(4))})
    s = codec.ClassScheme([codec.Type(n, level=0, idx=i, freq=1 + p.below(3)) for i, n in enumerate(names)])
    w.nontrivial = True
    w.sample = dict(names=[ascii(n) for n in names])
    o = w.call(s.save, w.path('model'))
    if not o.ok:
        w.probe('odd-names-refused')
        if not any(set(n) & set('\t\r\n') or not n.isascii() for n in names):
            raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
        return
    w.probe('odd-names-kept')
    t = w.observe('the model', lambda: codecutil.table_of(codec.load_scheme(w.path('model')).table))
    if t != codecutil.table_of(s.table):
        raise Violation('wrong-model', f'saved {codecutil.table_of(s.table)!a}, loaded {t!a}')


def scenario(w):
    from nlcodec import codec
    p = w.plan
    if p.chance(1, 5):
        return together(w)
    if p.chance(1, 40):
        return odd_names(w)
    w.fs.bufsize = p.weighted([(3, None), (2, 128), (1, 512)])
    if p.chance(1, 4):
        # the locale of the process names another encoding
        w.probe('other-locale')
        w.fs.locale = p.pick(['ascii', 'latin-1', 'utf-16'])
    path = w.path('model')
    old, cands = None, []
    new = model(w)
    if p.chance(2, 3):
        w.probe('over-old')
        old = model(w, new['level'] if p.chance(1, 3) else None)
        w.must('saving the older model', old['scheme'].save, path if p.chance(1, 2) else str(path))
    lines = new['probe'] + (old['probe'] if old else [])

    def expect(m):
        return codecutil.behaviour(m['scheme'], lines)

    def load():
        return codecutil.behaviour(codec.load_scheme(path if p.chance(1, 2) else str(path)), lines)

    def check(cands, when, must=False):
        o = w.call(load)
        if not o.ok:
            if must:
                raise Violation('refused', f'{when} the model is refused: {o!r}\n{o.tb}')
            w.note('refused', type(o.exc).__name__)
            return None
        for m in cands:
            if expect(m) == o.value:
                return m
        got = o.value
        raise Violation('wrong-model', f'{when} the path loads as {got[0]} with {len(got[1])} types: {got[1][:300]!r}; '
                                       f'complete models: ' + ' | '.join(f'{e[0]} with {len(e[1])} types: {e[1]!r}'
                                                                         for e in map(expect, cands)))
    how = p.weighted([(3, 'save'), (1, 'write_out'), (1, 'learn_vocab'), (1, 'stream')])
    w.probe(how)
    as_str = p.chance(1, 3)

    def save(m, to):
        to = str(to) if as_str else to
        if how == 'save':
            m['scheme'].save(to)
        elif how == 'write_out':
            codec.Type.write_out(m['scheme'].table, to, scheme=m['scheme'].name)
        else:
            m['scheme'].save(out=to)
    if how == 'learn_vocab':
        args = dict(min_freq=1, char_coverage=1.0, min_co_ev=2)
        table = w.must('learning', codec.learn_vocab, inp=list(new['lines']), level=new['level'], model=None,
                       vocab_size=new['size'], term_freqs=new['tfs'], **args)
        new['scheme'] = codec.REGISTRY[new['level']](table)

        def save(m, to):  # noqa
            codec.learn_vocab(inp=list(m['lines']), level=m['level'], model=to, vocab_size=m['size'],
                              term_freqs=m['tfs'], **args)
    w.sample = dict(level=new['level'], how=how, types=len(new['scheme'].table), over=old is not None)
    if how == 'stream':
        # a stream the caller opened, on a new path: complete when the caller could close it
        path = w.path('stream.model')

        def to_stream():
            with open(path, 'w', encoding='utf8') as f:
                new['scheme'].save(f)
        o = w.call(to_stream)
        if not o.ok:
            raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
        check([new], 'written to a stream', must=True)
        with open(path, encoding='utf8') as f:
            b = w.must('loading from a stream', lambda: codecutil.behaviour(codec.load_scheme(f), lines))
        if b != expect(new):
            raise Violation('wrong-model', f'read from a stream: {b!r}')
        return
    if p.chance(1, 2):
        w.fs.synced.clear()
    cands = [old] if old else []
    for k in range(1 + p.below(2)):
        dry = w.path('dry')
        if path.exists():
            gen.raw_write(dry, gen.raw_read(path))
        a = w.arm()
        w.must('saving', save, new, dry)
        w.disarm()
        size = len(gen.raw_read(dry))
        gen.raw_remove(dry)
        if w.fault_ch.chance(1, 2):
            arm_faults(w, a.n, size)
        else:
            arm_stop(w, a.n)
        o = w.crashable(save, new, path)
        a = w.disarm()
        w.fs.revive()
        w.nontrivial |= bool(a.fired)
        if o.ok and w.fault_ch.chance(1, 2):
            w.probe('stop-later')
            w.fs.power_loss()
        if not o.ok and not a.fired:
            raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
        w.sample.setdefault('faults', []).append([a.fired, 'ok' if o.ok else type(o.exc).__name__])
        if not o.ok:
            w.probe('error-reported')
        cands = [new] if o.ok else [new] + cands
        m = check(cands, f'after {o!r} ({a.fired} faults)', must=o.ok)
        if m is None:
            w.probe('refused')
            cands = []
        else:
            w.probe('got-new' if m is new else 'kept-old')
            cands = [m]
    last = new if p.chance(1, 2) else model(w, new['level'] if how == 'learn_vocab' else None)
    if how == 'learn_vocab' and last is not new:
        table = w.must('learning', codec.learn_vocab, inp=list(last['lines']), level=last['level'], model=None,
                       vocab_size=last['size'], term_freqs=last['tfs'], **args)
        last['scheme'] = codec.REGISTRY[last['level']](table)
    w.must('saving', save, last, path)
    check([last], 'saved without faults', must=True)
    if p.chance(1, 10):
        w.probe('other-process')
        r = other.ask(1 + p.below(2), 'model', path=str(path), lines=lines)
        if r.get('ok') != expect(last):
            raise Violation('wrong-model', f'in another process: {r!r}, saved {expect(last)!r}')
    if p.chance(1, 4) and last['level'] in ('word', 'char', 'bpe') and \
            max(t.level for t in last['scheme'].table) == last['scheme'].level:
        w.probe('old-format')
        gen.raw_write(w.path('old-format'), old_format(gen.raw_read(path)))
        b = w.must('loading a file without the name of the scheme', lambda: codecutil.behaviour(
            codec.load_scheme(w.path('old-format')), lines))
        if b != expect(last):
            raise Violation('wrong-model', f'from a file without the name of the scheme: {b!r}, saved {expect(last)!r}')
    if w.fs.locale and p.chance(1, 2):
        w.fs.locale = None
    # the codec that was saved is still the same
    again = w.must('loading', codec.load_scheme, path)
    w.must('saving what was loaded', again.save, w.path('copy'))
    b = w.must('loading', lambda: codecutil.behaviour(codec.load_scheme(w.path('copy')), lines))
    if b != expect(last):
        raise Violation('wrong-model', f'saved again after loading: {b!r}')
