"""C15: stream encoding and decoding are faithful line by line."""
import errno
import gc

from .. import cli, codecutil, gen
from ..core import Violation
from ..fs import SimInterrupt
from .faultutil import arm_faults

ID = 'C15'
RUNS = {'quick': 20000, 'thorough': 250000}
RULE = ('One evaluation runs the command line program on drawn lines of one scheme: encode and decode one after the '
        'other over files or standard streams, or as two processes of a pipeline under the simulated scheduler, with '
        'drawn read and write portions, errors of reading and writing (I/O error, full disk, broken pipe), interrupts '
        'and a killed or leaving consumer. Non-trivial: a portion was cut, a fault fired or two processes ran.')
REAL = ['nlcodec.__main__ (main, parse_args, write_lines, the __main__ guard)', 'nlcodec.codec (encode, decode, load_scheme, learn_vocab, '
        'all schemes)', 'argparse, io text and buffer layers']
STUB = ['raw standard streams and pipes', 'storage of -i, -o and -m files', 'process exit (flush and exit status)']
ASSUMES = ['Lines to encode hold no carriage return (text mode treats it as a line break) and no U+2581 (the space mark).',
           'Labels of classes hold no white space when strings are decoded (they are split at white space).']
MUST_HIT = ['codes-apart', 'many-lines', 'large-vocabulary', 'pieces-over-words', 'crlf', 'alike', 'drawn-codes', 'word', 'char', 'bpe', 'byte', 'class', 'pipeline', 'files', 'streams', 'indices', 'strings', 'short-read',
            'short-write', 'ENOSPC-quota', 'output-ENOSPC', 'output-EPIPE', 'input-OSError', 'interrupt',
            'failure-reported', 'round-trip', 'no-last-break', 'learn', 'as-program', 'broken-pipe', 'killed', 'oov', 'empty-input']

SPECIAL = ['  lead', 'trail  ', 'a\tb', 'a\x0bb\x0cc', 'x\x85y', 'l\u2028s', 'n\xa0b', '\u3000i', '\ufeffbom', 'e\u0301',
           '\U0001f600\U0001f468\u200d\U0001f469', '<unk> <s> </s> <pad>', '10 20 ff', '0', '-1', '#{', 'ß', '中文字']


def expected(scheme, lines, indices):
    if indices:
        return codecutil.one_by_one(scheme, lines, lambda s, l: ' '.join(str(int(i)) for i in s.encode(l)))
    return codecutil.one_by_one(scheme, lines, lambda s, l: ' '.join(s.encode_str(l)))


def drawn_codes(w, level, ref, indices):
    """(a line of codes, the text they spell): any codes, as a program that makes text gives them"""
    p = w.plan
    n = p.pick([0, 1, 2, 5, 12])
    ok = [i for i, name in enumerate(ref.names) if level != 'byte' or name not in ('a', 'd')]    # no line breaks
    if level == 'byte' and p.chance(1, 2):
        ok = [i for i in ok if i >= 0x7e or ref.names[i] in ref.reserved]
    if level != 'byte' and p.chance(1, 2):
        ok = [i for i in ok if ref.names[i] in ref.reserved] * 3 + ok or ok
    ids = [p.pick(ok) for _ in range(n)]
    names = [ref.names[i] for i in ids]
    if not indices and level in ('word', 'char') and p.chance(1, 3):
        names.append('zq')
    if any(len(x.split()) != 1 for x in names):
        return '', ref.text([])
    gap, end = ' ', ''
    if p.chance(1, 4):
        w.probe('codes-apart')
        gap, end = p.pick(['\t', '  ', ' \t', ' ']), p.pick(['', ' ', '\t'])
    return end + gap.join(map(str, ids) if indices else names) + end, ref.text(names)


def text(lines, last_break=True):
    t = '\n'.join(lines)
    if lines and (last_break or not lines[-1]):
        t += '\n'
    return t.encode()


def known(level, scheme, line):
    names = scheme.str_to_idx
    if level == 'byte':
        return True
    if level == 'class':
        return line.strip() in names
    if level == 'word':
        return all(x in names for x in line.split())
    return all(ch in names for ch in '▁'.join(line.split()))


def scenario(w):
    from nlcodec import codec
    from nlcodec.__main__ import main
    p = w.plan
    level = p.pick(codecutil.LEVELS)
    w.probe(level)
    indices = p.chance(1, 2)
    w.probe('indices' if indices else 'strings')
    if level == 'class':
        ls, _ = codecutil.corpus(p, 2 + p.below(20), labels=True)
        if indices and p.chance(1, 2):
            ls += ['two words', ' x y  z ', 'u\u2028v', 'n\x85k\x0cf']
    else:
        ls, _ = codecutil.corpus(p, 2 + p.below(30))
        for _ in range(p.below(6)):
            ls.insert(p.below(len(ls) + 1), p.pick(SPECIAL))
        if p.chance(1, 4):
            ls += [l * (1 + p.below(40)) for l in ls[:3]]
        if p.chance(1, 8):
            w.probe('alike')
            ls += gen.alike(p, [x for l in ls[:4] for x in l.split()] or ['a', 'b'])
    kw = dict(vocab_size=-1 if level != 'bpe' else 400, min_freq=1, char_coverage=1.0, min_co_ev=2)
    source = list(ls)
    if level != 'byte' and p.chance(1, 60):
        w.probe('large-vocabulary')
        large, some = codecutil.large_vocabulary(p, level)
        source += large
        ls += some
        kw['vocab_size'] = -1
    if level == 'bpe' and p.chance(1, 5):
        # words with the space mark within them make pieces that go beyond one word
        pairs = [(a, b) for l in ls for a, b in zip(l.split(), l.split()[1:])]
        if pairs:
            w.probe('pieces-over-words')
            source += [' '.join(['▁'.join(p.pick(pairs)) for _ in range(2)])] * 4
    if p.chance(1, 3):
        w.probe('as-program')
        main = cli.program('nlcodec.__main__')
    mpath = w.path('model')
    streams = [p.pick([16, 64, 512, 8192]) for _ in range(4)]
    w.fs.bufsize = p.weighted([(2, None), (1, 32), (1, 200)])

    with cli.Session():
        if p.chance(1, 8):
            w.probe('learn')
            cpath = w.path('corpus')
            gen.raw_write(cpath, text(source, p.chance(1, 2)))
            ok, err = cli.run(w, main, ['nlcodec', 'learn', '-i', str(cpath), '-m', str(mpath), '-l', level, '-vs',
                                        str(kw['vocab_size']), '-mf', '1', '-cv', '1.0', '-mce', '2'],
                              cli.text_in(cli.RawIn(w, b''), 64), cli.text_out(cli.RawOut(w, cli.Chan(w)), 64))
            if not ok:
                raise Violation('unexpected-error', f'learn failed: {err!r}')
        else:
            codecutil.learn(source, level, **kw).save(mpath)
        scheme = w.must('loading the model', codec.load_scheme, mpath)
        want_table = codecutil.table_of(codec.learn_vocab(inp=source, level=level, model=None, **kw))
        if codecutil.table_of(scheme.table) != want_table:
            raise Violation('wrong-model', 'the learned model is another one')

        # the lines to encode
        n = p.below(4) if p.chance(1, 6) else p.below(len(ls) + 6)
        lines = [p.pick(ls) for _ in range(n)]
        if p.chance(1, 150):
            w.probe('many-lines')
            lines += [p.pick(ls) for _ in range(20)]
            lines = [x for x in lines if len(x) < 80] or ['a']
            lines = [lines[(k * 7 + k // 13) % len(lines)] for k in range(p.pick([150, 300, 1100]) + p.below(9))]
        if level != 'class' and p.chance(1, 3):
            w.probe('oov')
            lines += [p.pick(SPECIAL), 'zzq@ ' + p.pick(ls)]
            lines = p.shuffle(lines) if len(lines) < 100 else lines[-2:] + lines[:-2]
        if level != 'class' and p.chance(1, 4):
            lines += ['', '   ', '']
        last_break = not p.chance(1, 4)
        if not last_break and lines and lines[-1]:
            w.probe('no-last-break')
        if not lines:
            w.probe('empty-input')
        want = w.must('encoding the lines one by one', expected, scheme, lines, indices)
        ref = codecutil.Reference(level, scheme.table)
        for l, e in zip(lines, want):
            r = ' '.join(map(str, ref.ids(l)) if indices else ref.pieces(l))
            if e != r:
                raise Violation('code', f'{l!r} is encoded to {e!r}, by definition to {r!r}')
        back = []       # (exact text or None) of each decoded line
        for l in lines:
            if level == 'byte':
                back.append(l)
            elif level == 'class':
                back.append(l.strip())
            elif known(level, scheme, l) or (not indices and level in ('word', 'char')):
                back.append(' '.join(l.split()))
            elif ' ' in l.strip() and level == 'class':
                back.append(None)
            else:
                back.append(ref.text([ref.names[i] for i in ref.ids(l)] if indices else ref.pieces(l)))
        flags = ['-m', str(mpath)] + (['-idx'] if indices else [])
        w.sample = dict(level=level, indices=indices, lines=len(lines))
        data = text(lines, last_break)
        if p.chance(1, 8) and b'\r' not in data:
            w.probe('crlf')
            data = data.replace(b'\n', b'\r\n')
        if p.chance(1, 4):
            pipeline(w, main, flags, data, want, back, streams)
        else:
            more = [drawn_codes(w, level, ref, indices) for _ in range(p.below(5) if p.chance(1, 2) else 0)]
            chain(w, main, flags, data, want, back, streams, more)


def split_lines(raw):
    """the lines of a complete output"""
    t = raw.decode()
    if t and not t.endswith('\n'):
        raise Violation('output', f'the output does not end in a line break: {t[-60:]!r}')
    return t.split('\n')[:-1]


def check_encoded(raw, want, where):
    try:
        got = split_lines(raw)
    except UnicodeDecodeError as e:
        raise Violation('output', f'{where}: {e}')
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation('encoded', f'{where}: {len(got)} lines for {len(want)}; first different is line {i}: '
                                   f'{got[i:i + 1]} and {want[i:i + 1]}')


def check_decoded(w, raw, back, where):
    try:
        got = split_lines(raw)
    except UnicodeDecodeError as e:
        raise Violation('output', f'{where}: {e}')
    if len(got) != len(back):
        raise Violation('decoded', f'{where}: {len(got)} lines for {len(back)}')
    for i, (a, b) in enumerate(zip(got, back)):
        if b is not None and a != b:
            raise Violation('decoded', f'{where}: line {i} is {a!r}, it was {b!r}')
        w.probe('round-trip')


def chain(w, main, flags, data, want, back, sizes, more):
    p, f = w.plan, w.fault_ch
    enc = process(w, main, 'encode', flags, data, sizes[:2], lambda raw: check_encoded(raw, want, 'encode'))
    if enc is None:
        enc = text(want)
    if more:
        w.probe('drawn-codes')
        if enc and not enc.endswith(b'\n'):
            enc += b'\n'
        enc += text([c for c, _ in more])
        back = back + [t for _, t in more]
        want = want + [c for c, _ in more]
    if not p.chance(1, 3) and enc.endswith(b'\n') and want and want[-1]:
        enc = enc[:-1]
    process(w, main, 'decode', flags, enc, sizes[2:], lambda raw: check_decoded(w, raw, back, 'decode'))


def process(w, main, task, flags, data, sizes, check):
    """one process, over files or streams, perhaps with faults; its complete output or None"""
    p, f = w.plan, w.fault_ch
    inp, outp = w.path(task + '.in'), w.path(task + '.out')
    argv = ['nlcodec', task] + flags
    faulty = p.chance(1, 2)
    short = f.below(3)
    chan = cli.Chan(w)
    use_in, use_out = p.chance(1, 2), p.chance(1, 2)
    w.probe('files' if use_in and use_out else 'streams')
    raw_in = cli.RawIn(w, data, short=short)
    raw_out = cli.RawOut(w, chan, short=f.below(3))
    if use_in:
        gen.raw_write(inp, data)
        argv += ['-i', str(inp)]
        raw_in.data = b''
    if use_out:
        if p.chance(1, 2):
            gen.raw_write(outp, b'what was here before\n' * 3)
        argv += ['-o', str(outp)]
    kind = f.below(4) if faulty else -1
    total = len(data)
    if kind == 0:        # storage
        a = arm_faults(w, 6 + total // max(1, (w.fs.bufsize or 8192) // 2), 20 + total * 2)
        a.read_short = f.below(3)
    elif kind == 1:      # an interrupt
        if use_in or use_out:
            w.arm(interrupt_at=f.below(8 + total // (w.fs.bufsize or 8192)), read_short=f.below(3))
        else:
            raw_in.err_at, raw_in.exc = f.below(total + 1), SimInterrupt()
    elif kind == 2 and not use_out:
        e = f.pick([errno.ENOSPC, errno.EPIPE, errno.EIO])
        raw_out.room = f.below(2 * total + 2)
        raw_out.exc = OSError(e, 'output')
    elif kind in (2, 3) and not use_in:
        raw_in.err_at, raw_in.exc = f.below(total + 1), OSError(errno.EIO, 'input')
    else:
        w.arm(read_short=short, short_den=f.below(3))
    n0 = sum(w.faults.values())
    ok, err = cli.run(w, main, argv, cli.text_in(raw_in, sizes[0]), cli.text_out(raw_out, sizes[1]))
    gc.collect(1)       # files the program never closed are closed at exit; errors are not seen
    a = w.disarm()
    fired = raw_in.fired or raw_out.fired or bool(a and a.fired)
    w.nontrivial |= fired or sum(w.faults.values()) > n0
    if isinstance(raw_in.exc, SimInterrupt) and raw_in.fired:
        w.fault('interrupt')
    out = gen.raw_read(outp) if use_out and outp.exists() else bytes(chan.total) if not use_out else b''
    if not ok:
        if not fired:
            raise Violation('unexpected-error', f'{task} failed without any fault: {err!r}')
        w.probe('failure-reported')
        return None
    if raw_out.gone:       # nobody is left to miss anything
        return None
    try:
        check(out)
    except Violation as v:
        if fired:
            raise Violation('false-success', f'{task} reported success although {w.faults}: {v.msg}')
        raise
    if use_out and chan.total:
        raise Violation('output', f'{task} -o wrote {bytes(chan.total)[:80]!r} to standard output')
    return out


def pipeline(w, main, flags, data, want, back, sizes):
    """encode | decode as two processes at the same time"""
    p, f = w.plan, w.fault_ch
    w.probe('pipeline')
    w.nontrivial = True
    s = w.scheduler()
    long = sum(map(len, want)) > 4000       # else there would be too many steps
    link = cli.Chan(w, cap=p.pick([4096, 64, 1, 300] if not long else [4096, 1500]))
    end = cli.Chan(w, cap=p.pick([None, 100 if not long else 1500]))
    res = {}
    fault = f.weighted([(3, None), (1, 'leave'), (1, 'kill'), (1, 'input')])
    rin = cli.RawIn(w, data, short=f.below(3), slow=p.chance(1, 3))
    if fault == 'input':
        rin.err_at, rin.exc = f.below(len(data) + 1), OSError(errno.EIO, 'input')

    def proc(name, raw_in, raw_out, k):
        def body():
            i, o = cli.text_in(raw_in, sizes[k]), cli.text_out(raw_out, sizes[k + 1])
            res[name] = cli.run(w, main, ['nlcodec', name] + flags, i, o)
        return body
    rin2 = cli.RawIn(w, chan=link, short=f.below(3), slow=p.chance(1, 3))
    pe, pd = s.new_proc('encode'), s.new_proc('decode')

    def ended(raw_in_chan, out_chan):
        out_chan.eof = True
        out_chan.wake()
        if raw_in_chan:
            raw_in_chan.broken = True
            raw_in_chan.wake()
    pe.on_exit = [lambda: ended(None, link)]
    pd.on_exit = [lambda: ended(link, end)]
    out1, out2 = cli.RawOut(w, link, short=f.below(3)), cli.RawOut(w, end, short=f.below(3))
    te = s.spawn(proc('encode', rin, out1, 0), 'encode', pe)
    td = s.spawn(proc('decode', rin2, out2, 2), 'decode', pd)
    got = bytearray()
    upto = f.below(max(1, len(data))) if fault == 'leave' else None
    kill_after = f.below(40) if fault == 'kill' else None
    steps = 0
    while True:
        steps += 1
        if kill_after is not None and steps > kill_after and td in s.tasks:
            w.fault('killed', 'decode')
            s.kill_proc(pd)
            kill_after = None
        if end.cap is not None and end.buf:
            got += end.buf
            end.buf.clear()
            end.wake()
        if upto is not None and len(end.total) > upto and not end.broken:
            w.fault('consumer-left')
            end.broken = True
            end.wake()
        if te not in s.tasks and td not in s.tasks:
            break
        s.sleep(0.0005)
    for name in ('encode', 'decode'):
        if name in res and not res[name][0]:
            w.probe('failure-reported')
    n_fired = sum(w.faults[k] for k in ('killed', 'consumer-left', 'broken-pipe')) + rin.fired
    if 'encode' in res and res['encode'][0]:
        if rin.fired:
            raise Violation('false-success', 'encode reported success although its input failed')
        if not out1.gone:     # else nobody is left to miss anything
            check_encoded(bytes(link.total), want, 'encode in a pipeline')
    elif not n_fired:
        raise Violation('unexpected-error', f'encode failed without any fault: {res.get("encode")!r}')
    if 'decode' in res and res['decode'][0]:
        # it saw the end of what encode wrote, complete or not
        if res.get('encode', (False,))[0] and not out2.gone:
            check_decoded(w, bytes(end.total), back, 'decode in a pipeline')
    elif not n_fired:
        raise Violation('unexpected-error', f'decode failed without any fault: {res.get("decode")!r}')
