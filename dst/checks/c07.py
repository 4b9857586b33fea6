"""C07: parallel encoding equals sequential encoding."""
from ..core import Violation
from .. import codecutil, gen, mappers
from . import poolutil

ID = 'C07'
RUNS = {'quick': 8000, 'thorough': 80000}
RULE = ('One evaluation encodes one drawn stream of lines in parallel (drawn codec, workers, lines per chunk, speeds '
        'of workers, reader and consumer, size of the pipes) under one drawn schedule of all threads and worker '
        'processes, and compares with encoding line by line. Non-trivial: at least two chunks, so that workers can '
        'overtake each other.')
REAL = ['nlcodec.codec (encode_parallel, parallel_map, all schemes)',
        'the multiprocessing.pool code of the standard library (Pool, its threads, imap, termination)', 'pickle']
STUB = ['scheduling of threads and processes', 'processes (isolated by pickling), pipes, locks, condition variables',
        'clock and sleep']
ASSUMES = ['Worker processes are not killed from outside.',
           'A terminated worker keeps the locks of pipes it holds, and leaves messages it moved in part.']
MUST_HIT = ['large-vocabulary', 'alike', 'endless-input', 'pipe-full', 'whole-input', 'many-chunks', 'abandoned', 'dropped', 'exhausted', 'no-lines', 'encode_parallel', 'parallel_map',
            'lines>1000', 'consumer-raised', 'two-streams', 'word', 'char', 'bpe', 'byte', 'class', 'long-pieces', 'twins',
            'blanks-around', 'reserved-names']


def scenario(w):
    from nlcodec import codec
    p = poolutil.setup(w)
    level = p.pick(codecutil.LEVELS)
    w.probe(level)
    ls, lex = codecutil.corpus(p, labels=level == 'class')
    if level == 'bpe' and p.chance(1, 30):
        w.probe('long-pieces')
        ls += [codecutil.long_word(p, 1000 + p.below(2500))] * 3
    source = ls
    if level != 'byte' and p.chance(1, 40):
        w.probe('large-vocabulary')
        source, some = codecutil.large_vocabulary(p, level)
        source, ls = source + ls, ls + some
    scheme = w.must('learning', codecutil.learn, source, level,
                    vocab_size=60 if level == 'bpe' and source is ls and p.chance(1, 2) else -1)
    if level == 'bpe' and p.chance(1, 8):
        w.probe('twins')
        scheme = codecutil.with_twins(p, scheme)
    how = p.weighted([(4, 'parallel_map'), (2, 'encode_parallel')])
    if how == 'encode_parallel':
        n = p.weighted([(4, 3), (4, 8), (4, 21), (1, 1000), (2, 1001), (1, 2003), (1, 999)])
        chunk = 1000
    else:
        n = p.pick([0, 1, 2, 3, 5, 8, 13, 21])
        chunk = 1 + p.small(8)
    if n == 0:
        w.probe('no-lines')
    if level not in ('class', 'byte') and p.chance(1, 4):
        w.probe('alike')
        ls = ls + gen.alike(p, lex)
    pool_ = [l for l in ls] + ([] if level == 'class' else gen.lines(p, 4, lex + ['zzz', 'ab']))
    if level != 'class' and p.chance(1, 5):
        w.probe('blanks-around')
        pool_ += [p.pick([' ', '\t', '  ', '']) + l + p.pick([' ', '\t ', '']) for l in pool_[-6:]]
    if level != 'class' and p.chance(1, 5):
        w.probe('reserved-names')
        pool_ += [f'{p.pick(lex)} {r} {p.pick(lex)}{r}' for r in ('<s>', '</s>', '<pad>', '<unk>', '<cls>')]
    if n < 100:
        lines = [p.pick(pool_) for _ in range(n)]
    else:
        lines = [pool_[(i * 7 + i // 13) % len(pool_)] for i in range(n)]
        w.probe('lines>1000')
    n_cpus = 2 + p.small(4)
    want = codecutil.one_by_one(scheme, lines)
    w.probe(how)
    consume = p.below(4)
    end = p.weighted([(6, 'all'), (2, 'close'), (1, 'drop'), (1, 'throw')])
    stop_at = p.below(n + 1) if end != 'all' else None
    w.sample = dict(level=level, how=how, lines=n, chunk=chunk, workers=n_cpus, end=end, stop_at=stop_at,
                    policy=str(w.sched.policy))
    if n > chunk:
        w.probe('many-chunks')
        w.nontrivial = True

    endless = stop_at is not None and 0 < n < 100 and p.chance(1, 3)
    mapper = mappers.Slow(scheme.encode) if p.chance(1, 2) else scheme.encode

    def start(stream):
        if how == 'encode_parallel':
            return scheme.encode_parallel(stream, n_cpus=n_cpus)
        return scheme.parallel_map(mapper, stream, n_cpus=n_cpus, chunksize=chunk)

    def run(lines, want, stop_at):
        got = []
        it = iter(w.must('starting', start, poolutil.feed(w, lines, endless=endless and stop_at is not None)))
        while True:
            if stop_at is not None and len(got) >= stop_at:
                break
            o = w.call(next, it, StopIteration)
            if not o.ok:
                raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
            if o.value is StopIteration:
                break
            got.append(o.value)
            poolutil.pause(w, consume, len(got))
        if stop_at is None:
            w.probe('exhausted')
        elif end == 'close':
            w.probe('abandoned')
            w.must('closing', getattr(it, 'close', lambda: None))
        elif end == 'drop':
            w.probe('dropped')
            it = None
        else:
            w.probe('consumer-raised')
            o = w.call(it.throw, mappers.Boom('consumer'))
            if o.ok or not isinstance(o.exc, mappers.Boom):
                raise Violation('unexpected-error', f'an exception of the consumer became {o!r}')
        del it
        poolutil.released(w, f'after {end}')
        exp = want if stop_at is None else want[:stop_at]
        if stop_at is not None and len(got) < stop_at and len(got) < len(want):
            raise Violation('lost', f'{len(got)} results of {len(want)}')
        if got != exp[:len(got)] or (stop_at is None and len(got) != len(want)):
            k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
            raise Violation('differs', f'result {k} of {len(got)} (expected {len(want)}): '
                                       f'{got[k:k + 2]!r} instead of {exp[k:k + 2]!r}')
    run(lines, want, stop_at)
    if p.chance(1, 6):
        w.probe('two-streams')
        run(lines[::-1], want[::-1], None)
