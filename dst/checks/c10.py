"""C10: distributed frequency counts are exact."""
import sys

from .. import codecutil, gen, simspark
from ..core import Violation
from . import poolutil, sparkutil
from .faultutil import arm_faults

ID = 'C10'
NEEDS_SPARK = True
RUNS = {'quick': 6000, 'thorough': 100000}
RULE = ('One evaluation counts the words, characters and lines of 1 to 3 drawn files (repeated lines within and across '
        'files, odd words and white space, empty files, gzip) on a simulated cluster with drawn partitions, slots, '
        'task order, arrival order after shuffles, lost, failing, stalled and repeated tasks and lost shuffle files, '
        'possibly interrupted, through word_counts or the command with its frequency files under storage errors; compared with direct '
        'counts. Non-trivial: more than one task ran and a fault fired, or several partitions.')
REAL = ['nlcodec.term_freq (word_counts, write_stats, main, parse_args)', 'nlcodec.spark.get_session',
        'nlcodec.codec.WordScheme.read_term_freqs', 'pyspark RDD operations in Python (map, reduceByKey, shuffle '
        'serialisation, collectAsMap), cloudpickle']
STUB = ['the JVM side of Spark: reading text, placing and retrying tasks, shuffles, de-duplication, union',
        'storage of the frequency files', 'clock']
ASSUMES = ['Lines hold no carriage return, and no byte order mark at the start of a file (Spark strips both).',
           'A word is a maximal run of non-white-space characters.']
MUST_HIT = ['thousands-of-types', 'big-counts', 'many-types', 'long-words', 'cluster-none', 'cluster-some', 'cluster-fatal', 'dedup', 'all-lines', 'gz', 'empty-file', 'many-files',
            'task-killed', 'task-error', 'task-stalled', 'task-run-twice', 'task-replaced', 'task-retried',
            'shuffle-files-lost', 'job-failed', 'command', 'storage-failed', 'own-session', 'given-session', 'interrupted']


def scenario(w):
    from nlcodec import term_freq
    from nlcodec.codec import WordScheme
    p = w.plan
    lex = gen.lexicon(p, 2 + p.below(6))
    more, extra = sparkutil.unusual_text(w, p)
    lex += more
    files, lines = [], []
    pool = sparkutil.odd_lines(p, lex, 2 + p.below(8))
    for i in range(1 + p.small(2)):
        ls = [p.pick(pool) for _ in range(p.below(5))] + sparkutil.odd_lines(p, lex, p.small(10))
        if p.chance(1, 8):
            ls = []
            w.probe('empty-file')
        ls, extra = ls + extra, []
        gz = p.chance(1, 4)
        if gz:
            w.probe('gz')
        files.append(sparkutil.text_file(w, f'text{i}', ls, gz, p.chance(1, 2)))
        lines += ls
    if len(files) > 1:
        w.probe('many-files')
        if p.chance(1, 8):
            files.append(files[0])       # a file given twice counts twice
            lines += [l for l in read_back(files[0])]
    dedup = p.chance(1, 2)
    w.probe('dedup' if dedup else 'all-lines')
    words, chars, n = sparkutil.counts(lines, dedup)
    mode = p.weighted([(3, 'given'), (2, 'own'), (3, 'command')])
    c = sparkutil.setup(w)
    w.sample = dict(files=len(files), lines=len(lines), dedup=dedup, mode=mode, cluster=c.faults)
    if w.fault_ch.chance(1, 8):
        poolutil.interrupt_driver(w)
    if mode == 'command':
        return command(w, c, files, dedup, words, chars, n)
    if mode == 'given':
        w.probe('given-session')
        sess = simspark.session(w)
        o = w.crashable(term_freq.word_counts, files, dedup=dedup, spark=sess)
        if sess.stopped or c.session is not sess or len(c.sessions) > 1:
            raise Violation('session', 'the session of the caller was stopped')
    else:
        w.probe('own-session')
        o = w.crashable(term_freq.word_counts, files, dedup=dedup)
        if c.session is not None:
            raise Violation('session', 'its own session still runs')
    w.nontrivial = c.tasks > 2
    w.sched.interrupt = None
    if w.sched.was_interrupted:
        poolutil.must_interrupt(w, o.exc)
        if mode == 'own':
            return
        c.faults = 'none'
        o = w.call(term_freq.word_counts, files, dedup=dedup, spark=sess)
    if not o.ok:
        failed(w, c, o)
        return
    got = w.observe('the counts', lambda: (dict(o.value[0]), dict(o.value[1]), int(o.value[2])))
    compare(got, (words, chars, n), 'word_counts')
    out = w.path('freqs')
    big = {t: f * p.pick([1, 10 ** 6, 2 ** 31 + 1, 2 ** 53 + 1]) + p.below(10 ** 6) for t, f in got[0].items()}
    if any(f > 10 ** 6 for f in big.values()):
        w.probe('big-counts')       # as a large corpus would have
    for kind, stats in (('words', got[0]), ('characters', got[1]), ('words of a large corpus', big)):
        with open(out, 'w', encoding='utf8') as f:
            w.must('writing the frequencies', term_freq.write_stats, stats, f, line_count=got[2])
        with open(out, encoding='utf8') as f:
            back, nl = w.must('reading the frequencies', WordScheme.read_term_freqs, f)
        d = sparkutil.diff_counts(back, stats)
        order = [int(l.rsplit(b'\t', 1)[1]) for l in gen.raw_read(out).split(b'\n')[1:-1]]
        if order != sorted(order, reverse=True):
            raise Violation('order', f'the frequency file of {kind} is not in decreasing frequency: {order}')
        if d is not None or nl != got[2]:
            raise Violation('round-trip', f'{kind} read back from the frequency file: {d}; lines {nl}, were {got[2]}')


def read_back(path):
    from ..simspark import read_lines
    return read_lines(str(path))


def failed(w, c, o):
    if not isinstance(o.exc, simspark.SparkJobFailed) or c.faults != 'fatal':
        raise Violation('unexpected-error', f'{o!r}\n{o.tb}')
    w.probe('job-failed')


def compare(got, want, what):
    for name, g, e in zip(('words', 'characters'), got, want):
        d = sparkutil.diff_counts(g, e)
        if d is not None:
            raise Violation('counts', f'{what}: {name}: {d}')
    if got[2] != want[2]:
        raise Violation('lines', f'{what}: {got[2]} lines counted, there are {want[2]}')


def command(w, c, files, dedup, words, chars, n):
    from nlcodec import term_freq
    from nlcodec.codec import WordScheme
    p = w.plan
    w.probe('command')
    w.fs.bufsize = p.weighted([(2, None), (1, 64), (1, 300)])
    outs = {}
    argv = ['term-freq', '-i'] + [str(f) for f in files]
    which = p.pick([('-wf', '-cf'), ('-wf',), ('-cf',)])
    for flag in which:
        outs[flag] = w.path('out' + flag)
        argv += [flag, str(outs[flag])]
        if p.chance(1, 3):
            gen.raw_write(outs[flag], b'older\t1\n' * 5)
    argv.append('-dd' if dedup else '-ndd')
    fault = p.chance(1, 3)
    if fault:
        arm_faults(w, 4 + 12 * len(words) // (w.fs.bufsize or 8192), 40 + 12 * len(words))
    else:
        w.arm(short_den=w.fault_ch.below(3))
    argv0, sys.argv = sys.argv, argv
    files_open = []
    real = term_freq.parse_args

    def parse():
        a = real()
        files_open.extend(f for f in (a.word_freqs, a.char_freqs) if f is not None)
        return a
    try:
        o = w.crashable(lambda: term_freq.main(parse()))
    finally:
        sys.argv = argv0
    a = w.disarm()
    w.nontrivial = c.tasks > 2
    w.sched.interrupt = None
    if w.sched.was_interrupted:
        poolutil.must_interrupt(w, o.exc)
    if c.session is not None:
        raise Violation('session', f'its own session still runs after {o!r}')
    if not o.ok:
        if w.sched.was_interrupted:
            pass
        elif not a.fired:
            failed(w, c, o)
        else:
            w.probe('storage-failed')
        for f in files_open:
            w.call(f.close)
        return
    # errors at exit are not seen, so all must be there by now
    data = {flag: gen.raw_read(path) for flag, path in outs.items()}
    for f in files_open:
        w.call(f.close)
    for flag, want in (('-wf', words), ('-cf', chars)):
        if flag not in outs:
            continue
        def parse(b=data[flag]):
            return WordScheme.read_term_freqs(iter(
                [l + "\n" for l in b.decode("utf8").split("\n")[:-1]]))
        if not data[flag].endswith(b'\n'):
            raise Violation('file', f'{flag} file is cut: {data[flag][-60:]!r}')
        got, nl = w.observe(f'the {flag} file', parse)
        d = sparkutil.diff_counts(got, want)
        if d is not None or nl != n:
            raise Violation('file', f'{flag} file: {d}; {nl} lines, there are {n}; faults: {dict(w.faults)}')
