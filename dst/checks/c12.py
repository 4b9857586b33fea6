"""C12: learning on a cluster can be interrupted and re-run."""
import gzip
import json
import sys

from .. import codecutil, gen, simspark
from ..core import Violation
from . import poolutil, sparkutil
from .faultutil import arm_faults, arm_stop

ID = 'C12'
NEEDS_SPARK = True
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('One evaluation runs the learning command of the cluster 1 to 4 times on the same drawn text and model path, for '
        'one or several encoding levels, the earlier runs stopped at a drawn storage operation (process, machine with '
        'loss of unsynced data, interrupt), by storage errors or by failing tasks, the last without faults; after '
        'every run that ends successfully the frequency file must hold the direct counts and the model be the one '
        'learned from them. Non-trivial: a fault fired in an earlier run.')
REAL = ['nlcodec.learn (main, parse_args)', 'nlcodec.term_freq (word_counts, write_stats)', 'nlcodec.spark.session',
        'nlcodec.codec.learn_vocab, Type.write_out, load_scheme', 'nlcodec.bpe', 'nlcodec.utils (IO, replacing)', 'gzip',
        'pyspark RDD operations in Python, cloudpickle']
STUB = ['the JVM side of Spark', 'durability and errors of storage operations', 'clock', 'os.urandom']
ASSUMES = ['Input and settings are the same in every run (existing frequency files are reused by design).',
           'Metadata operations (create, rename, unlink) are durable in the order they were made.',
           'Types of equal frequency may come in any order; the model must be the one learned from the frequency file '
           'the run left.', 'Two runs for one model do not overlap.']
MUST_HIT = ['thousands-of-types', 'many-types', 'long-words', 'word', 'char', 'bpe', 'class', 'byte', 'crash-before', 'crash-inside', 'crash-after', 'power-before',
            'power-inside', 'power-after', 'lost-write', 'interrupt', 'storage-error', 'job-failed', 'reused', 'counted',
            'twice', 'coverage', 'other-level', 'dedup', 'old-model', 'older-kept', 'cluster-options', 'interrupted']


def scenario(w):
    from nlcodec import codec, learn
    p = w.plan
    w.fs.bufsize = p.weighted([(2, None), (2, 64), (1, 300)])
    lex = gen.lexicon(p, 3 + p.below(5))
    more, extra = sparkutil.unusual_text(w, p)
    lex += more
    sizes = [-1, 4000] if extra else [-1, 80, 400] if more else [-1, 40, 400]
    levels = [p.pick(codecutil.LEVELS)]
    if p.chance(1, 4):
        levels.append(p.pick(codecutil.LEVELS))
    files, lines = [], []
    for i in range(1 + p.small(2)):
        ls = sparkutil.odd_lines(p, lex, p.below(8)) + ([' '.join(lex)] if i == 0 else [])
        ls, extra = ls + extra, []
        if 'class' in levels:
            # labels hold no tab
            ls = [l.replace('\t', ' ') for l in ls]
        gz = p.chance(1, 5)
        files.append(sparkutil.text_file(w, f'text{i}', ls, gz))
        lines += ls
    dedup = p.chance(1, 3)
    if dedup:
        w.probe('dedup')
    want_words, want_chars, want_n = sparkutil.counts(lines, dedup)
    want_labels = sparkutil.labels(lines, dedup)
    name = p.pick(['model', 'my.model', 'm.gz'])
    model = w.path('out', name)
    model.parent.mkdir()
    size, freq = p.pick(sizes), p.pick([1, 1, 2])
    cov = p.pick([1.0, 1.0, 0.9, 0.6])
    if cov < 1:
        w.probe('coverage')
    c = sparkutil.setup(w, 'none')
    old = None
    if p.chance(1, 4):
        w.probe('old-model')
        codecutil.learn(['an older model'], 'word').save(model)
        old = table_at(model)
    w.fs.synced.clear()

    asked = {}
    if p.chance(1, 4):
        w.probe('cluster-options')
        asked = {'spark.master': p.pick(['local[3]', 'spark://far:7077', 'yarn']),
                 'spark.driver.memory': p.pick(['1g', '17g'])}

    def run(level, to=model):
        argv = ['nlcodec-learn', '-i'] + [str(f) for f in files] + ['-m', str(to), '-vs', str(size), '-l', level, '-mf',
                                                                   str(freq), '-cv', str(cov), '-mce', '2']
        argv += ['--dedup'] if dedup else ['--no-dedup'] if p.chance(1, 2) else []
        if asked:
            argv += ['-spark', asked['spark.master'], '-dm', asked['spark.driver.memory']]
        argv0, sys.argv = sys.argv, argv
        k = len(c.sessions)
        try:
            return learn.main()
        finally:
            sys.argv = argv0
            for s in c.sessions[k:]:
                if asked and {o: s.options.get(o) for o in asked} != asked:
                    raise Violation('session', f'{asked} was asked for, it used {s.options}')

    def stats_of(to, level):
        if level == 'class':
            return to.with_suffix('.labelfreq.gz'), want_labels
        f = to.with_suffix('.charfreq.gz' if level == 'char' else '.wordfreq.gz')
        return f, (want_chars if level == 'char' else want_words)

    def check(to, level, what):
        """the run ended successfully"""
        f, want = stats_of(to, level)
        got = w.observe(f'{what}: the frequency file', lambda: read_stats(f))
        d = sparkutil.diff_counts(got[0], want)
        if d is not None or got[1] != want_n:
            raise Violation('counts', f'{what} ended successfully, but {f.name}: {d}; {got[1]} lines, there are {want_n}')
        ref = w.must('learning from the frequency file', codec.learn_vocab, inp=iter(got[2]), level=level, model=None,
                     vocab_size=size, min_freq=freq, term_freqs=True, char_coverage=cov, min_co_ev=2)
        t = w.observe(f'{what}: the model', lambda: table_at(to))
        if t != [codec.REGISTRY[level].__name__, codecutil.table_of(ref)]:
            raise Violation('model', f'{what}: the model is {t!r}, learned from the frequency file: '
                                     f'{codecutil.table_of(ref)!r}')
        return t
    # the same command elsewhere, without faults, to know its operations
    dry = w.path('dry', name)
    dry.parent.mkdir()
    a = w.arm()
    w.must('learning', run, levels[0], dry)
    w.disarm()
    check(dry, levels[0], 'a first run elsewhere')
    n_ops = a.n
    w.fs.synced.clear()
    n_runs = 1 + p.below(3)
    w.sample = dict(levels=levels, lines=len(lines), dedup=dedup, ops=n_ops, runs=[])
    for k in range(n_runs):
        level = p.pick(levels)
        w.probe(level)
        if level != levels[0]:
            w.probe('other-level')
        f, want = stats_of(model, level)
        there = f.exists()
        before = table_at(model) if model.exists() else None
        how = w.fault_ch.weighted([(4, 'stop'), (2, 'storage'), (2, 'cluster'), (2, 'interrupt')])
        c.faults = w.fault_ch.pick(['none', 'some']) if how != 'cluster' else 'fatal'
        if how == 'stop':
            a = arm_stop(w, n_ops)
        elif how == 'storage':
            a = arm_faults(w, n_ops, 30 * (len(want_words) + len(want_chars)) + 400)
        else:
            a = w.arm()
        if how == 'interrupt':
            c.faults = 'none' if c.faults == 'fatal' else c.faults
            poolutil.interrupt_driver(w)
        o = w.crashable(run, level)
        w.disarm()
        w.sched.interrupt = None
        interrupted, w.sched.was_interrupted = w.sched.was_interrupted, False
        if interrupted:
            poolutil.must_interrupt(w, o.exc)
        stopped = w.fs.frozen
        if w.fs.frozen or (a.crash_at is not None and a.fired):
            w.fs.frozen = True
            c.driver_gone()
            w.fs.revive()
        w.nontrivial |= bool(a.fired)
        w.sample['runs'].append([level, how, bool(a.fired), 'ok' if o.ok else type(o.exc).__name__])
        if o.ok:
            w.probe('reused' if there else 'counted')
            if k:
                w.probe('twice')
            check(model, level, f'run {k + 1}')
            continue
        if c.session is not None and not stopped:
            raise Violation('session', f'its session still runs after {o!r}')
        if not a.fired and not interrupted and not (how == 'cluster' and isinstance(o.exc, simspark.SparkJobFailed)):
            raise Violation('unexpected-error', f'run {k + 1}: {o!r}\n{o.tb}')
        w.probe('stopped' if interrupted else 'job-failed' if not a.fired else 'storage-error' if how == 'storage' else 'stopped')
        l = w.call(table_at, model)
        if l.ok and before is not None and l.value == before:
            w.probe('older-kept')
        elif l.ok:
            check(model, level, f'run {k + 1}, which failed with {o!r} but left a model that loads,')
        elif before is not None:
            raise Violation('lost', f'run {k + 1} failed with {o!r} and the older model is gone: {l!r}')
    c.faults = p.pick(['none', 'some'])
    level = p.pick(levels)
    there = stats_of(model, level)[0].exists()
    w.must('the last run', run, level)
    w.probe('reused' if there else 'counted')
    check(model, level, 'the last run')
    left = [x for x in sorted(gen.raw_tree(model.parent)) if x != '.']
    known = {name, model.with_suffix('.wordfreq.gz').name, model.with_suffix('.charfreq.gz').name,
             model.with_suffix('.labelfreq.gz').name}
    w.note('left', f'{[x for x in left if x not in known]}')


def table_at(path):
    from nlcodec import codec
    s = codec.load_scheme(path)
    return [type(s).__name__, codecutil.table_of(s.table)]


def read_stats(path):
    """({term: frequency}, number of lines, the lines) of a frequency file"""
    text = gzip.decompress(gen.raw_read(path)).decode('utf8')
    if not text.endswith('\n'):
        raise ValueError(f'cut short: {text[-40:]!r}')
    ls = [l + '\n' for l in text.split('\n')[:-1]]
    meta = json.loads(ls[0][1:])
    out = {}
    for l in ls[1:]:
        t, f = l.rstrip('\n').split('\t')
        if t in out:
            raise ValueError(f'{t!r} is there twice')
        out[t] = int(f)
    return out, meta.get('line_count'), ls
