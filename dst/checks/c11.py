"""C11: parallel text stays aligned through distributed encoding."""
import sys

from .. import codecutil, gen, simspark
from ..core import Violation
from . import poolutil, sparkutil

ID = 'C11'
NEEDS_SPARK = True
RUNS = {'quick': 5000, 'thorough': 80000}
RULE = ('One evaluation encodes two drawn text files (repeated, empty and blank lines, odd words, differing lengths of '
        'the files in part of the runs, plain or gzip) with drawn models into a database, by the command or by its '
        'functions with tokenizers returning lists or arrays, truncating or dropping at drawn limits, with drawn '
        'numbers of parts, on a simulated cluster with drawn partitions, task order, retries, lost executors and '
        'repeated tasks, possibly interrupted; the database is compared with the encodings of the lines. Non-trivial: several tasks ran.')
REAL = ['nlcodec.bitextdb (main, parse_args)', 'nlcodec.spark (session, read_raw_bitext, read_raw_bitext_tok, rdd_as_db)',
        'nlcodec.codec (load_scheme, encode)', 'nlcodec.db.core', 'pyspark RDD operations in Python (zipWithIndex, '
        'take), Row, schema inference, cloudpickle']
STUB = ['the JVM side of Spark: reading text, placing and retrying tasks, shuffles, joins', 'storage', 'clock']
ASSUMES = ['Lines hold no carriage return, and no byte order mark at the start of a file (Spark strips both).',
           'If no pair remains, the command may refuse instead of storing a database without records.']
MUST_HIT = ['labels', 'reserved-use', 'many-lines', 'long-lines', 'cluster-none', 'cluster-some', 'cluster-fatal', 'command', 'functions', 'arrays', 'truncate', 'drop', 'cut',
            'dropped', 'at-limit', 'empty-side', 'different-length', 'refused', 'none-left', 'gz', 'parts', 'two-models',
            'over-old', 'job-failed', 'task-killed', 'task-error', 'task-run-twice', 'task-replaced', 'same-lines', 'column-names', 'cluster-options',
            'interrupted']


def scenario(w):
    from nlcodec import bitextdb, codec, spark
    from nlcodec.db.core import MultipartDb
    p = w.plan
    lex = gen.lexicon(p, 3 + p.below(5))
    n = 1 + p.small(24)
    src = sparkutil.odd_lines(p, lex, n)
    tgt = sparkutil.odd_lines(p, lex, n)
    if p.chance(1, 25):
        # lines longer than limits usually are
        w.probe('long-lines')
        for ls in (src, tgt):
            ls[p.below(n)] = ' '.join([p.pick(lex) for _ in range(7)] * p.pick([40, 60, 90]))
    if p.chance(1, 50):
        w.probe('many-lines')
        pairs = list(zip(src, tgt)) + [(p.pick(lex), p.pick(lex))]
        n = p.pick([110, 270, 1100]) + p.below(9)
        pairs = [pairs[(k * 7 + k // 13) % len(pairs)] for k in range(n)]
        src, tgt = [a for a, _ in pairs], [b for _, b in pairs]
    for k in range(n):
        if p.chance(1, 10):
            (src if p.chance(1, 2) else tgt)[k] = ''
    if p.chance(1, 6):
        w.probe('same-lines')
        src = [src[0]] * n
    same = True
    if p.chance(1, 8):
        same = False
        w.probe('different-length')
        side = src if p.chance(1, 2) else tgt
        k = 1 + p.below(2)
        if p.chance(1, 2) and len(side) > k:
            cut = slice(0, k) if p.chance(1, 2) else slice(len(side) - k, None)
            del side[cut]
        else:
            side += ['x y'] * k
    levels = ['word', 'char', 'bpe', 'byte']
    models, schemes = [], []
    classes = p.weighted([(9, ()), (1, (0,)), (1, (1,)), (1, (0, 1))])
    for k in classes:
        # labels: the first has the code 0, an unknown one -1
        w.probe('labels')
        (src, tgt)[k][:] = [' '.join(l.split()) for l in (src, tgt)[k]]
    if p.chance(1, 10):
        w.probe('reserved-use')
        for ls in (src, tgt):
            ls[p.below(len(ls))] = p.pick(['<pad>', '<pad> <pad>', '<s>', '<unk>'])
    for k in range(2 if classes or p.chance(1, 2) else 1):
        level = 'class' if k in classes else p.pick(levels)
        m = w.path(f'model{k}')
        if level == 'class':
            learn_from = [l for l in (src, tgt)[k] if l and not p.chance(1, 12)] or ['a']
        else:
            learn_from = sparkutil.odd_lines(p, lex, 4) + [' '.join(lex)]
        codecutil.learn(learn_from, level, vocab_size=400 if level == 'bpe' else -1).save(m)
        models.append(m)
        schemes.append(codec.load_scheme(m))
    if len(models) == 2:
        w.probe('two-models')
    files = []
    for name, ls in (('src', src), ('tgt', tgt)):
        gz = p.chance(1, 6)
        if gz:
            w.probe('gz')
        files.append(sparkutil.text_file(w, name, ls, gz, p.chance(2, 3)))
    enc = [[[int(i) for i in s.encode(l)] if l else [] for l in ls]
           for s, ls in ((schemes[0], src), (schemes[-1], tgt))]
    truncate = p.chance(1, 2)
    w.probe('truncate' if truncate else 'drop')
    limits = []
    for e in enc:
        lens = [len(s) for s in e if s] or [1]
        k = p.below(4)
        limits.append(max(1, 256 if k == 0 else p.pick(lens) + p.below(3) - 1))
    want = {}
    if same:
        for i, (a, b) in enumerate(zip(*enc)):
            if not a or not b:
                w.probe('empty-side')
                continue
            if truncate:
                if len(a) > limits[0] or len(b) > limits[1]:
                    w.probe('cut')
                a, b = a[:limits[0]], b[:limits[1]]
            elif len(a) > limits[0] or len(b) > limits[1]:
                w.probe('dropped')
                continue
            elif len(a) == limits[0] or len(b) == limits[1]:
                w.probe('at-limit')
            want[i] = [a, b]
    path = w.path('db')
    older = p.chance(1, 12)
    before = None
    if older:
        w.probe('over-old')
        w.must('creating the older database', MultipartDb.create, path, [([1], [2])], ('x', 'y'))
        before = gen.raw_tree(path)
    c = sparkutil.setup(w)
    parts = 1 + p.below(7) if p.chance(1, 2) else 0
    if parts:
        w.probe('parts')
    mode = p.weighted([(3, 'command'), (2, 'functions')])
    if w.fault_ch.chance(1, 8):
        poolutil.interrupt_driver(w)
    w.probe(mode)
    w.sample = dict(lines=[len(src), len(tgt)], kept=len(want), truncate=truncate, limits=limits, parts=parts, mode=mode,
                    cluster=c.faults)
    names, asked = ['x', 'y'], {}
    if mode == 'command':
        argv = ['bitextdb', '-sm', str(models[0]), '-st', str(files[0]), '-tt', str(files[1]), '-db', str(path), '-sl',
                str(limits[0]), '-tl', str(limits[1]), '--truncate' if truncate else '--no-truncate']
        if len(models) == 2:
            argv += ['-tm', str(models[1])]
        if parts or p.chance(1, 2):
            argv += ['-np', str(parts)]
        if p.chance(1, 3):
            w.probe('column-names')
            names = p.pick([['src', 'tgt'], ['y', 'x'], ['tgt', 'y'], ['x', 'out']])
            argv += ['-sn', names[0]] * (names[0] != 'x') + ['-tn', names[1]] * (names[1] != 'y')
        if p.chance(1, 3):
            w.probe('cluster-options')
            asked = {'spark.master': p.pick(['local[3]', 'spark://far:7077', 'yarn']),
                     'spark.driver.memory': p.pick(['1g', '17g'])}
            argv += ['-spark', asked['spark.master'], '-dm', asked['spark.driver.memory']]
        argv0, sys.argv = sys.argv, argv
        try:
            o = w.crashable(bitextdb.main)
        finally:
            sys.argv = argv0
        if c.session is not None:
            raise Violation('session', f'its session still runs after {o!r}')
        for k, v in asked.items():
            got = [s.options.get(k) for s in c.sessions]
            if got != [v]:
                raise Violation('session', f'{k} {v} was asked for, it used {got}')
    else:
        arrays = p.chance(1, 2)
        if arrays:
            w.probe('arrays')
        fs, ft = tokenizer(schemes[0], arrays), tokenizer(schemes[-1], arrays)

        def run():
            with spark.session() as sess:
                as_str = p.chance(1, 2)
                if p.chance(1, 3):
                    w.probe('column-names')
                    names[:] = ['a', 'b']
                df = spark.read_raw_bitext_tok(sess, *[str(f) if as_str else f for f in files], truncate=truncate,
                                               src_len=limits[0], tgt_len=limits[1], src_tokenizer=fs, tgt_tokenizer=ft)
                return spark.rdd_as_db(df.rdd.map(lambda r: (r.id, (r.x, r.y))), path, repartition=parts,
                                       field_names=tuple(names))
        o = w.crashable(run)
        if c.session is not None:
            raise Violation('session', f'its session still runs after {o!r}')
    w.nontrivial = c.tasks > 3
    w.sched.interrupt = None
    if w.sched.was_interrupted:
        poolutil.must_interrupt(w, o.exc)
    if before is not None and gen.raw_tree(path) != before:
        raise Violation('overwritten', 'an older database at the path changed')
    if not o.ok:
        d = f'{o!r}\n{o.tb}'
        if older:
            return
        if path.exists() and w.call(MultipartDb.load, path).ok:
            raise Violation('partial', f'it failed, but the path opens: {d}')
        if w.sched.was_interrupted:
            while c.running():
                w.sched.sleep(1.0)
            if path.exists() and w.call(MultipartDb.load, path).ok:
                raise Violation('partial', f'it was interrupted, but the path opens: {d}')
        elif not same:
            w.probe('refused')
        elif not want:
            w.probe('none-left')
        elif c.faults == 'fatal' and isinstance(o.exc, simspark.SparkJobFailed):
            w.probe('job-failed')
        else:
            raise Violation('unexpected-error', d)
        return
    if older:
        raise Violation('overwritten', 'a database at the path was no reason to fail')
    if not same:
        raise Violation('misaligned', f'files of {len(src)} and {len(tgt)} lines were accepted')
    for round in range(2):
        db = w.must('opening the database', MultipartDb.load, path)
        rows = w.must('reading the database', gen.read_rows, db, names)
        d = gen.diff_rows(rows, want)
        if d is not None or len(db) != len(want):
            raise Violation('wrong-data', f'{d}; {len(db)} records, expected {len(want)}; limits {limits}, '
                                          f'truncate {truncate}')
        n_files = sum(1 for f in gen.raw_tree(path) if f.startswith('./part-') and not f.endswith('.meta'))
        if n_files == 0:
            raise Violation('parts', 'no part is stored')
        if parts and n_files > parts:
            raise Violation('parts', f'{n_files} parts, {parts} were asked for')
        if not c.running():
            break
        while c.running():
            w.sched.sleep(1.0)


def tokenizer(scheme, arrays):
    import numpy as np
    if arrays:
        return lambda l: np.array(scheme.encode(l), dtype=np.int32)
    return lambda l: [int(i) for i in scheme.encode(l)]
