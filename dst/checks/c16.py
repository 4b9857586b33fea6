"""C16: randomised subword splitting never changes the text."""
import functools
import random

from .. import codecutil, gen, other
from ..core import Violation
from . import poolutil

ID = 'C16'
RUNS = {'quick': 30000, 'thorough': 300000}
RULE = ('One evaluation learns a drawn subword model, and encodes drawn lines with drawn split ratios where every random '
        'number the splitting asks for is chosen by the simulator (values at and around the ratio, 0 and the largest '
        'below 1, or a seeded sequence), in this process, by several simulated worker processes, with the saved and '
        'reloaded model, or in another interpreter. Non-trivial: a merged piece was split.')
REAL = ['nlcodec.codec (BPEScheme.encode, encode_str, stochastic_split, decode; Type.get_stochastic_split, '
        'get_permutations; parallel_map)', 'multiprocessing.pool (source), another interpreter (other.py)']
STUB = ['random.random (every draw is the simulator\'s)', 'processes, pipes and locks of the worker pool', 'clock']
ASSUMES = ['Ratios are between zero and one.', 'The text holds no U+2581 (the space mark).']
MUST_HIT = ['alike', 'result-changed', 'ratio-0', 'ratio-1', 'ratio-mid', 'split', 'kept', 'at-ratio', 'zero-draw', 'pool', 'other-process',
            'reloaded', 'oov', 'listed', 'same-names', 'ids', 'names', 'drawn-merges', 'many-ways']


class Draws:
    """random.random() as the simulator decides it"""

    def __init__(self, w, ratio):
        self.w, self.ratio = w, ratio
        self.menu = [0.9999999999999999, 0.0, ratio, max(0.0, ratio - 1e-9), min(0.9999999999999999, ratio + 1e-9), 0.5,
                     5e-324, 0.25]
        self.menu = [v if v < 1 else 0.9999999999999999 for v in self.menu]
        self.style = w.plan.below(3)

    def __call__(self):
        w = self.w
        if self.style == 1:
            v = w.sched_ch.below(1 << 20) / (1 << 20)
        else:
            k = w.sched_ch.below(len(self.menu))
            if k == 1:
                w.probe('zero-draw')
            if k == 2:
                w.probe('at-ratio')
            v = self.menu[k]
        w.fault('random-draw', f'{v:.6g}')
        return v


RATIOS = [0.0, 1.0, 0.1, 0.5, 1e-12, 0.9999999, 0.3, 1]


def is_way(by_name, names, seg):
    """whether seg composes a type of this name by repeatedly opening types into their two pieces"""
    if seg == [names]:
        return names in by_name
    for left, right in by_name.get(names, ()):
        # the cut in seg must fall where the left piece ends
        acc, k = 0, 0
        while k < len(seg) and acc < len(left):
            acc += len(seg[k])
            k += 1
        if acc == len(left) and is_way(by_name, left, seg[:k]) and is_way(by_name, right, seg[k:]):
            return True
    return False


def scenario(w):
    from nlcodec import codec
    p = w.plan
    if p.chance(1, 3):
        a = p.pick('ab中')
        lex = [a * (1 + p.below(8)) for _ in range(1 + p.below(3))] + [gen.word(p, 'ab', 6)]
        ls = gen.lines(p, 2 + p.below(6), lex) + [lex[0], lex[0] + ' ' + lex[0]]
    else:
        ls, lex = codecutil.corpus(p)
    scheme = w.must('learning', codecutil.learn, ls, 'bpe', vocab_size=p.pick([-1, 300, 60]))
    path = w.path('model')
    if p.chance(1, 3):
        # a model with drawn merges: other shapes than learning makes, the same name composed in several ways
        w.probe('drawn-merges')
        table = [t for t in scheme.table if not t.kids]
        for _ in range(1 + p.below(12)):
            a, b = p.pick(table[5:]), p.pick(table[5:])
            table.append(codec.Type(a.name + b.name, level=1, idx=len(table), freq=1, kids=(a, b)))
        scheme = w.must('making a codec', codec.BPEScheme, table)
        ls += [' '.join(t.name.strip('▁').replace('▁', ' ') for t in table[-3:])]
    if p.chance(1, 3):
        w.probe('reloaded')
        scheme.save(path)
        scheme = codec.load_scheme(path)
    table = scheme.table
    by_name = {}
    for t in table:
        ks = by_name.setdefault(t.name, [])
        if t.kids:
            ks.append(tuple(k.name for k in t.kids))
    first = {}
    for t in table:
        first.setdefault(t.name, t.idx)
    if len(first) < len(table):
        w.probe('same-names')
    lines = [p.pick(ls) for _ in range(1 + p.below(6))]
    if p.chance(1, 3):
        w.probe('oov')
        lines += ['zq' + p.pick(lex), p.pick(lex) + '@@ ' + p.pick(lex)]
    if p.chance(1, 4):
        lines += ['', '  ' + p.pick(lex) + '\t' + p.pick(lex) + ' ']
    if p.chance(1, 8):
        w.probe('alike')
        lines += gen.alike(p, lex, 300)
    ratio = p.pick(RATIOS)
    how = p.weighted([(4, 'ids'), (3, 'names'), (2, 'pool'), (2, 'other-process'), (2, 'splitter')])
    w.probe(how)
    w.sample = dict(types=len(table), ratio=ratio, how=how, lines=lines[:3])
    real = random.random
    bounds, lists = {}, {}

    def bound(name):
        """no fewer than the ways of splitting all types of this name"""
        if name not in bounds:
            bounds[name] = 0
            bounds[name] = 1 + sum(bound(a) * bound(b) for a, b in by_name.get(name, ()))
        return bounds[name]
    draws = Draws(w, ratio)
    plain = codecutil.one_by_one(scheme, lines, lambda s, l: s.encode_str(l))
    early = p.below(3)
    if early:
        check_plain(w, scheme, lines, plain, early)

    def check(line, pieces, names, ids):
        """names/ids: the randomised encoding"""
        if names is None:
            if any(type(i) is bool or int(i) != i or not 0 <= i < len(table) for i in ids):
                raise Violation('ids', f'{line!r} -> {ids!r}')
            names = [table[i].name for i in ids]
        want = scheme.decode_str(pieces)
        if scheme.decode_str(list(names)) != want:
            raise Violation('text', f'{line!r}: {pieces} became {names}')
        if ids is not None and scheme.decode(ids) != want:
            raise Violation('text', f'{line!r}: {pieces} became {ids} = {scheme.decode(ids)!r}')
        if ratio == 0 and list(names) != pieces:
            raise Violation('ratio-0', f'{line!r}: {pieces} became {names}')
        k = 0
        for piece in pieces:
            acc, seg = '', []
            while k < len(names) and len(acc) < len(piece):
                acc += names[k]
                seg.append(names[k])
                k += 1
            if acc != piece or not is_way(by_name, piece, seg):
                raise Violation('not-a-way', f'{line!r}: {pieces} became {names}: {piece!r} is not composed of {seg}')
            if seg != [piece]:
                w.probe('split')
                w.nontrivial = True
                n_ways = bound(piece)
                if n_ways <= 1500:
                    w.probe('listed')
                    if n_ways > 64:
                        w.probe('many-ways')
                    if piece not in lists:
                        lists[piece] = ([x for t in table if t.name == piece for x in t.get_permutations(name=True)],
                                        [x for t in table if t.name == piece for x in t.get_permutations()])
                    ways, idxs = lists[piece]
                    if seg not in ways or [[table[i].name for i in x] for x in idxs] != ways:
                        raise Violation('not-listed', f'{piece!r} became {seg}, which is not one of {ways}')
            else:
                w.probe('kept')
            if ratio == 1 and any(s not in atoms for s in seg):
                raise Violation('ratio-1', f'{line!r}: {piece!r} became {seg}')
        if k != len(names):
            raise Violation('extra', f'{line!r}: {pieces} became {names}')

    atoms = {t.name for t in table if not t.kids}
    try:
        random.random = draws
        for rnd in range(1 + p.below(3)):
            if rnd:
                draws = random.random = Draws(w, ratio := p.pick(RATIOS + [ratio] * 4))
            w.probe('ratio-0' if ratio == 0 else 'ratio-1' if ratio == 1 else 'ratio-mid')
            if how == 'ids':
                got = [(None, w.must('encoding', scheme.encode, l, split_ratio=ratio)) for l in lines]
            elif how == 'names':
                got = [(w.must('encoding', scheme.encode_str, l, split_ratio=ratio), None) for l in lines]
            elif how == 'splitter':
                got = [(w.must('splitting', scheme.stochastic_split, [first[x] for x in pl], ratio, name=True), None)
                       if p.chance(1, 2) else
                       (None, w.must('splitting', scheme.stochastic_split, [first[x] for x in pl], ratio))
                       for pl in plain]
            elif how == 'pool':
                if w.sched is None:
                    poolutil.setup(w)
                fn = functools.partial(scheme.encode, split_ratio=ratio)
                res = w.must('encoding', lambda: list(scheme.parallel_map(
                    fn, iter(lines), n_cpus=2 + p.below(3), chunksize=1 + p.below(3))))
                if len(res) != len(lines):
                    raise Violation('lost', f'{len(res)} results for {len(lines)} lines')
                got = [(None, r) for r in res]
            else:
                if not path.exists():
                    scheme.save(path)
                r = other.ask(1 + p.below(2), 'split', path=str(path), lines=lines, ratio=ratio, seed=p.seed32())
                if 'ok' not in r:
                    raise Violation('unexpected-error', f'in another process: {r}')
                got = [(None, x) for x in r['ok']]
            for l, pl, (names, ids) in zip(lines, plain, got):
                w.observe('the encoding', lambda: check(l, pl, names, ids))
                for x in (names, ids):      # a list belongs to whom it was given
                    if isinstance(x, list) and p.chance(1, 3):
                        w.probe('result-changed')
                        x.append(x[0] if x else 1)
    finally:
        random.random = real
    check_plain(w, scheme, lines, plain, 1 + p.below(2))


def check_plain(w, scheme, lines, plain, how):
    for l, pl in zip(lines, plain):
        got = w.must('encoding', scheme.encode_str if how == 1 else scheme.encode, l)
        if [x if how == 1 else scheme.table[x].name for x in got] != pl:
            raise Violation('plain', f'the plain encoding of {l!r} is {got}, by a new codec it is {pl}')
        if isinstance(got, list):
            got.append(got[0] if got else 1)
