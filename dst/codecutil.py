"""Vocabularies and codecs used by several checks."""
RSS = [20_000, 900_000, 15_000_000, 70_000_000, 2_000_000_000]     # KB of memory a process may have used
LEVELS = ('word', 'char', 'bpe', 'byte', 'class')


def table_of(types):
    """a vocabulary as plain data: [idx, name, level, freq, [kid indices]]"""
    return [[t.idx, t.name, t.level, t.freq, [k.idx for k in t.kids] if t.kids else []] for t in types]


def behaviour(scheme, lines):
    """what a codec is and does: its class, table, and the encodings and decodings of some lines"""
    out = []
    for line in lines:
        ids = [int(i) for i in attempt(scheme.encode, line, [])]
        out.append([attempt(lambda l: list(scheme.encode_str(l)), line, None), ids,
                    attempt(scheme.decode, ids, None),
                    attempt(lambda l: scheme.decode_str(scheme.encode_str(l)), line, None)])
    return [type(scheme).__name__, table_of(scheme.table), len(scheme), out]


def attempt(fn, arg, default):
    """unknown classes have no code: a KeyError or the like is an answer too"""
    try:
        return fn(arg)
    except (KeyError, IndexError) as e:
        return default if default is not None else f'{type(e).__name__}'


def learn(lines, level, p=None, vocab_size=None, **kw):
    """a scheme learned from lines through the public interface"""
    from nlcodec import codec
    args = dict(vocab_size=-1, min_freq=1, char_coverage=1.0, min_co_ev=2)
    if vocab_size is not None:
        args['vocab_size'] = vocab_size
    args.update(kw)
    table = codec.learn_vocab(inp=iter(lines), level=level, model=None, **args)
    return codec.REGISTRY[level](table)


def one_by_one(scheme, lines, fn=None):
    """what encoding each line by a codec that has not been used before gives"""
    fn = fn or (lambda s, l: s.encode(l))
    size = sum(len(t.name) for t in scheme.table)
    memo, s = {}, None
    for l in lines:
        if l not in memo:
            if s is None or size * len(memo) < 30000:
                s = type(scheme)(table=scheme.table)
            memo[l] = fn(s, l)
    return [memo[l] for l in lines]


class Reference:
    """encoding and decoding by definition, from a table of types"""

    def __init__(self, level, table):
        self.level, self.names = level, [t.name for t in table]
        self.reserved = {t.name for t in table if t.level == -1}
        self.first = {}
        for i, name in enumerate(self.names):
            self.first.setdefault(name, i)
        self.longest = max(map(len, self.names))

    def pieces(self, line):
        if self.level == 'word':
            return line.split()
        if self.level == 'char':
            return list('▁'.join(line.split()))
        if self.level == 'class':
            return [line.strip()]
        if self.level == 'byte':
            return [self.names[b] for b in line.encode('utf8')]
        # the longest type that comes next, from left to right
        text, k, out = '▁'.join(line.split()) + '▁', 0, []
        while k < len(text):
            n = next((n for n in range(min(self.longest, len(text) - k), 0, -1) if text[k:k + n] in self.first), 0)
            out.append(text[k:k + n] if n else '<unk>')
            k += n or 1
        return out

    def ids(self, line):
        return [self.first.get(x, -1 if self.level == 'class' else 1) for x in self.pieces(line)]

    def text(self, pieces):
        if self.level == 'word':
            return ' '.join(pieces)
        if self.level == 'class':
            return ','.join(pieces)
        if self.level == 'byte':
            out, run = '', b''
            for x in pieces:
                if x in self.reserved:
                    out, run = out + run.decode('utf8', 'replace') + x, b''
                else:
                    run += bytes([int(x, 16)])
            return out + run.decode('utf8', 'replace')
        t = ''.join(pieces).replace('▁', ' ')
        return t.strip() if self.level == 'bpe' else t


def corpus(p, n=None, labels=False):
    """lines to learn from; at least one has a word"""
    from . import gen
    if labels:
        labs = gen.lexicon(p, 5)
        return [p.pick(labs) for _ in range(n or 1 + p.below(12))], labs
    lex = gen.lexicon(p, 3 + p.below(8))
    ls = gen.lines(p, n or 2 + p.below(12), lex)
    if not any(l.strip() for l in ls):
        ls.append(lex[0])
    return ls, lex


def with_kids(table):
    """the types, composed of each other"""
    out = []
    for t in table:
        out.append(t.copy(kids=tuple(out[k.idx] for k in t.kids)) if t.kids else t)
    return out


def big_count(p):
    """a frequency as in large corpora"""
    return 1 + p.below(9) if p.chance(1, 3) else p.pick([255, 2 ** 16, 2 ** 24, 2 ** 31, 2 ** 32, 2 ** 40]) + p.below(3) - 1


def many_chars(p):
    """lines in a script of hundreds of characters, where initial vocabularies are large"""
    import random
    n, r = p.pick([70, 140, 280, 600]), random.Random(p.seed32())
    cs = [chr(p.pick([0x4e00, 0xac00, 0x20000]) + k) for k in range(n)]
    lex = [''.join(r.choice(cs) for _ in range(1 + r.randrange(4))) for _ in range(n // 3)]
    ls = [' '.join(r.choice(lex) for _ in range(1 + r.randrange(8))) for _ in range(4 + n // 10)]
    return ls, lex


def with_twins(p, scheme):
    """the same vocabulary with some types a second time, composed in another way or later (a few merged vocabularies
    hold such: their later codes are never used)"""
    from nlcodec import codec
    table = list(scheme.table)
    long = [t for t in table if t.level > 0] or [t for t in table if t.level >= 0 and t.name != '▁']
    for _ in range(1 + p.below(3)):
        if long:
            t = p.pick(long)
            table.append(t.copy(idx=len(table), freq=1))
    return type(scheme)(table)


def long_word(p, n):
    """text without spaces; where it repeats, its pieces grow as long as it"""
    import random
    r = random.Random(p.seed32())
    return ''.join(r.choice('abcdefgh中') for _ in range(n))


def long_words(p):
    """words of hundreds of characters"""
    out = []
    for _ in range(1 + p.below(2)):
        n = p.pick([100, 130, 260, 400]) + p.below(9)
        out.append(long_word(p, n) if p.chance(1, 2) else (long_word(p, 1 + p.below(6)) * n)[:n])
    return out


def far_pieces(p, scheme):
    """the same vocabulary with a few types composed of the last ones"""
    from nlcodec import codec
    table = list(scheme.table)
    n = len(table)
    for _ in range(3 + p.below(4)):
        a, b = table[n - 1 - p.below(30)], table[len(table) - 1 - p.below(min(30, n - 10))]
        if a.level >= 0 and b.level >= 0:
            table.append(codec.Type(a.name + b.name, level=1, idx=len(table), freq=1, kids=(a, b)))
    return type(scheme)(table)


def large_vocabulary(p, level, at_most=70000):
    """(lines that every type of a large vocabulary is in, lines of types all over it); codes need two or three bytes"""
    n = p.pick([270, 1100, 4200, 11000]) if level == 'bpe' or not p.chance(1, 12) else 66000
    n = min(n, at_most)
    if level in ('word', 'class'):
        terms = [f'w{k:x}' for k in range(n)]
    else:
        terms = [chr(k) for r in (range(0x4e00, 0x9f00), range(0x20000, 0x20000 + n)) for k in r][:n]
    some = [terms[k] for k in {0, 1, 127, 128, 200, 248, 249, 250, 251, 255, 256, 257, 65528, 65529, 65530, 65535, n // 2,
                               n - 2, n - 1} if k < n]
    if level == 'class':
        return terms, some
    step = 8 if level == 'bpe' else 60
    ls = [' '.join(terms[k:k + step]) for k in range(0, n, step)]
    return ls, [' '.join(p.pick(some) for _ in range(1 + p.below(6))) for _ in range(5)] + [' '.join(some)]


class layout:
    """learning with drawn identity hashes of the learner's nodes, as other memory addresses would give"""

    def __init__(self, seed, module='nlcodec.bpe'):
        self.seed = seed
        self.module = module

    def __enter__(self):
        import importlib
        import random
        self.bpe = bpe = importlib.import_module(self.module)
        self.real = Node = getattr(bpe, 'LnNode', None)
        if Node is None:
            return
        rng = random.Random(self.seed)
        used = set()

        class DrawnNode(Node):
            __slots__ = ('_addr',)

            def __hash__(self):
                try:
                    return self._addr
                except AttributeError:
                    while True:
                        a = rng.getrandbits(40) << 4
                        if a not in used:
                            used.add(a)
                            self._addr = a
                            return a
        n = Node(0)
        if hash(n) not in (hash(id(n)), object.__hash__(n)):
            self.real = None        # it does not depend on the address
            return
        bpe.LnNode = DrawnNode

    def __exit__(self, *a):
        if self.real is not None:
            self.bpe.LnNode = self.real
