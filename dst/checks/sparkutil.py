"""Text and clusters used by the checks of the distributed programs."""
import gzip

from .. import codecutil, gen, simspark

ODD = ['<!S!>', '#', '#{"types":', '#a', 'None', '0', '-1', '<s>', '<unk>', 'e\u0301', '\u00e9', '\U0001f600', '\u200b',
       'a' * 60, '"', "'", '\\', ',', '\u200d', 'nan', '(1,)', '\ufffd']
ODD_SPACES = ['\x85', '\u3000', '\xa0', '\x0b', '\x0c', '\x1c', '\u2028', '\t']


def setup(w, faults=None):
    """a cluster; returns what may go wrong on it: 'none', 'some' (jobs succeed) or 'fatal' (jobs may fail)"""
    c = simspark.cluster(w)
    c.faults = faults or w.fault_ch.weighted([(2, 'none'), (3, 'some'), (2, 'fatal')])
    c.local = c.faults == 'fatal' and w.fault_ch.chance(1, 4)
    c.max_parts = w.plan.pick([1, 3, 5, 9])
    w.probe('cluster-' + c.faults)
    return c


def odd_lines(p, lex, n, max_words=6, blanks=True):
    """lines of words of lex and odd words, with odd white space; some lines are there more than once"""
    out = []
    for _ in range(n):
        k = p.below(12)
        if out and k < 3:
            out.append(p.pick(out))
        elif out and k == 3:
            out.append(p.pick(out) + ' ')
        elif blanks and k == 4:
            out.append(p.pick(['', '  ', '\t', '\u3000']))
        else:
            s = ''
            for _ in range(1 + p.below(max_words)):
                s += p.pick(lex) if not p.chance(1, 6) else p.pick(ODD)
                s += p.pick(ODD_SPACES) if p.chance(1, 8) else ' '
            out.append(s if p.chance(1, 4) else s.rstrip(' '))
    return out


def unusual_text(w, p):
    """words for the lexicon and more lines: now and then hundreds of types, or long words"""
    words, lines = [], []
    if p.chance(1, 20):
        w.probe('many-types')
        lines, _ = codecutil.many_chars(p)
    elif p.chance(1, 40):
        w.probe('thousands-of-types')
        n = p.pick([300, 1100, 2100])
        lines = [' '.join(f'w{k:x}' for k in range(j, min(n, j + 40))) for j in range(0, n, 40)]
        lines += [p.pick(lines) for _ in range(3)]
    if p.chance(1, 12):
        w.probe('long-words')
        stem = codecutil.long_word(p, 300)
        words = [x for k in (30, 70, 130, 300) for x in (stem[:k], stem[:k].capitalize(), stem[-k:].upper())]
        words = [p.pick(words) for _ in range(3)]
    return words, lines


def text_file(w, name, lines, gz=False, last_break=True):
    """stores lines; the path"""
    t = '\n'.join(lines)
    if lines and (last_break or not lines[-1]):
        t += '\n'
    data = t.encode()
    path = w.path(name + ('.gz' if gz else ''))
    gen.raw_write(path, gzip.compress(data, mtime=0) if gz else data)
    return path


def counts(lines, dedup):
    """(words, characters, number of lines) counted directly"""
    if dedup:
        lines = list(dict.fromkeys(lines))
    words, chars = {}, {}
    for l in lines:
        for x in l.split():
            words[x] = words.get(x, 0) + 1
            for ch in x:
                chars[ch] = chars.get(ch, 0) + 1
    return words, chars, len(lines)


def labels(lines, dedup):
    """{label: number of lines}"""
    out = {}
    for l in dict.fromkeys(lines) if dedup else lines:
        out[l.strip()] = out.get(l.strip(), 0) + 1
    return out


def diff_counts(got, want):
    """None or the first difference between two mappings to counts"""
    for k in want:
        if got.get(k) != want[k]:
            return f'{k!r} counted {got.get(k)}, is {want[k]}'
    for k in got:
        if k not in want:
            return f'{k!r} counted {got[k]}, never occurs'
    return None
