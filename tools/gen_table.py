#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (section 8) from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
MISSED = {
    'c09-input-error-ends-stream': 'the classes of errors an input raises',
    'c13-other-line-breaks': 'labels with other line separators',
    'c18-coverage-passed': 'coverages the types reach exactly',
    'c08-stops-at-falsy': 'empty results',
    'c12-session-survives-interrupt': 'interrupts of the driver',
    'c02-with-hides-errors': 'writers fed inside their `with`',
    'c07-chunks-of-short-lists': 'inputs given as whole lists',
    'c16-first-split-kept': 'ratios that change from call to call',
    'c03-part-numbers-wrap': 'more parts than announced',
    'c07-known-by-beginning': 'long lines that are alike',
    'c12-coverage-not-passed': 'coverages on the cluster',
    'c18-words-folded': 'letters of both cases',
    'c08-zero-is-nothing': 'reductions in which a false value counts',
    'c10-large-counts-rounded': 'counts of large corpora',
    'c05-cut-part-skipped': 'parts lost or cut short',
}
START, END = '<!-- planted bugs -->', '<!-- end -->'


def main():
    rows = ['| planted bug | caught by | what it breaks | needs | missed at first; what was added |', '|---|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        k = os.path.basename(os.path.dirname(f))
        rows.append('| {} | {} | {} | {} | {} |'.format(k, m['property'], m['what_it_breaks'], m['needs'],
                                                    m.get('missed_first') or MISSED.get(k, '')))
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read()
    a, b = s.index(START) + len(START), s.index(END)
    open(p, 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n' + s[b:])
    print(len(rows) - 2, 'planted bugs')


if __name__ == '__main__':
    main()
