#!/usr/bin/env python3
"""writes MANIFEST.json from the checks there are and properties.jsonl"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C21': 'best_dtype is a pure function of two integers: no schedule, time, storage, randomness, fault or second party takes '
           'part, so there is nothing for a simulator to decide (that stored values survive whatever type is chosen is '
           'part of C04).',
}
NOTE = ('Seeded search over simulated runs, not exhaustive; trusts the simulator (storage, scheduler, process, pool and '
        'cluster models described in DESIGN.md) and the oracle in dst/checks/{low}.py. ')
EXTRA = {
    'C01': 'Metadata operations are assumed durable in order; only unsynced file data may be lost.',
    'C03': 'Spark itself is a model (dst/simspark.py) running the real Python closures.',
    'C10': 'Spark itself is a model (dst/simspark.py) running the real Python closures.',
    'C11': 'Spark itself is a model (dst/simspark.py) running the real Python closures.',
    'C12': 'Spark itself is a model (dst/simspark.py) running the real Python closures.',
    'C07': 'The pool is CPython\'s own pool source on simulated threads, processes and pipes.',
    'C08': 'The pool is CPython\'s own pool source on simulated threads, processes and pipes.',
    'C09': 'The pool is CPython\'s own pool source on simulated threads, processes and pipes.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl', encoding='utf8')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(f'{V}/dst/checks/{i.lower()}.py'):
        checks.append(dict(
            property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json', technique='deterministic simulation with fault injection (seeded search)',
            level='exploration', level_note=NOTE.format(low=i.lower()) + EXTRA.get(i, '')))
    else:
        na.append(dict(property=i, reason='No check yet.'))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the seams are the interpreter\'s own (open, os, time, random, multiprocessing, '
               'SparkSession), replaced inside the check processes only.')
with open(V + '/MANIFEST.json', 'w', encoding='utf8') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
