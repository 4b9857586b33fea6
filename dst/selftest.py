"""Proves that one seed is one execution: the same runs in different processes, with other numbers of workers (so other
neighbours in the process), string-hash seeds and memory allocators, must log the same events."""
import os

from . import driver

VARIANTS = [(8, {}), (5, {'PYTHONHASHSEED': '12345'}), (3, {'PYTHONHASHSEED': '777', 'PYTHONMALLOC': 'malloc'})]


def main(ids):
    bad = 0
    n = int(os.environ.get('DST_SELFTEST_RUNS', '240'))
    for prop in ids or list(driver.CHECKS):
        if not os.path.exists(os.path.join(driver.HERE, 'checks', prop.lower() + '.py')):
            continue
        seen = []
        for workers, env in VARIANTS:
            res, errs = driver.run_batch(prop, 99, 'quick', n, workers, 600, digests=True, env=env)
            d = {}
            for r in res:
                d.update({int(i): x for i, x in r['digests']})
            seen.append(d)
            for e in errs:
                print(prop, e)
                bad += 1
        diff = sorted(i for i in seen[0] if any(s.get(i) != seen[0][i] for s in seen[1:]))
        bad += len(diff)
        print(f'{prop}: {len(seen[0])} runs x {len(VARIANTS)} processes: '
              + (f'DIFFER in {diff[:10]} ({len(diff)})' if diff else 'identical'), flush=True)
    return 1 if bad else 0
