#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N]   run the check of a property
check.py --replay FILE                                                        replay a recorded violation
check.py --selftest [ID ...]                                                  prove that runs are repeatable
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main(argv):
    from dst import driver
    if argv[:1] == ['--worker']:
        prop, seed, tier, k, n, runs, out, deadline, dig = argv[1:10]
        driver.worker_main(prop, int(seed), tier, int(k), int(n), int(runs), out, float(deadline), dig == '1')
        return 0
    if argv[:1] == ['--minimise']:
        driver.minimise_main(argv[1], argv[2], argv[3], float(argv[4]))
        return 0
    if argv[:1] == ['--history']:
        driver.history_main(argv[1], argv[2], argv[3], float(argv[4]))
        return 0
    if argv[:1] == ['--replay']:
        import json
        if os.environ.get('PYTHONHASHSEED') != '0' or sys.executable != driver.PY:
            os.execve(driver.PY, [driver.PY, '-X', 'utf8', os.path.abspath(__file__)] + argv, driver.child_env())
        return driver.replay_main(json.load(open(argv[1]))['property'], argv[1])
    if argv[:1] == ['--selftest']:
        from dst import selftest
        return selftest.main(argv[1:])
    import argparse
    p = argparse.ArgumentParser(description=__doc__, formatter_class=argparse.RawDescriptionHelpFormatter)
    p.add_argument('prop')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    p.add_argument('--runs', type=int)
    p.add_argument('--workers', type=int)
    a = p.parse_args(argv)
    return driver.main(a.prop, a.tier, a.seed, workers=a.workers, runs=a.runs)


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
