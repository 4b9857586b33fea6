"""Runs a check: many seeded runs on several processes, minimisation and replay of a failure, evidence."""
import collections
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
TIME = time.time

CHECKS = {f'C{i:02d}': f'dst.checks.c{i:02d}' for i in range(1, 23) if i != 21}


def load_known():
    """known findings: lines 'open: property=<id> kind=<kind> match=<substring> -- text' and 'fixed: ...'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            line = line.strip()
            if line.startswith('open: '):
                head, _, text = line[len('open: '):].partition(' -- ')
                f = dict(kv.split('=', 1) for kv in head.split(' ', 2))
                f['text'] = text
                out.append(f)
    return out


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def setup(prop):
    """imports the check and interposes; returns its module"""
    from . import core
    mod_name = CHECKS[prop]
    src = open(os.path.join(HERE, 'checks', prop.lower() + '.py')).read()
    needs_spark = 'NEEDS_SPARK = True' in src
    core.install(pool=True, spark=needs_spark)
    return importlib.import_module(mod_name)


def run_seed(mod, seed, i, scratch, tier):
    from . import core
    from .choices import Choices
    ch = Choices(seed=f'{mod.ID}/{seed}/{i}')
    return core.run_one(lambda w: mod.scenario(w), ch, scratch)


def run_feed(mod, feed, scratch):
    from . import core
    from .choices import Choices
    return core.run_one(lambda w: mod.scenario(w), Choices(feed=feed), scratch)


HANG_S = float(os.environ.get('DST_HANG_S', '150'))


def watchdog(on_fire):
    """on_fire(stack) is called, and the process ends, when one run takes longer than HANG_S of real time"""
    import signal

    def fire(sig, frame):
        import sys as _s
        import traceback
        stacks = '\n'.join(''.join(traceback.format_stack(f)[-6:]) for f in _s._current_frames().values())
        try:
            on_fire(stacks)
        finally:
            os._exit(0)
    signal.signal(signal.SIGALRM, fire)


def alarm(on=True):
    import signal
    signal.setitimer(signal.ITIMER_REAL, HANG_S if on else 0)


def dump(agg, out_path):
    from . import fs
    agg = dict(agg, inter=sorted(agg['inter']))
    with fs.real_open(out_path, 'w') as f:
        json.dump(agg, f, default=str)


def worker_main(prop, seed, tier, k, n_workers, n_runs, out_path, deadline, digests=False):
    """runs indices k, k + n_workers, ... ; writes a summary as JSON"""
    mod = setup(prop)
    known = [f for f in load_known() if f['property'] == prop]
    scratch = tempfile.mkdtemp(prefix=f'dst-{prop}-', dir=scratch_base())
    agg = dict(runs=0, nontrivial=0, events=0, steps=0, switches=0, ops=0, sim_secs=0.0, faults=collections.Counter(),
               probes=collections.Counter(), inter=set(), samples=[], violation=None, error=None, findings={},
               complete=True, digests=[], distinct_nontrivial=0)
    t_end = TIME() + deadline
    now_at = [0]

    def hung(stacks):
        from . import core
        w = core.CUR
        agg['violation'] = dict(index=now_at[0], kind='hang', msg=f'the run does not end ({HANG_S:g} s):\n{stacks}', before=[],
                                record=w.ch.record() if w else {}, digest=None, events=w.events if w else [])
        dump(agg, out_path)
        shutil.rmtree(scratch, ignore_errors=True)
    watchdog(hung)
    try:
        for i in range(k, n_runs, n_workers):
            if TIME() > t_end:
                agg['complete'] = False
                break
            now_at[0] = i
            alarm()
            r = run_seed(mod, seed, i, scratch, tier)
            alarm(False)
            agg['runs'] += 1
            agg['events'] += r.n_events
            agg['steps'] += r.steps
            agg['switches'] += r.switches
            agg['ops'] += r.ops
            agg['sim_secs'] += r.sim_secs
            agg['faults'].update(r.faults)
            agg['probes'].update(r.probes)
            key = r.inter + r.digest[:8]
            if r.nontrivial and key not in agg['inter']:
                agg['distinct_nontrivial'] += 1
            agg['nontrivial'] += bool(r.nontrivial)
            agg['inter'].add(key)
            if digests:
                agg['digests'].append((i, r.digest))
            if r.sample is not None and len(agg['samples']) < 3 and r.nontrivial:
                agg['samples'].append(dict(run=i, case=r.sample, outcome=r.status))
            if r.status == 'violation':
                f = next((f for f in known if f['kind'] == r.kind and f['match'] in r.msg), None)
                if f is not None:
                    agg['findings'][f['text']] = agg['findings'].get(f['text'], 0) + 1
                    continue
                agg['violation'] = dict(index=i, kind=r.kind, msg=r.msg, record=r.record, digest=r.digest,
                                        events=r.events, before=list(range(k, i, n_workers)))
                break
            if r.status == 'error':
                agg['error'] = dict(index=i, kind=r.kind, msg=r.msg)
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    dump(agg, out_path)


def child_env():
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', NLCODEC_THREADS='3', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', PYTHONUNBUFFERED='1', LC_ALL='C.UTF-8', LANG='C.UTF-8')
    env.setdefault('PYSPARK_PYTHON', PY)
    env.pop('PYTHONPATH', None)
    return env


def spawn(args, **kw):
    return subprocess.Popen([PY, '-X', 'utf8', os.path.join(VERIF, 'check.py')] + args, env=child_env(), cwd=VERIF,
                            **kw)


def run_batch(prop, seed, tier, n_runs, workers, deadline, digests=False, env=None):
    tmp = tempfile.mkdtemp(prefix=f'dst-out-{prop}-', dir=scratch_base())
    try:
        procs = []
        for k in range(workers):
            out = os.path.join(tmp, f'{k}.json')
            e = child_env()
            e.update(env or {})
            p = subprocess.Popen([PY, '-X', 'utf8', os.path.join(VERIF, 'check.py'), '--worker', prop, str(seed), tier,
                                  str(k), str(workers), str(n_runs), out, str(deadline), '1' if digests else '0'],
                                 env=e, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))
            procs.append((p, out))
        res, errs = [], []
        for p, out in procs:
            try:
                p.wait(deadline + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errs.append(f'worker {out} did not end')
            if p.returncode == 0 and os.path.exists(out):
                res.append(json.load(open(out)))
            else:
                msg = f'worker exit {p.returncode}: ' + open(out + '.err').read()[-3000:]
                if msg not in errs:
                    errs.append(msg)
        return res, errs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ minimisation
def minimise_main(prop, in_path, out_path, budget_s):
    """in: {record, kind}; out: minimised record (the same kind of violation)"""
    mod = setup(prop)
    d = json.load(open(in_path))
    kind = d['kind']
    scratch = tempfile.mkdtemp(prefix=f'dst-min-{prop}-', dir=scratch_base())
    t_end = TIME() + budget_s
    tries = [0]

    def fails(feed):
        tries[0] += 1
        r = run_feed(mod, feed, scratch)
        return r if (r.status == 'violation' and r.kind == kind) else None

    try:
        best = d['record']
        r0 = fails(best)
        if r0 is None:
            json.dump(dict(ok=False), open(out_path, 'w'))
            return
        best, last = r0.record, r0

        def size(rec):
            return sum(len(v) for v in rec.values()), sum(1 for v in rec.values() for x in v if x), \
                sum(x for v in rec.values() for x in v)

        def attempt(cand):
            nonlocal best, last
            if TIME() > t_end or tries[0] > 1500:
                return False
            r = fails(cand)
            if r is not None and size(r.record) < size(best):
                best, last = r.record, r
                return True
            return False

        changed = True
        while changed and TIME() < t_end:
            changed = False
            for st in ('sched', 'fault', 'plan'):
                # cut the tail (missing draws are 0)
                n = len(best[st])
                cut = n
                while cut > 0:
                    c = dict(best)
                    c[st] = best[st][:max(0, len(best[st]) - cut)]
                    if len(c[st]) < len(best[st]) and attempt(c):
                        changed = True
                        n = len(best[st])
                        cut = min(cut, n)
                    else:
                        cut //= 2
                    if TIME() > t_end:
                        break
                # blocks: delete, then zero
                size_b = max(1, len(best[st]) // 2)
                while size_b >= 1 and TIME() < t_end:
                    i = 0
                    while i < len(best[st]) and TIME() < t_end:
                        c = dict(best)
                        c[st] = best[st][:i] + best[st][i + size_b:]
                        if attempt(c):
                            changed = True
                            continue
                        seg = best[st][i:i + size_b]
                        if any(seg):
                            c = dict(best)
                            c[st] = best[st][:i] + [0] * len(seg) + best[st][i + size_b:]
                            if attempt(c):
                                changed = True
                        i += size_b
                    size_b //= 2
                # single values: smaller
                for i in range(len(best[st])):
                    if TIME() > t_end:
                        break
                    if i >= len(best[st]):
                        break
                    v = best[st][i]
                    for nv in (0, v // 2, v - 1):
                        if 0 <= nv < v and i < len(best[st]):
                            c = dict(best)
                            c[st] = best[st][:i] + [nv] + best[st][i + 1:]
                            if attempt(c):
                                changed = True
                                break
        json.dump(dict(ok=True, record=best, kind=last.kind, msg=last.msg, digest=last.digest, events=last.events,
                       tries=tries[0]), open(out_path, 'w'))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def history_main(prop, in_path, out_path, budget_s):
    """in: {record, kind, seed, tier, before}: the run failed in a process that had made the runs `before`, and does not
    fail in a fresh one: the code under test keeps something from run to run. Looks for a short list of runs after which
    it does. Every attempt is a fresh process (a fork of this one, which made no run)."""
    mod = setup(prop)
    d = json.load(open(in_path))
    scratch = tempfile.mkdtemp(prefix=f'dst-his-{prop}-', dir=scratch_base())
    t_end = TIME() + budget_s

    def attempt(before):
        """the result of the run after the runs `before`, if it fails as recorded"""
        res = os.path.join(scratch, 'result.json')
        sub_dir = os.path.join(scratch, 'w')
        os.makedirs(sub_dir, exist_ok=True)
        if os.path.exists(res):
            os.remove(res)
        pid = os.fork()
        if pid == 0:
            try:
                watchdog(lambda stacks: None)
                for j in before:
                    alarm()
                    run_seed(mod, d['seed'], j, sub_dir, d['tier'])
                alarm()
                r = run_feed(mod, d['record'], sub_dir)
                if r.status == 'violation' and r.kind == d['kind']:
                    from . import fs
                    with fs.real_open(res, 'w') as f:
                        json.dump(dict(msg=r.msg, kind=r.kind, digest=r.digest, events=r.events, record=d['record']), f,
                                  default=str)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        return json.load(open(res)) if os.path.exists(res) else None

    try:
        all_b, best, got = d['before'], None, None
        n = 1
        while True:
            b = all_b[-n:]
            r = attempt(b)
            if r is not None:
                best, got = b, r
                break
            if n >= len(all_b) or TIME() > t_end:
                break
            n *= 2
        if best is not None:
            size = max(1, len(best) // 2)
            while TIME() < t_end:
                i = 0
                while i < len(best) and TIME() < t_end:
                    c = best[:i] + best[i + size:]
                    r = attempt(c)
                    if r is not None:
                        best, got = c, r
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
        with open(out_path, 'w') as f:
            json.dump(dict(ok=best is not None, before=best, **(got or {})), f)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay_main(prop, path, verbose=True):
    """exit status 1 if the violation of the replay file is reproduced, 0 if the run passes, 3 if another one shows"""
    d = json.load(open(path))
    mod = setup(prop)
    scratch = tempfile.mkdtemp(prefix=f'dst-rep-{prop}-', dir=scratch_base())

    def hung(stacks):
        print(stacks)
        print('status=violation kind=hang')
        shutil.rmtree(scratch, ignore_errors=True)
        if d['kind'] == 'hang':
            print('REPRODUCED')
        sys.stdout.flush()
        os._exit(1 if d['kind'] == 'hang' else 3)
    watchdog(hung)
    try:
        for j in d.get('before') or []:
            alarm()
            run_seed(mod, d['seed'], j, scratch, d.get('tier', 'quick'))
        alarm()
        r = run_feed(mod, d['choices'], scratch)
    finally:
        alarm(False)
        shutil.rmtree(scratch, ignore_errors=True)
    if verbose:
        for e in r.events:
            print(e)
        print(f'status={r.status} kind={r.kind}\n{r.msg}')
        print(f'digest={r.digest} recorded={d.get("digest")}')
    if r.status == 'ok':
        return 0
    if r.status == 'error':
        print(r.msg)
        return 2
    same = r.kind == d['kind']
    if same and r.digest == d.get('digest'):
        print('REPRODUCED exactly')
        return 1
    if same:
        print('REPRODUCED (same violation, event log differs)')
        return 1
    return 3


def sub(args, timeout):
    p = spawn(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return -9, out
    return p.returncode, out


def report_violation(prop, seed, v, tier='quick'):
    """minimises, verifies in a fresh process, writes the replay file; returns its path or None"""
    rdir = os.environ.get('DST_REPLAY_DIR') or os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f'dst-rv-{prop}-', dir=scratch_base())
    try:
        cands = []
        src = os.path.join(tmp, 'in.json')
        json.dump(dict(record=v['record'], kind=v['kind']), open(src, 'w'))
        out = os.path.join(tmp, 'out.json')
        budget = float(os.environ.get('DST_MINIMISE_S', '45'))
        if v['kind'] != 'hang':
            sub(['--minimise', prop, src, out, str(budget)], budget + 120)
        if os.path.exists(out):
            m = json.load(open(out))
            if m.get('ok'):
                cands.append(('minimised', dict(m, index=v['index'])))
        cands.append(('as found', dict(v, before=[])))
        if v.get('before'):
            cands.append(('after other runs in one process', None))
        for how, c in cands:
            if c is None:
                json.dump(dict(record=v['record'], kind=v['kind'], seed=seed, tier=tier, before=v['before']),
                          open(src, 'w'))
                sub(['--history', prop, src, out + '.h', str(budget + 60)], 400)
                if not os.path.exists(out + '.h'):
                    continue
                c = json.load(open(out + '.h'))
                if not c.pop('ok'):
                    continue
            path = os.path.join(rdir, f'{prop}-seed{seed}-run{v["index"]}.json')
            json.dump(dict(property=prop, seed=seed, run=v['index'], kind=c['kind'], message=c['msg'], form=how, tier=tier,
                           before=c.get('before') or [], choices=c['record'], digest=c['digest'], trace=c['events'],
                           replay_cmd=f'python3 check.py --replay {os.path.relpath(path, VERIF)}'),
                      open(path, 'w'), indent=1)
            for _ in range(3):
                rc, o = sub(['--replay', path], 300)
                if rc == 1:
                    return path, how, c
                if v['kind'] == 'hang':
                    break
        return None, None, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(prop, tier, seed, workers=None, runs=None, quiet=False):
    t0 = TIME()
    # static facts of the check, read without importing the code under test
    meta = check_meta(prop)
    n_runs = runs or meta['RUNS'][tier]
    cap = float(os.environ.get('DST_CAP_S', '700' if tier == 'quick' else '5000'))
    workers = workers or int(os.environ.get('DST_WORKERS', str(min(8, os.cpu_count() or 1))))
    res, errs = run_batch(prop, seed, tier, n_runs, workers, cap)
    viol = sorted((r['violation'] for r in res if r['violation']), key=lambda v: v['index'])
    errors = [r['error'] for r in res if r['error']]
    tot = lambda k: sum(r[k] for r in res)  # noqa
    faults, probes = collections.Counter(), collections.Counter()
    inter = set()
    findings = collections.Counter()
    for r in res:
        faults.update(r['faults'])
        probes.update(r['probes'])
        inter.update(r['inter'])
        findings.update(r['findings'])
    missed = [p for p in meta['MUST_HIT'] if not (probes.get(p) or faults.get(p))]
    wall = TIME() - t0
    n = tot('runs') if res else 0
    samples = sorted((s for r in res for s in r['samples']), key=lambda s: s['run'])[:6]
    ev = dict(
        property=prop, tier=tier, seed=int(seed), level='exploration',
        coverage=dict(
            evaluations=n,
            distinct_nontrivial=tot('distinct_nontrivial') if res else 0,
            rule=meta['RULE'] + ' Distinct: the digests of the schedule, storage-operation, fault and event sequence'
                                ' differ.',
            samples=samples,
            seed=int(seed),
            runs_per_hour=round(n / wall * 3600) if wall else 0,
            seeds='one per run, derived from the seed of the check and the number of the run',
            simulated_seconds=round(tot('sim_secs'), 6) if res else 0,
            fault_kinds_fired=dict(sorted(faults.items())),
            probes_hit=dict(sorted(probes.items())), probes_never_hit=missed,
            scheduler_steps=tot('steps') if res else 0,
            task_switches=tot('switches') if res else 0,
            storage_operations=tot('ops') if res else 0,
            logged_events=tot('events') if res else 0,
            distinct_executions=len(inter),
            distinct_measure='SHA-256 over the sequence of task switches, operation kinds, faults and logged events',
            real_components=meta['REAL'], stub_components=meta['STUB'],
            known_findings_hit=dict(findings), complete=all(r['complete'] for r in res) and not errs),
        assumptions=meta['ASSUMES'], wall_s=round(wall, 2), violations=len(viol))
    if not os.environ.get('DST_NO_EVIDENCE'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    for f in load_known():
        if f['property'] == prop and findings.get(f['text']):
            print(f'KNOWN-FINDING: property={prop} {f["text"]}')
    if viol:
        path, how, c = report_violation(prop, seed, viol[0], tier)
        if path:
            print(f'{prop}: run {viol[0]["index"]} of seed {seed}: {c["kind"]} ({how})')
            print(c['msg'][:1500])
            print(f'VIOLATION property={prop} replay={path}', flush=True)
            return 1
        print(f'{prop}: run {viol[0]["index"]} failed but does not replay: {viol[0]["kind"]} {viol[0]["msg"]}')
        return 2
    if errors or errs:
        for e in errors:
            print(f'{prop}: error of the harness in run {e["index"]}: {e["msg"]}')
        for e in errs:
            print(f'{prop}: {e}')
        return 2
    if not all(r['complete'] for r in res):
        print(f'{prop}: wall-time cap reached after {n} of {n_runs} runs')
        return 2
    if missed and not runs:
        print(f'{prop}: never reached: {missed}')
    print(f'{prop}: held on {n} runs, {len(inter)} distinct, {sum(faults.values())} faults, {wall:.1f}s')
    return 0


def check_meta(prop):
    """constants of a check module, without importing it"""
    import ast
    tree = ast.parse(open(os.path.join(HERE, 'checks', prop.lower() + '.py'), encoding='utf8').read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id.isupper():
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    out.setdefault('MUST_HIT', [])
    return out
