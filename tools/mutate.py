#!/usr/bin/env python3
"""mutate.py OUT.jsonl FILE... : small changes of the code, one at a time, and which check notices them.

For finding what the checks overlook; a development tool, no check uses it."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

REPO = '/repo'
CHECKS = {
    'nlcodec/db/core.py': 'C22 C04 C05 C03 C01 C02 C06',
    'nlcodec/db/batch.py': 'C05 C06 C22 C04',
    'nlcodec/db/__init__.py': 'C04',
    'nlcodec/codec.py': 'C13 C17 C18 C15 C14 C16 C19 C07 C09 C20',
    'nlcodec/para/mapred.py': 'C08 C09',
    'nlcodec/spark.py': 'C11 C10 C12 C03',
    'nlcodec/term_freq.py': 'C10 C12',
    'nlcodec/learn.py': 'C12 C18',
    'nlcodec/bitextdb.py': 'C11',
    'nlcodec/utils.py': 'C13 C18 C20 C01 C02 C17 C12 C15 C14',
    'nlcodec/__main__.py': 'C15 C18 C20',
    'nlcodec/bpe.py': 'C19 C14 C18 C16 C12',
    'nlcodec/dstruct.py': 'C19 C14 C16 C15',
    'nlcodec/qestim.py': 'C20',
    'nlcodec/eval/bpe_len.py': 'C20',
    'nlcodec/eval/oov_count.py': 'C20',
    'nlcodec/eval/pr_measure.py': 'C20',
    'nlcodec/eval/termfreq.py': 'C20',
}
RUNS = os.environ.get('RUNS', '800')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add}


def variants(tree):
    """(line, what, changed tree)"""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        def var(what, change):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            change(m)
            return getattr(n, 'lineno', 0), what, t
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            def f(m):
                m.ops[0] = CMP[type(m.ops[0])]()
            yield var(f'cmp {type(n.ops[0]).__name__}', f)
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            def f(m):
                m.op = BIN[type(m.op)]()
            yield var(f'op {type(n.op).__name__}', f)
        if isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield var('boolop', f)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            for v in ([not n.value] if isinstance(n.value, bool) else [n.value + 1, 0] if isinstance(n.value, (int, float)) and n.value else [1] if n.value == 0 else []):
                def f(m, v=v):
                    m.value = v
                yield var(f'const {n.value!r} -> {v!r}', f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            def f(m):
                m.op = ast.UAdd() if isinstance(m.op, ast.USub) else m.op
                if isinstance(m.op, ast.Not):
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield var('unary', f)
        if isinstance(n, ast.IfExp):
            def f(m):
                m.body, m.orelse = m.orelse, m.body
            yield var('ifexp', f)
        if isinstance(n, (ast.If, ast.While)):
            def f(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            yield var('if not', f)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            def f(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            yield var('swap args', f)
        if isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                def f(m, k=k):
                    del m.keywords[k]
                yield var(f'drop keyword {n.keywords[k].arg}', f)
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            def f(m):
                m.elts.reverse()
            yield var('swap tuple', f)
        if isinstance(n, ast.Slice) and (n.lower or n.upper):
            def f(m):
                m.lower = m.upper = None
            yield var('whole slice', f)
        if isinstance(n, ast.Break):
            pass
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list):
                continue
            for k, s in enumerate(b):
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Continue, ast.Break, ast.Return, ast.Delete)):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    src = ast.unparse(s)
                    if 'log.' in src:
                        continue

                    def f(m, k=k, field=field):
                        getattr(m, field)[k] = ast.Pass()
                    l, w, t = var(f'delete {src[:60]}', f)
                    yield s.lineno, w, t
                if isinstance(s, ast.With):
                    def f(m, k=k, field=field):
                        x = getattr(m, field)
                        x[k:k + 1] = [ast.Assign([i.optional_vars], i.context_expr, lineno=1) if i.optional_vars else ast.Expr(i.context_expr) for i in x[k].items] + x[k].body
                    l, w, t = var('unwrap with', f)
                    yield s.lineno, w, t
        if isinstance(n, ast.FunctionDef) and False:
            pass


def run(job):
    f, line, what, src, k = job
    d = tempfile.mkdtemp(prefix='mut-', dir='/dev/shm')
    res = dict(file=f, line=line, what=what)
    try:
        shutil.copytree(f'{REPO}/nlcodec', f'{d}/nlcodec', ignore=shutil.ignore_patterns('__pycache__'))
        with open(f'{d}/{f}', 'w') as h:
            h.write(src)
        env = dict(os.environ, NLCODEC_REPO=d, DST_NO_EVIDENCE='1', DST_MINIMISE_S='0', DST_REPLAY_DIR=d + '/r', PYTHONDONTWRITEBYTECODE='1', DST_HANG_S='60', DST_CAP_S='120')
        r = subprocess.run(['/opt/venv/bin/python', '-c', f'import importlib; importlib.import_module({f[:-3].replace("/", ".").replace(".__init__", "")!r})'], cwd=d, env=dict(env, PYTHONPATH=d), capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
        if r.returncode:
            res['by'] = 'import'
            return res
        res['rc'] = {}
        for c in CHECKS[f].split():
            try:
                r = subprocess.run(['bash', '-c', 'ulimit -v 4000000; exec "$@"', '-', 'python3', '/verif/check.py', c, '--runs', RUNS, '--workers', '1', '--seed', '7'], env=env, cwd='/verif', capture_output=True, text=True, timeout=400)
                res['rc'][c] = r.returncode
                if r.returncode == 1:
                    res['by'] = c
                    res['how'] = [l for l in r.stdout.splitlines() if l and not l.startswith('VIOL')][-1][:200]
                    return res
                if r.returncode:
                    res.setdefault('err', {})[c] = (r.stdout + r.stderr)[-300:]
            except subprocess.TimeoutExpired:
                res['rc'][c] = 'timeout'
        res['by'] = None
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(out, *files):
    done = set()
    if os.path.exists(out):
        done = {(r['file'], r['line'], r['what']) for r in map(json.loads, open(out))}
    jobs = []
    for f in files:
        src = open(f'{REPO}/{f}').read()
        seen = set()
        for line, what, t in variants(ast.parse(src)):
            try:
                s = ast.unparse(ast.fix_missing_locations(t))
            except Exception:
                continue
            if s not in seen and (f, line, what) not in done:
                seen.add(s)
                jobs.append((f, line, what, s, len(jobs)))
    random.Random(1).shuffle(jobs)
    lim = int(os.environ.get('LIMIT', '100000'))
    print(len(jobs), 'mutants', flush=True)
    with ThreadPoolExecutor(int(os.environ.get('PAR', '7'))) as ex, open(out, 'a') as h:
        for r in (x.result() for x in as_completed([ex.submit(run, j) for j in jobs[:lim]])):
            h.write(json.dumps(r, ensure_ascii=False) + '\n')
            h.flush()


if __name__ == '__main__':
    main(*sys.argv[1:])
