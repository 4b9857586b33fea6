"""Another process: a plain interpreter with the code under test and its own hash seed, asked over a pipe.

Requests are stateless (every one gives its whole input), so answers are a function of the request and the hash seed."""
import atexit
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_kids = {}


def ask(hashseed, op, **args):
    from . import core
    w, core.CUR = core.CUR, None
    try:
        p = _kids.get(hashseed)
        if p is None or p.poll() is not None:
            env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', TQDM_DISABLE='1',
                       NLCODEC_REPO=core.REPO)
            p = _kids[hashseed] = subprocess.Popen(
                [sys.executable, '-X', 'utf8', os.path.join(HERE, 'other.py')], stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, encoding='utf8',
                errors='surrogatepass', cwd='/')
        p.stdin.write(json.dumps(dict(args, op=op)) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise RuntimeError(f'the other process ended ({p.wait()})')
        return json.loads(line)
    finally:
        core.CUR = w


@atexit.register
def close():
    for p in _kids.values():
        try:
            p.kill()
            p.wait()
        except Exception:
            pass
    _kids.clear()


# ---------------------------------------------------------------- in the other process
def do_read_db(path, names, multi):
    from nlcodec.db.core import Db, MultipartDb
    from dst import gen
    db = (MultipartDb if multi else Db).load(path)
    return [len(db), gen.read_rows(db, names)]


def do_order(path, multi, shuffle, seed):
    """identifiers in the order of one pass"""
    import random
    import numpy as np
    from nlcodec.db.core import Db, MultipartDb
    from dst import gen
    random.seed(seed)
    np.random.seed(seed)
    return [gen.key(r.id) for r in (MultipartDb if multi else Db).load(path, shuffle=shuffle)]


def do_learn(lines, level, kw, layout):
    from nlcodec import codec
    from dst import codecutil
    with codecutil.layout(layout):
        return codecutil.table_of(codec.learn_vocab(inp=iter(lines), level=level, model=None, **kw))


def do_model(path, lines, split=0):
    """the table of a saved model and what it does with some lines"""
    from nlcodec import codec
    from dst import codecutil
    s = codec.load_scheme(path)
    return codecutil.behaviour(s, lines)


def do_split(path, lines, ratio, seed):
    import random
    from nlcodec import codec
    s = codec.load_scheme(path)
    random.seed(seed)
    return [[int(i) for i in s.encode(l, split_ratio=ratio)] for l in lines]


def main():
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, os.environ['NLCODEC_REPO'])
    import logging
    out = os.dup(1)
    os.dup2(2, 1)
    import nlcodec  # noqa
    logging.disable(logging.CRITICAL)
    ops = {k[3:]: v for k, v in globals().items() if k.startswith('do_')}
    with os.fdopen(out, 'w', encoding='utf8', errors='surrogatepass') as f:
        for line in sys.stdin:
            d = json.loads(line)
            op = d.pop('op')
            try:
                r = dict(ok=ops[op](**d))
            except Exception as e:
                r = dict(error=f'{type(e).__name__}: {e}')
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
