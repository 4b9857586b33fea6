"""The command line program inside the simulator: standard streams, arguments and the end of the process."""
import errno
import gc
import io
import sys

from .fs import SimInterrupt
from .sched import SimKilled


class Chan:
    """a pipe of limited capacity between two simulated processes, or an endless sink / a given source"""

    def __init__(self, w, cap=None):
        self.w = w
        self.cap = cap
        self.buf = bytearray()
        self.total = bytearray()      # everything accepted
        self.eof = False              # the writing end is closed
        self.broken = False           # the reading end is closed
        self.waiting = []

    def wake(self):
        for t in self.waiting:
            self.w.sched.wake(t)
        self.waiting = []

    def wait(self, what):
        self.waiting.append(self.w.sched.me())
        self.w.sched.block(what)


class RawIn(io.RawIOBase):
    """standard input: a given text in drawn portions, or a pipe"""

    def __init__(self, w, data=None, chan=None, short=0, err_at=None, exc=None, slow=False):
        self.w, self.data, self.chan = w, data, chan
        self.pos = 0
        self.short, self.err_at, self.exc, self.slow = short, err_at, exc, slow
        self.fired = False

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def readinto(self, b):
        w = self.w
        n = len(b)
        if w.sched is not None:
            w.sched.point('stdin')
            if self.slow:
                w.sched.sleep(0.001 * w.ch.sched.below(4))
        c = self.chan
        if c is not None:
            while not c.buf and not c.eof:
                c.wait('input')
            n = min(n, len(c.buf))
            if n > 1 and self.short and w.ch.fault.chance(1, self.short):
                n = 1 + w.ch.fault.below(n - 1)
                w.fault('short-read', 'stdin')
            b[:n] = c.buf[:n]
            del c.buf[:n]
            c.wake()
            w.note('stdin', n)
            return n
        left = len(self.data) - self.pos
        if self.err_at is not None:
            left = min(left, self.err_at - self.pos)
            if left <= 0:
                self.fired = True
                w.fault('input-' + type(self.exc).__name__, self.pos)
                raise self.exc
        n = min(n, left)
        if n > 1 and self.short and w.ch.fault.chance(1, self.short):
            n = 1 + w.ch.fault.below(n - 1)
            w.fault('short-read', 'stdin')
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        w.note('stdin', n)
        return n


class RawOut(io.RawIOBase):
    """standard output"""

    def __init__(self, w, chan, short=0, room=None, exc=None):
        self.w, self.chan, self.short, self.room, self.exc = w, chan, short, room, exc
        self.fired = self.gone = False

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def write(self, b):
        w, c = self.w, self.chan
        mv = memoryview(b).cast('B')
        n = mv.nbytes
        if w.sched is not None:
            w.sched.point('stdout')
        if self.room is not None:
            if self.room <= 0 and n:
                self.fired = True
                self.gone = isinstance(self.exc, BrokenPipeError)
                w.fault('output-' + (errno.errorcode.get(getattr(self.exc, 'errno', 0), type(self.exc).__name__)))
                raise self.exc
            n = min(n, self.room)
        if c.cap is not None:
            while not c.broken and len(c.buf) >= c.cap:
                c.wait('room for output')
            n = min(n, c.cap - len(c.buf)) if not c.broken else n
        if c.broken:
            self.fired = self.gone = True
            w.fault('broken-pipe')
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        if n > 1 and self.short and w.ch.fault.chance(1, self.short):
            n = 1 + w.ch.fault.below(n - 1)
            w.fault('short-write', 'stdout')
        if self.room is not None:
            self.room -= n
        c.total += mv[:n]
        if c.cap is not None:
            c.buf += mv[:n]
            c.wake()
        w.note('stdout', n)
        return n


def text_in(raw, size):
    t = io.TextIOWrapper(io.BufferedReader(raw, size), encoding='utf-8', errors='strict')
    try:
        t._CHUNK_SIZE = size
    except Exception:
        pass
    t.mode = 'r'
    return t


def text_out(raw, size):
    t = io.TextIOWrapper(io.BufferedWriter(raw, size), encoding='utf-8', errors='strict')
    try:
        t._CHUNK_SIZE = size
    except Exception:
        pass
    t.mode = 'w'
    return t


class PerTask:
    """sys.stdin / sys.stdout: that of the running process"""

    def __init__(self, name):
        object.__setattr__(self, '_name', name)

    def _cur(self):
        from . import core
        s = core.cur_sched()
        t = s.me() if s else None
        return getattr(STREAMS[t.proc if t else None], self._name)

    def __getattr__(self, k):
        return getattr(self._cur(), k)

    def __setattr__(self, k, v):
        setattr(self._cur(), k, v)

    def __iter__(self):
        return iter(self._cur())

    def __next__(self):
        return next(self._cur())

    def __enter__(self):
        return self._cur().__enter__()

    def __exit__(self, *a):
        return self._cur().__exit__(*a)


STREAMS = {}


class Std:
    def __init__(self, stdin, stdout):
        self.stdin, self.stdout = stdin, stdout


def run(w, main, argv, stdin, stdout):
    """(within a Session) runs main() as the process would: success is what the exit status would be 0 for.

    Returns (success, exception or None); a SimKilled of this process goes through."""
    t = w.sched.me() if w.sched else None
    key = t.proc if t else None
    STREAMS[key] = Std(stdin, stdout)
    sys.argv = list(argv)
    err = None
    try:
        try:
            r = main()
            if r not in (None, 0, False):
                err = SystemExit(r)
        except SystemExit as e:
            if e.code not in (None, 0):
                err = e
        except (SimKilled, SimInterrupt) as e:
            if isinstance(e, SimKilled):
                raise
            err = e
        except Exception as e:
            err = e
        # the end of the process: what is still buffered for standard output is written
        try:
            if not stdout.closed:
                stdout.flush()
        except SimKilled:
            raise
        except (Exception, SimInterrupt) as e:
            err = err or e
    finally:
        if err is not None:
            err.__traceback__ = None     # files held by its frames are closed now, as at exit
        gc.collect(1)
        quiet_close(stdout)
        quiet_close(stdin)
    return err is None, err


def program(name):
    """python -m name: the module run as the program, with its own handling of errors"""
    import importlib.util
    spec = importlib.util.find_spec(name)
    code = spec.loader.get_code(name)

    def body():
        exec(code, dict(__name__='__main__', __spec__=spec, __package__=spec.parent, __file__=spec.origin,
                        __loader__=spec.loader, __builtins__=__builtins__))
    return body


def quiet_close(t):
    try:
        t.close()
    except Exception:
        pass


class Session:
    """swaps the streams once for several processes that run at the same time"""

    def __enter__(self):
        self.real = sys.stdin, sys.stdout, sys.argv
        sys.stdin, sys.stdout = PerTask('stdin'), PerTask('stdout')

    def __exit__(self, *a):
        sys.stdin, sys.stdout, sys.argv = self.real
        STREAMS.clear()
