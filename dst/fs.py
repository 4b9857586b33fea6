"""Simulated storage: a real scratch directory behind an interposed os / open.

Every operation of the code under test on a path below the scratch root passes a gate, where the simulator may fail it
(errno), shorten it, stop the process (crash) or the machine (power loss) before, inside or after it, or let another
task run. What a dead process still does (finally blocks, destructors) reaches nothing. After a power loss, file data
that was never synced is lost: each file keeps its synced content plus a drawn part of the rest; metadata operations
are durable in order.
"""
import builtins
import errno as E
import io
import os
import stat as stat_m

from .sched import SimInterrupt, SimKilled

REAL = {n: getattr(os, n) for n in (
    'open', 'close', 'write', 'read', 'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace', 'fsync', 'fdatasync',
    'truncate', 'ftruncate', 'link', 'symlink', 'chmod', 'utime', 'scandir', 'listdir', 'stat', 'lstat', 'pwrite',
    'sendfile', 'copy_file_range', 'sync', 'access') if hasattr(os, n)}
real_open = io.open
real_fsync = os.fsync


class SimCrash(SimKilled):
    """the process (or machine) stopped at this storage operation"""


MUTATING = ('open-w', 'open-new', 'write', 'close-w', 'mkdir', 'rmdir', 'unlink', 'rename', 'fsync', 'truncate', 'link', 'symlink',
            'chmod')


class Armed:
    """what fails during one phase of a run"""

    def __init__(self, crash_at=None, power=False, when='before', errors=None, quota=None, short_den=0, read_short=0,
                 kinds=None, interrupt_at=None):
        self.interrupt_at = interrupt_at  # an interrupt (SIGINT) arrives at this operation
        self.crash_at = crash_at          # index of the gated operation
        self.power = power
        self.when = when                  # 'before', 'inside' (writes: torn), 'after'
        self.errors = errors or {}        # {op index: errno}
        self.quota = quota                # bytes that still fit
        self.short_den = short_den        # writes accept a part only: one in short_den
        self.read_short = read_short
        self.kinds = kinds                # kinds that count as operations (None: all)
        self.n = 0
        self.counts = {}
        self.fired = 0
        self.log = []


class SimFS:
    def __init__(self, world, root):
        self.world = world
        self.root = os.path.realpath(root)
        self.armed = None
        self.dead = set()            # pids of dead processes, 'all' after a machine stop
        self.synced = {}             # inode -> bytes known to be durable (files with unsynced data only)
        self.open_w = {}             # inode -> path last used for writing
        self.epoch = 0               # grows at each process/machine stop; older handles are dead
        self.bufsize = None
        self.locale = None         # the encoding of text files opened without naming one; None: UTF-8
        self.shuffle_dirs = True
        self.frozen = False
        self.stat_faults = False
        self.ops = 0
        self.on_gate = None

    # -- helpers
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        return p == self.root or p.startswith(self.root + '/')

    def rel(self, path):
        try:
            p = os.fspath(path)
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if p.startswith(self.root):
                p = p[len(self.root):].lstrip('/') or '.'
            return p
        except TypeError:
            return str(path)

    def proc_epoch(self):
        s = self.world.sched
        t = s.me() if s else None
        return (self.epoch, t.proc if t else None)

    def handle_dead(self, ep):
        if ep[0] != self.epoch:
            return True
        return ep[1] is not None and ep[1].killed

    def gate(self, kind, path, nbytes=0):
        """before an operation. Returns None (go on) or a dict: short=n bytes only, after=callback"""
        w = self.world
        if self.frozen:
            raise SimKilled()
        self.ops += 1
        if w.sched is not None:
            w.sched.point('fs:' + kind)
        w.note_fs(kind, self.rel(path), nbytes)
        if self.on_gate is not None:
            self.on_gate(kind, path)
        a = self.armed
        if a is None or (a.kinds is not None and kind not in a.kinds):
            return None
        i = a.n
        a.n += 1
        a.counts[kind] = a.counts.get(kind, 0) + 1
        if a.log is not None:
            a.log.append(kind)
        out = None
        if a.crash_at is not None and i == a.crash_at:
            a.fired += 1
            how = 'power' if a.power else 'crash'
            w.fault(how + '-' + (a.when if kind in MUTATING else 'before'), f'at op {i} {kind} {self.rel(path)}')
            if a.when == 'before' or kind not in MUTATING:
                self.stop(a.power)
            return {'stop': a.when}
        if a.interrupt_at is not None and i == a.interrupt_at:
            a.fired += 1
            w.fault('interrupt', f'at op {i} {kind} {self.rel(path)}')
            raise SimInterrupt()
        err = a.errors.get(i)
        if err is not None:
            a.fired += 1
            w.fault(E.errorcode.get(err, str(err)), f'at op {i} {kind} {self.rel(path)}')
            if kind == 'write' and nbytes > 1 and w.ch.fault.chance(1, 2):
                return {'short': w.ch.fault.below(nbytes), 'err': err}   # part of it reached the disk
            raise OSError(err, os.strerror(err), self.rel(path))
        if a.quota is not None and kind in ('write', 'open-new', 'mkdir'):
            need = nbytes if kind == 'write' else 0
            if need > a.quota or (kind != 'write' and a.quota <= 0):
                a.fired += 1
                w.fault('ENOSPC-quota', f'at op {i} {kind} {self.rel(path)}')
                if kind == 'write' and a.quota > 0:
                    q, a.quota = a.quota, 0
                    return {'short': q}
                raise OSError(E.ENOSPC, os.strerror(E.ENOSPC), self.rel(path))
            a.quota -= need
        if kind == 'write' and a.short_den and nbytes > 1 and w.ch.fault.chance(1, a.short_den):
            w.fault('short-write', f'at op {i}')
            return {'short': 1 + w.ch.fault.below(nbytes - 1)}
        return out

    def stop(self, power):
        """the process, or the machine, is gone"""
        s = self.world.sched
        if power:
            self.power_loss()
        self.frozen = True
        raise SimCrash('power' if power else 'crash')

    def power_loss(self):
        """file data that was not synced is (partly) lost"""
        w = self.world
        by_ino = {}
        for d, dirs, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                try:
                    st = REAL['lstat'](p)
                except OSError:
                    continue
                if stat_m.S_ISREG(st.st_mode):
                    by_ino.setdefault(st.st_ino, []).append(p)
        for ino in sorted(self.synced, key=lambda i: sorted(by_ino.get(i, ['~']))[0]):
            if ino not in by_ino:
                continue
            p = sorted(by_ino[ino])[0]
            durable = self.synced[ino]
            with real_open(p, 'rb') as f:
                data = f.read()
            if data == durable:
                continue
            how = w.ch.fault.below(4)
            if how == 0:      # all of it reached the disk
                continue
            if how == 1:      # nothing since the last sync
                new = durable
            elif how == 2:    # a prefix
                new = data[:w.ch.fault.below(len(data) + 1)]
                if len(new) < len(durable) and data.startswith(durable):
                    new = durable
            else:             # the size, but not all of the content
                k = w.ch.fault.below(len(data) + 1)
                if data.startswith(durable):
                    k = max(k, len(durable))
                new = data[:k] + bytes(len(data) - k)
            w.fault('lost-write', f'{self.rel(p)}: {len(data)} -> {len(new)} bytes ({how})')
            with real_open(p, 'wb') as f:
                f.write(new)
        self.synced = {}

    def revive(self):
        """the process or machine starts again"""
        self.frozen = False
        self.epoch += 1
        self.armed = None

    def dirty(self, fd, new=False):
        """called before the content of the file changes"""
        ino = os.fstat(fd).st_ino
        if new:
            self.synced[ino] = b''
        elif ino not in self.synced:
            with real_open(f'/proc/self/fd/{fd}', 'rb') as f:
                self.synced[ino] = f.read()

    def gone(self, path):
        """called before a name goes away"""
        try:
            st = REAL['lstat'](path)
        except OSError:
            return
        if st.st_nlink == 1:
            self.synced.pop(st.st_ino, None)

    def lost_pages(self, fd):
        """a sync failed: the system drops the pages it could not write, sooner or later, without another error"""
        w = self.world
        st = os.fstat(fd)
        if not stat_m.S_ISREG(st.st_mode) or st.st_ino not in self.synced or not w.ch.fault.chance(2, 3):
            return
        durable = self.synced[st.st_ino]
        with real_open(f'/proc/self/fd/{fd}', 'rb') as f:
            data = f.read()
        if data == durable:
            return
        k = len(durable) if data.startswith(durable) else 0
        w.fault('lost-pages', f'{len(data) - k} of {len(data)} bytes')
        with real_open(f'/proc/self/fd/{fd}', 'r+b') as f:
            f.seek(k)
            f.write(bytes(len(data) - k))

    def mark_synced(self, fd):
        self.synced.pop(os.fstat(fd).st_ino, None)


class SimRaw(io.FileIO):
    """a file below the scratch root"""

    def __init__(self, fs, path, mode):
        self._fs = fs
        self._writes = any(c in mode for c in 'wxa+')
        new = self._writes and not os.path.exists(path)
        self._path = fs.rel(path)
        g = fs.gate('open-new' if new else 'open-w' if self._writes else 'open-r', path)
        if self._writes and not new and ('w' in mode):
            # truncation is a change of content
            try:
                fd = REAL['open'](path, os.O_RDONLY)
                try:
                    fs.dirty(fd)
                finally:
                    REAL['close'](fd)
            except OSError:
                pass
        self._ep = fs.proc_epoch()
        super().__init__(path, mode)
        if new:
            fs.dirty(self.fileno(), new=True)
        if g and 'stop' in g:
            fs.stop(fs.armed.power)

    def write(self, b):
        fs = self._fs
        if fs.frozen or fs.handle_dead(self._ep):
            return len(b) if isinstance(b, (bytes, bytearray)) else memoryview(b).nbytes   # nobody's left to see it
        mv = memoryview(b).cast('B')
        n = mv.nbytes
        g = fs.gate('write', self._path, n)
        fs.dirty(self.fileno())
        if g is None:
            return super().write(mv)
        if 'stop' in g:
            if g['stop'] == 'inside' and n:
                k = fs.world.ch.fault.below(n + 1)
                if k:
                    super().write(mv[:k])
            else:
                super().write(mv)
            fs.stop(fs.armed.power)
        k = super().write(mv[:g['short']]) if g['short'] else 0
        if 'err' in g:
            raise OSError(g['err'], os.strerror(g['err']), self._path)
        return k

    def _rgate(self, n):
        fs = self._fs
        if fs.frozen or fs.handle_dead(self._ep):
            raise SimKilled()
        fs.gate('read', self._path, n)
        a = fs.armed
        if n > 1 and a is not None and a.read_short and fs.world.ch.fault.chance(1, a.read_short):
            fs.world.fault('short-read', self._path)
            return 1 + fs.world.ch.fault.below(n - 1)
        return n

    def readinto(self, b):
        mv = memoryview(b).cast('B')
        n = self._rgate(mv.nbytes)
        return super().readinto(mv[:n])

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return super().read(self._rgate(size))

    def readall(self):
        out = []
        while True:
            n = self._rgate(1 << 16)
            c = super().read(n)
            if not c:
                return b''.join(out)
            out.append(c)

    def truncate(self, size=None):
        self._fs.gate('truncate', self._path)
        self._fs.dirty(self.fileno())
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        fs = self._fs
        if fs.frozen or fs.handle_dead(self._ep) or not self._writes:
            return super().close()
        try:
            g = fs.gate('close-w', self._path)
        except BaseException:
            super().close()
            raise
        super().close()
        if g and 'stop' in g:
            fs.stop(fs.armed.power)


class PermutedScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def make_open(get_fs):
    """builtins.open / io.open"""

    def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        fs = get_fs()
        if fs is None or isinstance(file, int) or opener is not None or not fs.inside(file):
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(mode, str):
            raise TypeError(f'invalid mode: {mode!r}')
        modes = set(mode)
        if modes - set('axrwb+t') or len(mode) > len(modes):
            raise ValueError(f'invalid mode: {mode!r}')
        text, binary = 't' in modes, 'b' in modes
        if text and binary:
            raise ValueError("can't have text and binary mode at once")
        if sum(c in modes for c in 'xrwa') != 1:
            raise ValueError('must have exactly one of create/read/write/append mode')
        if binary and (encoding is not None or errors is not None or newline is not None):
            raise ValueError('binary mode doesn\'t take text arguments')
        rawmode = ''.join(c for c in 'xrwa+' if c in modes)
        path = os.fspath(file)
        raw = SimRaw(fs, path, rawmode)
        try:
            line_buffering = buffering == 1 and not binary
            size = fs.bufsize or 8192
            if buffering > 1:
                size = buffering
            if buffering == 0:
                if binary:
                    return raw
                raise ValueError("can't have unbuffered text I/O")
            if '+' in modes:
                buf = io.BufferedRandom(raw, size)
            elif modes & set('xwa'):
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            if encoding is None or encoding == 'locale':
                encoding = fs.locale or 'utf-8'
            txt = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
            txt.mode = mode
            if fs.bufsize and hasattr(txt, '_CHUNK_SIZE'):
                try:
                    txt._CHUNK_SIZE = fs.bufsize
                except Exception:
                    pass
            return txt
        except BaseException:
            raw.close()
            raise

    return sim_open


def install(get_fs):
    """interposes; get_fs() gives the SimFS of the current run or None"""
    so = make_open(get_fs)
    builtins.open = so
    io.open = so

    def wrap(name, kind, paths=1):
        real = REAL[name]

        def f(*args, **kw):
            fs = get_fs()
            if fs is None or not args or kw.get('dir_fd') is not None or kw.get('src_dir_fd') is not None:
                return real(*args, **kw)
            tgt = args[0] if not (paths == 2 and len(args) > 1 and not fs.inside(args[0])) else args[1]
            if isinstance(tgt, int) or not fs.inside(tgt):
                return real(*args, **kw)
            if fs.frozen:
                raise SimKilled()
            g = fs.gate(kind, args[1] if kind in ('rename', 'link') and len(args) > 1 else tgt)
            if kind == 'truncate':
                fd = REAL['open'](tgt, os.O_RDWR)
                try:
                    fs.dirty(fd)
                finally:
                    REAL['close'](fd)
            if kind == 'unlink':
                fs.gone(tgt)
            elif kind == 'rename':
                fs.gone(args[1])
            r = real(*args, **kw)
            if g and 'stop' in g:
                fs.stop(fs.armed.power)
            return r
        f.__name__ = name
        return f

    os.mkdir = wrap('mkdir', 'mkdir')
    os.rmdir = wrap('rmdir', 'rmdir')
    os.unlink = wrap('unlink', 'unlink')
    os.remove = wrap('remove', 'unlink')
    os.rename = wrap('rename', 'rename', 2)
    os.replace = wrap('replace', 'rename', 2)
    os.link = wrap('link', 'link', 2)
    os.symlink = wrap('symlink', 'symlink', 2)
    os.chmod = wrap('chmod', 'chmod')
    os.truncate = wrap('truncate', 'truncate')

    fds = {}

    def s_open(path, flags, mode=0o777, *, dir_fd=None):
        fs = get_fs()
        if fs is None or dir_fd is not None or not fs.inside(path):
            return REAL['open'](path, flags, mode, dir_fd=dir_fd)
        if fs.frozen:
            raise SimKilled()
        wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
        new = bool(flags & os.O_CREAT) and not os.path.exists(path)
        g = fs.gate('open-new' if new else 'open-w' if wr else 'open-r', path)
        fd = REAL['open'](path, flags & ~os.O_TRUNC, mode)
        if wr:
            if new or flags & os.O_TRUNC:
                fs.dirty(fd, new=new)
            if flags & os.O_TRUNC:
                REAL['ftruncate'](fd, 0)
        fds[fd] = (fs.proc_epoch(), fs.rel(path))
        if g and 'stop' in g:
            fs.stop(fs.armed.power)
        return fd

    def s_close(fd):
        fds.pop(fd, None)
        return REAL['close'](fd)

    def s_write(fd, data):
        fs = get_fs()
        if fs is None or fd not in fds:
            return REAL['write'](fd, data)
        ep, path = fds[fd]
        if fs.frozen or fs.handle_dead(ep):
            raise SimKilled()
        mv = memoryview(data).cast('B')
        g = fs.gate('write', path, mv.nbytes)
        fs.dirty(fd)
        if g is None:
            return REAL['write'](fd, mv)
        if 'stop' in g:
            k = fs.world.ch.fault.below(mv.nbytes + 1) if g['stop'] == 'inside' else mv.nbytes
            if k:
                REAL['write'](fd, mv[:k])
            fs.stop(fs.armed.power)
        k = REAL['write'](fd, mv[:g['short']]) if g['short'] else 0
        if 'err' in g:
            raise OSError(g['err'], os.strerror(g['err']), path)
        return k

    def sync_like(name):
        real = REAL[name]

        def f(fd):
            fs = get_fs()
            if fs is None:
                return real(fd)
            n = fd if isinstance(fd, int) else fd.fileno()
            try:
                path = os.readlink(f'/proc/self/fd/{n}')
            except OSError:
                return real(fd)
            if not fs.inside(path):
                return real(fd)
            if fs.frozen:
                raise SimKilled()
            try:
                g = fs.gate('fsync', path)
            except OSError:
                fs.lost_pages(n)
                raise
            if stat_m.S_ISREG(os.fstat(n).st_mode):
                fs.mark_synced(n)
            if g and 'stop' in g:
                fs.stop(fs.armed.power)
        f.__name__ = name
        return f

    os.open, os.close, os.write = s_open, s_close, s_write
    os.fsync = sync_like('fsync')
    os.fdatasync = sync_like('fdatasync')

    def s_scandir(path='.'):
        fs = get_fs()
        if fs is None or isinstance(path, int) or not fs.inside(path):
            return REAL['scandir'](path)
        fs.gate('scandir', path)
        with REAL['scandir'](path) as it:
            ents = sorted(it, key=lambda e: e.name)
        return PermutedScandir(fs.world.permute_names(ents) if fs.shuffle_dirs else ents)

    def s_listdir(path='.'):
        fs = get_fs()
        if fs is None or isinstance(path, int) or not fs.inside(path):
            return REAL['listdir'](path)
        fs.gate('scandir', path)
        ents = sorted(REAL['listdir'](path))
        return fs.world.permute_names(ents) if fs.shuffle_dirs else ents

    os.scandir, os.listdir = s_scandir, s_listdir

    def statlike(name):
        real = REAL[name]

        def f(path, *args, **kw):
            fs = get_fs()
            if fs is None or isinstance(path, int) or kw.get('dir_fd') is not None or not fs.inside(path):
                return real(path, *args, **kw)
            if fs.frozen:
                raise SimKilled()
            return real(path, *args, **kw)
        f.__name__ = name
        return f

    os.stat, os.lstat = statlike('stat'), statlike('lstat')
    # names bound elsewhere at import
    import shutil
    import pathlib
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_USE_CP_COPY_FILE_RANGE'):
        shutil._USE_CP_COPY_FILE_RANGE = False
    import glob as glob_m  # noqa
    _ = pathlib
