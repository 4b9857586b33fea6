"""What fails while something is being stored."""
import errno

ERRNOS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EDQUOT, errno.EROFS, errno.EMFILE, errno.ENFILE, errno.EPERM,
          errno.ESTALE, errno.ETIMEDOUT, errno.EBUSY, errno.ENOMEM, errno.EFBIG]
READ_ERRNOS = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.ENOENT, errno.ESTALE, errno.ETIMEDOUT,
               errno.EPERM, errno.ENOMEM]


class Sticky(dict):
    """every operation from one on fails"""

    def __init__(self, start, err, upto):
        super().__init__()
        self.start, self.err, self.upto = start, err, upto

    def get(self, i, default=None):
        return self.err if self.start <= i < self.upto else default


def arm_faults(w, n_ops, n_bytes, kinds=None):
    """draws errors of storage operations"""
    f = w.fault_ch
    n_ops = max(1, n_ops)
    kind = f.below(5)
    kw = {}
    if kind == 0:
        kw['errors'] = {f.below(n_ops): f.pick(ERRNOS)}
    elif kind == 1:
        kw['quota'] = f.below(n_bytes + 1)
    elif kind == 2:
        k = f.below(n_ops)
        kw['errors'] = Sticky(k, f.pick(ERRNOS), k + 2 + f.below(n_ops))
        w.probe('sticky')
    elif kind == 3:
        kw['errors'] = {f.below(n_ops): f.pick(ERRNOS) for _ in range(2 + f.below(2))}
    if kind == 4 or f.chance(1, 4):
        kw['short_den'] = 1 + f.below(3)
    return w.arm(kinds=kinds, **kw)


def arm_stop(w, n_ops):
    """draws a stop of the process or machine, or an interrupt"""
    at = w.fault_ch.below(max(1, n_ops))
    mode = w.fault_ch.below(3)
    when = w.fault_ch.pick(['before', 'inside', 'after'])
    if mode == 2:
        return w.arm(interrupt_at=at)
    errors = {}
    if w.fault_ch.chance(1, 4):
        # an operation before fails; whether that is reported or not
        w.probe('error-then-stop')
        errors = {w.fault_ch.below(at + 1): w.fault_ch.pick(ERRNOS)}
        at += w.fault_ch.below(10)
    return w.arm(crash_at=at, power=mode == 1, when=when, errors=errors)
