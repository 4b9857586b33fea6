"""Functions that run in simulated worker processes."""
import builtins

from . import core_ref


class Boom(Exception):
    """an error of the mapper, reducer, encoder or input"""


def error(kind, msg):
    """an error of a drawn kind"""
    if kind == 'OSError':
        return OSError(5, msg)
    if kind == 'UnicodeDecodeError':
        return UnicodeDecodeError('utf-8', b'x', 0, 1, msg)
    if kind == 'Boom':
        return Boom(msg)
    return getattr(builtins, kind)(msg)


# what failing mappers, reducers and inputs raise
KINDS = ['Boom', 'ValueError', 'OSError', 'EOFError', 'UnicodeDecodeError', 'KeyError', 'IndexError', 'TypeError',
         'AttributeError', 'RuntimeError', 'AssertionError', 'MemoryError', 'TimeoutError', 'BrokenPipeError',
         'ConnectionResetError', 'NotImplementedError', 'ZeroDivisionError']


def _work(key):
    """takes simulated time that depends on the item, so workers overtake each other"""
    w = core_ref.world()
    if w is None or w.sched is None or w.sched.me() is None:
        return
    k = w.work_times[hash_of(key) % len(w.work_times)] if getattr(w, 'work_times', None) else 0
    if k == 1:
        w.sched.point('work')
    elif k > 1:
        w.sched.sleep(0.001 * k)


def hash_of(x):
    if isinstance(x, int):
        return x
    return sum(ord(c) * (i + 1) for i, c in enumerate(str(x)))


class Slow:
    """a function that also takes simulated time"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, x):
        _work(x)
        return self.fn(x)


def ident(x):
    _work(x)
    return x


def wrap(x):
    _work(x)
    return (x,)


def as_str(x):
    _work(x)
    return f'<{x}>'


def affine(x):
    """2x2 matrix of x (a non-commutative monoid under product)"""
    _work(x)
    return ((1 + x % 3, x % 7), (x % 2, 1))


def square(x):
    _work(x)
    return x * x


def as_set(x):
    _work(x)
    return frozenset([x])


def some(x):
    """an empty result for some items"""
    _work(x)
    return (x,) if x % 3 else ()


def some_str(x):
    _work(x)
    return '' if x % 2 else str(x)


def as_list(x):
    _work(x)
    return [x]


def cat(a, b):
    _work(len(a))
    return a + b


def add(a, b):
    _work(a)
    return a + b


def biggest(a, b):
    _work(a)
    return max(a, b)


def union(a, b):
    return a | b


def extend(a, b):
    """in place"""
    a.extend(b)
    return a


def matmul(a, b):
    _work(a[0][0])
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(2)) % 1_000_003 for j in range(2)) for i in range(2))


def first_nonzero(a, b):
    """associative, not commutative, identity 0"""
    return a if a else b


def counted_zero(x):
    """zero for some items"""
    _work(x)
    return x % 4


def times(a, b):
    """identity 1, and zero swallows"""
    _work(a)
    return a * b % 1_000_003


def smallest(a, b):
    """identity: infinity"""
    _work(a)
    return min(a, b)


def falsy(x):
    """values of several types, most of them false"""
    _work(x)
    return (None, 0, '', False, (), 0.0, x)[x % 7]


def last_given(a, b):
    """associative, not commutative, identity '∅'"""
    return a if b == '∅' else b


def first_given(a, b):
    return b if a == '∅' else a


def all_true(a, b):
    """identity True"""
    return a and b


def even(x):
    _work(x)
    return x % 8 != 3


class Failing:
    """fn, but it fails at some items"""

    def __init__(self, fn, bad, msg, kind='Boom'):
        self.fn, self.bad, self.msg, self.kind = fn, bad, msg, kind

    def __call__(self, x):
        if x in self.bad:
            _work(x)
            raise error(self.kind, f'{self.msg} at {x!r}')
        return self.fn(x)


class FailingReducer:
    """a reducer over tuples that fails when it sees some items (at either side, or meeting each other)"""

    def __init__(self, bad, mode, kind='Boom'):
        self.bad, self.mode, self.kind = bad, mode, kind

    def __call__(self, a, b):
        _work(len(a))
        if self.mode == 'left' and self.bad in a or self.mode == 'right' and self.bad in b \
                or self.mode == 'root' and len(a) + len(b) >= self.bad:
            raise error(self.kind, f'reducer at {self.bad}')
        return a + b
