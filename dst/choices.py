"""Every decision of a simulated run is one integer drawn here.

Three independent streams (plan: workload and configuration, fault: what fails and where, sched: who runs next) come
from one PRNG seed. A run records what it drew; a replay feeds the record back. 0 is always the simplest choice, and a
record that is too short or out of range still replays (missing: 0, too large: capped), so records can be minimised.
"""
import hashlib
import random


class Stream:
    __slots__ = ('name', 'rng', 'rec', 'feed', 'pos')

    def __init__(self, name, seed=None, feed=None):
        self.name = name
        self.feed = feed
        self.pos = 0
        self.rec = []
        if feed is None:
            h = hashlib.sha256(f'{seed}/{name}'.encode()).digest()
            self.rng = random.Random(int.from_bytes(h[:16], 'big'))
        else:
            self.rng = None

    def below(self, n):
        """an integer in [0, n)"""
        if n <= 1:
            return 0
        if self.feed is None:
            v = self.rng.randrange(n)
        else:
            v = self.feed[self.pos] if self.pos < len(self.feed) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        """an integer in [lo, hi]; lo is the simplest"""
        return lo + self.below(hi - lo + 1)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def chance(self, num, den):
        """True in num of den cases; False is the simplest"""
        if num <= 0:
            return False
        return self.below(den) >= den - num

    def weighted(self, pairs):
        """pairs: (weight, value); the first is the simplest"""
        tot = sum(w for w, _ in pairs)
        v = self.below(tot)
        for w, val in pairs:
            if v < w:
                return val
            v -= w
        raise AssertionError

    def small(self, hi, den=3):
        """an integer in [0, hi], small ones more likely (one draw)"""
        v = self.below((hi + 1) * (hi + 1))
        # inverse of a triangular distribution, 0 the most likely and the simplest
        k = 0
        width = 2 * hi + 1
        while v >= width and width > 1:
            v -= width
            width -= 2
            k += 1
        return min(k, hi)

    def sample_len(self, seq, k):
        """k distinct elements of seq, in a drawn order"""
        pool = list(seq)
        out = []
        for _ in range(min(k, len(pool))):
            out.append(pool.pop(self.below(len(pool))))
        return out

    def shuffle(self, seq):
        """a permutation of seq; all-zero draws leave it as it is"""
        pool = list(seq)
        out = []
        while pool:
            out.append(pool.pop(self.below(len(pool))))
        return out

    def seed32(self):
        return self.below(1 << 32)


class Choices:
    NAMES = ('plan', 'fault', 'sched')

    def __init__(self, seed=None, feed=None):
        self.seed = seed
        for n in self.NAMES:
            setattr(self, n, Stream(n, seed=seed, feed=None if feed is None else list(feed.get(n, ()))))

    def record(self):
        return {n: list(getattr(self, n).rec) for n in self.NAMES}
