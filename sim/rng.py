"""Seeded randomness.  Every choice of a simulated run comes from one integer.

A `Rng` is a SplitMix64 stream whose initial state is a hash of (seed, label...).
It does not use Python's `random`, `hash()` or anything that depends on PYTHONHASHSEED.
"""
import hashlib

_M = (1 << 64) - 1


def derive(seed, *labels) -> int:
    h = hashlib.sha256(repr((int(seed),) + tuple(str(x) for x in labels)).encode()).digest()
    return int.from_bytes(h[:8], "little")


class Rng:
    __slots__ = ("s",)

    def __init__(self, seed, *labels):
        self.s = derive(seed, *labels) if labels else int(seed) & _M

    def u64(self) -> int:
        self.s = (self.s + 0x9E3779B97F4A7C15) & _M
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & _M
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & _M
        return z ^ (z >> 31)

    def below(self, n: int) -> int:
        return self.u64() % n

    def range(self, a: int, b: int) -> int:
        """a..b inclusive"""
        return a + self.below(b - a + 1)

    def p(self, prob: float) -> bool:
        return (self.u64() >> 11) / float(1 << 53) < prob

    def f(self) -> float:
        return (self.u64() >> 11) / float(1 << 53)

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.f() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffle(self, seq):
        for i in range(len(seq) - 1, 0, -1):
            j = self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(list(seq))[:k]

    def fork(self, label) -> "Rng":
        return Rng(self.u64(), label)
