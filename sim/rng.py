"""The only source of randomness of the simulator.

Every choice is drawn from a PRNG that is seeded with a string derived from
VERIF_SEED (hashed with SHA-256, so PYTHONHASHSEED cannot matter)."""
import hashlib
import math
import random


class Rng(random.Random):
    def __new__(cls, *parts):
        return super().__new__(cls)

    def __init__(self, *parts):
        self.parts = parts
        text = "/".join(str(p) for p in parts)
        super().__init__(int.from_bytes(hashlib.sha256(text.encode()).digest()[:16], "big"))

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        r = self.random() * total
        for v, w in pairs:
            r -= w
            if r < 0:
                return v
        return pairs[-1][0]

    def log_int(self, lo, hi):
        """Integer in [lo, hi], log-uniformly."""
        return min(hi, int(math.exp(self.uniform(math.log(lo), math.log(hi + 1)))))

    def frac(self):
        """A position inside an operation: uniform, but often near an end."""
        mode = self.randrange(5)
        if mode == 0:
            return round(self.random() ** 3, 6)
        if mode == 1:
            return round(1 - self.random() ** 3, 6)
        return round(self.random(), 6)
