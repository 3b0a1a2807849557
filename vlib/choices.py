"""Recorded random choices: every generator draws from a Choices object, so a
case is a pure function of a list of integers, which is what is shrunk."""
import random


class Exhausted(Exception):
    pass


class Choices:
    def __init__(self, seed=None, prefix=None, limit=20000):
        self.rng = random.Random(seed) if prefix is None else None
        self.prefix = prefix
        self.rec = []
        self.limit = limit

    def _draw(self, n):
        """an integer in [0, n)"""
        i = len(self.rec)
        if i >= self.limit:
            raise Exhausted()
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def below(self, n):
        return self._draw(n) if n > 1 else 0

    def rng_int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def bool(self, num=1, den=2):
        # 0 (the shrunk value) means False
        return self._draw(den) >= den - num

    def wpick(self, pairs):
        """pairs: [(weight, value)]; shrinks to the first"""
        tot = sum(w for w, _ in pairs)
        k = self._draw(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def perm(self, xs):
        xs = list(xs)
        out = []
        while xs:
            out.append(xs.pop(self.below(len(xs))))
        return out

    def subset(self, xs, num=1, den=2):
        return [x for x in xs if self.bool(num, den)]

    def list(self, lo, hi, fn):
        return [fn() for _ in range(self.rng_int(lo, hi))]


def shrink(prefix, still_fails, budget=400):
    """Greedy deletion / zeroing / halving on the choice list.  still_fails(list)
    returns the recorded choices of the failing run, or None."""
    best = list(prefix)
    tries = [0]

    def attempt(c):
        nonlocal best
        if tries[0] >= budget:
            return False
        tries[0] += 1
        r = still_fails(c)
        if r is not None:
            r = list(r)
            while r and r[-1] == 0:
                r.pop()
            if (len(r), r) < (len(best), best):
                best = r
                return True
        return False

    improved = True
    while improved and tries[0] < budget:
        improved = False
        k = max(1, len(best) // 2)
        while k >= 1:
            i = max(0, len(best) - k)
            while i >= 0:
                if i < len(best):
                    if attempt(best[:i] + best[i + k:]):
                        improved = True
                        i = min(i, len(best))
                        continue
                if tries[0] >= budget:
                    break
                i -= k
            k //= 2
            if tries[0] >= budget:
                break
        k = 8
        while k >= 1:
            i = 0
            while i < len(best):
                if any(best[i:i + k]):
                    if attempt(best[:i] + [0] * len(best[i:i + k]) + best[i + k:]):
                        improved = True
                i += k
            k //= 2
        i = 0
        while i < len(best) and tries[0] < budget:
            if best[i] > 1:
                lo, hi = 0, best[i]
                while lo < hi - 1:
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                        if i >= len(best):
                            break
                        hi = best[i]
                    else:
                        lo = mid
            i += 1
    return best
