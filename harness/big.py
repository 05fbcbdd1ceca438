"""Large inputs: cases that are only a size and a seed, expanded in the facet.

Hypothesis keeps lists short; what only happens from some number of rows,
points or winds on needs inputs beyond that. The case (and so the replay file)
holds the size and the seed; shrinking makes the size smaller.
"""
import math
import random

from hypothesis import strategies as st


class Rng(random.Random):
    def num(self, lo, hi):
        """like gen.nice: whole numbers, decimals, dyadics and floats"""
        k = self.randrange(5)
        x = self.uniform(lo, hi)
        if k == 0:
            x = float(round(x))
        elif k == 1:
            x = round(x, self.randrange(1, 4))
        elif k < 4:
            x = math.floor(x * 64) / 64
        return min(max(x, lo), hi) + 0.0

    def grid(self, lo, hi, den=64):
        return self.randint(math.ceil(lo * den), math.floor(hi * den)) / den

    def uniq(self, n, draw, key=None):
        """n distinct values of draw() (fewer, if there are not that many)"""
        seen, out = set(), []
        for _ in range(20 * n):
            if len(out) == n:
                break
            x = draw()
            k = key(x) if key else x
            if k not in seen:
                seen.add(k)
                out.append(x)
        return out

    def times(self, n, draw):
        return [draw() for _ in range(n)]

    def shape(self, n, cells=3000):
        """rows and columns, at least one of them n"""
        k = self.randrange(3)
        other = max(1, min(n, cells // n)) if k == 2 else self.randint(1, max(1, min(6, cells // n)))
        return (n, other) if self.random() < 0.5 else (other, n)

    def table(self, n, sort=False, bsp=None, wa=(0, 359.99), ws=(0, 60)):
        nwa, nws = self.shape(n)
        w = self.uniq(nws, lambda: self.num(*ws))
        a = self.uniq(nwa, lambda: self.num(*wa))
        if sort:
            w.sort()
            a.sort()
        bsp = bsp or (lambda: self.num(0, 20))
        return {"ws": w, "wa": a, "bsp": [self.times(len(w), bsp) for _ in a]}

    def points(self, n, ws=(0.125, 40), wa=(0, 359.9), bsp=(0, 20)):
        return [[self.num(*ws), self.num(*wa), self.num(*bsp)] for _ in range(n)]


def sizes(lo, hi):
    """log-uniform sizes and a seed"""
    steps = sorted({int(round(lo * (hi / lo) ** (i / 24))) for i in range(25)})
    return st.fixed_dictionaries({"n": st.sampled_from(steps), "seed": st.integers(0, 9999)})


def large(reg, fn, expand, lo=15, hi=600, quick=40, what="", thorough=None):
    """register fn once more, on expand(rng, n)"""

    def big(c, cx):
        fn(expand(Rng(c["seed"]), c["n"]), cx)

    big.__name__ = fn.__name__ + "_large"
    big.__doc__ = fn.__doc__
    rule = f"the same with {lo} to {hi} {what or 'entries'} (case: size and seed)"
    return reg.facet(sizes(lo, hi), quick=quick, thorough=thorough, rule=rule)(big)
