"""C21: samplers return the requested number of points in the data's hull."""
import contextlib
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import finite, frozen, must_raise
from hrosailing.processing.sampler import (
    ArchimedeanSampler,
    FibonacciSampler,
    UniformRandomSampler,
)

REG = Registry(
    "C21",
    [
        "the hull of the points has at least 1/100 of the area of their"
        " bounding box (spirals need a number of points proportional to the"
        " inverse of the share of the hull in the circle)",
        "random numbers are seeded per case for replay",
    ],
)
SAMPLERS = {
    "uniform": UniformRandomSampler,
    "fibonacci": FibonacciSampler,
    "archimedean": ArchimedeanSampler,
}


@contextlib.contextmanager
def seeded(seed):
    old, state = np.random.default_rng, np.random.get_state()
    np.random.seed(seed)
    np.random.default_rng = lambda s=None: old(seed if s is None else s)
    try:
        yield
    finally:
        np.random.default_rng = old
        np.random.set_state(state)


def hull_of(pts):
    """Counter-clockwise convex hull (monotone chain)."""
    p = sorted(set(map(tuple, pts)))

    def half(seq):
        out = []
        for q in seq:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (q[1] - out[-2][1]) - (
                out[-1][1] - out[-2][1]
            ) * (q[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(q)
        return out[:-1]

    return half(p) + half(p[::-1])


def area(h):
    x0, y0 = h[0]
    return 0.5 * math.fsum(
        (a[0] - x0) * (b[1] - y0) - (b[0] - x0) * (a[1] - y0)
        for a, b in zip(h, h[1:] + h[:1])
    )


def clip(h, a, b, c):
    """The part of the convex polygon with a x + b y <= c."""
    out = []
    for p, q in zip(h, h[1:] + h[:1]):
        u, v = a * p[0] + b * p[1] - c, a * q[0] + b * q[1] - c
        if u <= 0:
            out.append(p)
        if (u < 0 < v) or (v < 0 < u):
            s = u / (u - v)
            out.append((p[0] + s * (q[0] - p[0]), p[1] + s * (q[1] - p[1])))
    return out


def depth(h, x, y):
    """Signed distance to the nearest edge line, negative outside."""
    best = math.inf
    for p, q in zip(h, h[1:] + h[:1]):
        ex, ey = q[0] - p[0], q[1] - p[1]
        best = min(best, (ex * (y - p[1]) - ey * (x - p[0])) / math.hypot(ex, ey))
    return best


@st.composite
def clouds(draw):
    shape = draw(st.sampled_from(["any", "any", "wind", "wind", "grid", "triangle", "half disc", "circle", "square"]))
    if shape == "wind":
        pts = draw(st.lists(st.tuples(gen.nice(0, 30), gen.nice(0, 359)), min_size=3, max_size=12))
    elif shape == "grid":
        xs = draw(gen.uniq(st.integers(0, 10), 2, 4))
        ys = draw(gen.uniq(st.integers(0, 11), 2, 4))
        pts = [(2.0 * x, 30.0 * y) for x in xs for y in ys]
    elif shape == "triangle":
        pts = draw(st.sampled_from([[(0, 0), (4, 0), (0, 4)], [(0, 0), (6, 0), (1, 1)], [(0, 0), (2, 0), (1, 8)], [(0, 0), (3, 0), (3, 4)]]))
    elif shape in ("half disc", "circle"):
        k = draw(st.integers(5, 16))
        w = math.pi / (k - 1) if shape == "half disc" else 2 * math.pi / k
        pts = [(5 * math.cos(i * w), 5 * math.sin(i * w)) for i in range(k)]
    elif shape == "square":
        pts = [(1, 1), (-1, 1), (-1, -1), (1, -1)] + draw(st.sampled_from([[], [(0, 0)], [(1, 0), (0.5, 1)]]))
    else:
        pts = draw(st.lists(st.tuples(gen.grid(-8, 8), gen.grid(-8, 8)), min_size=3, max_size=12))
    size = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e-3, 64.0, 1e5]))
    # the position relative to the size is bounded: points near 1e9 of size
    # 1e-6 could not even be told apart
    off = draw(st.sampled_from([(0, 0), (0, 0), (100, -50), (1000, 1000)]))
    pts = [((x + off[0]) * size, (y + off[1]) * size) for x, y in pts]
    if draw(st.booleans()):
        pts = pts + [draw(st.sampled_from(pts))]
    return [list(p) for p in draw(st.permutations(pts))]


def usable(pts):
    h = hull_of(pts)
    if len(h) < 3:
        return None
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    box = (max(xs) - min(xs)) * (max(ys) - min(ys))
    r = max(math.dist(p, q) for p in h for q in h) / 2
    a = area(h)
    if box <= 0 or a < box / 100 or a < r * r / 200:
        return None
    return h


def inside(sample, h, what):
    size = max(math.dist(p, q) for p in h for q in h)
    big = max(abs(v) for p in h for v in p)
    tol = 1e-9 * size + 1e-13 * big
    for x, y in sample:
        d = depth(h, float(x), float(y))
        expect(d >= -tol, f"{what}: the sample ({x}, {y}) is {-d} outside of the hull (size {size})")


@st.composite
def cases(draw):
    return {
        "kind": draw(st.sampled_from(sorted(SAMPLERS))),
        "pts": draw(clouds()),
        "n": draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 30, 100, 333]))),
        "extra": draw(st.booleans()),
        "seed": draw(st.integers(0, 2**16)),
    }


@REG.facet(
    cases(),
    quick=1500,
    rule="3-17 points (winds, grids, triangles, circles, half discs, repeated"
    " points) of sizes from 1e-6 to 1e5 and at distances up to 1000 times"
    " their size, with and without boat speeds, 1-333 samples; non-trivial:"
    " more than one sample in a hull of positive area",
)
def count_and_hull(c, cx):
    h = usable(c["pts"])
    if h is None:
        cx.label("degenerate")
        return
    cx.nontrivial(c["n"] > 1)
    cx.label(c["kind"], "with boat speeds" if c["extra"] else "winds")
    pts = np.array([p + [(7 * i) % 11 + 0.5] for i, p in enumerate(c["pts"])])
    pts = pts if c["extra"] else pts[:, :2].copy()
    before = frozen(pts)
    sampler = SAMPLERS[c["kind"]](c["n"])
    with seeded(c["seed"]):
        for time in ("first", "second"):
            s = np.asarray(sampler.sample(pts))
            expect(s.shape == (c["n"], 2), f"{c['kind']}: samples of shape {s.shape}, {c['n']} requested")
            expect(finite(s), f"{c['kind']}: {s}")
            inside(s, h, f"{c['kind']}, {time} time")
            expect(frozen(pts) == before, "the points were changed")
    expect(len(set(map(tuple, s.tolist()))) == c["n"], f"{c['kind']}: repeated samples")


@st.composite
def spread_cases(draw):
    c = draw(cases())
    c["n"] = 3000 if c["kind"] == "uniform" else draw(st.sampled_from([300, 500]))
    c["dir"] = draw(st.integers(0, 11))
    c["cut"] = draw(st.sampled_from([0.25, 0.5, 0.75]))
    return c


@REG.facet(
    spread_cases(),
    quick=250,
    rule="300-3000 samples; the share of the samples on one side of a line is"
    " the share of the hull's area there (within 0.08); non-trivial: both"
    " parts hold more than a tenth of the area",
)
def spread(c, cx):
    """Samples are spread over the whole hull, not over a part of it."""
    h = usable(c["pts"])
    if h is None:
        return
    cx.label(c["kind"])
    # scale to the unit box, so that the line's direction is meaningful
    xs, ys = [p[0] for p in h], [p[1] for p in h]
    sx, sy = max(xs) - min(xs), max(ys) - min(ys)
    unit = lambda p: ((p[0] - min(xs)) / sx, (p[1] - min(ys)) / sy)  # noqa: E731
    g = [unit(p) for p in h]
    a, b = math.cos(c["dir"] * math.pi / 6), math.sin(c["dir"] * math.pi / 6)
    vals = [a * x + b * y for x, y in g]
    lim = min(vals) + c["cut"] * (max(vals) - min(vals))
    part = clip(g, a, b, lim)
    share = area(part) / area(g) if len(part) > 2 else 0.0
    cx.nontrivial(0.1 < share < 0.9)
    with seeded(c["seed"]):
        s = SAMPLERS[c["kind"]](c["n"]).sample(np.array(c["pts"]))
    inside(s, h, c["kind"])
    got = sum(a * x + b * y <= lim for x, y in map(unit, s)) / c["n"]
    expect(
        abs(got - share) < 0.08,
        f"{c['kind']}: {got:.3f} of the samples lie in {share:.3f} of the hull",
    )


@REG.facet(
    st.tuples(st.integers(-9, 0), st.integers(0, 2)).map(list),
    quick=60,
    rule="numbers of samples that are not positive, too few points for a hull;"
    " non-trivial: always",
)
def rejected(c, cx):
    n, k = c
    cx.nontrivial()
    for name, cls in SAMPLERS.items():
        must_raise(f"{name}: {n} samples", lambda: cls(n), ValueError)
        must_raise(f"{name}: {k} points", lambda: cls(3).sample(np.arange(2.0 * k).reshape(k, 2)))


# ---- large ----
def big_sample(r, n):
    return {
        "kind": r.choice(sorted(SAMPLERS)), "pts": [[r.num(0, 30), r.num(0, 359)] for _ in range(r.choice([5, n]))],
        "n": r.choice([7, n, 1 + n // 2]), "extra": r.random() < 0.5, "seed": r.randrange(2**16),
    }


big.large(REG, count_and_hull, big_sample, hi=1500, quick=40, what="points or samples")
