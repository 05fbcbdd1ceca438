"""C16: filters select exactly the points their rule names."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import frozen, must_raise
from hrosailing.processing.filter import BoundFilter, QuantileFilter

REG = Registry(
    "C16",
    [
        "the weight at a quantile is the linearly interpolated percentile of"
        " the sorted weights",
        "weights within rounding of an interpolated quantile are not judged",
    ],
)

weight = st.one_of(
    st.integers(0, 6).map(lambda n: n / 4), gen.nice(0, 1), gen.nice(-10, 10),
    st.sampled_from([0.1, 0.3, 0.5, 0.7, 1.0, 1e-9, 1e9]),
)


@st.composite
def weights(draw, lo=0):
    w = draw(st.lists(weight, min_size=lo, max_size=draw(st.sampled_from([3, 10, 40]))))
    if w and draw(st.integers(0, 2)) == 0:
        w = [w[0]] * draw(st.integers(1, 5)) + w
    return w


@st.composite
def quantile_cases(draw):
    return {
        "w": draw(weights()),
        "percent": draw(st.one_of(st.none(), st.integers(0, 100), gen.nice(0, 100), st.sampled_from([0, 100, 50, 25]))),
        "perm": draw(st.randoms(use_true_random=False)).random(),
    }


def percentile(w, p):
    """Exact in rational arithmetic."""
    s = sorted(Fraction(x) for x in w)
    pos = Fraction(p) / 100 * (len(s) - 1)
    k = math.floor(pos)
    if k + 1 >= len(s):
        return s[-1], True
    q = s[k] + (pos - k) * (s[k + 1] - s[k])
    return q, pos == k or s[k] == s[k + 1]


def order(n, x):
    idx = sorted(range(n), key=lambda i: math.sin((i + 1) * (x + 1) * 37.0))
    return idx


def check_stats(f, mask, what):
    stat = f.get_latest_statistics()
    gone = sum(1 for m in mask if not m)
    expect(
        stat.get("n_filtered_points") == gone and stat.get("n_rows") == len(mask) - gone,
        f"{what}: {gone} of {len(mask)} points removed, statistics {stat}",
    )


def check_mask(mask, n, what):
    m = np.asarray(mask)
    expect(m.shape == (n,), f"{what}: mask of shape {m.shape} for {n} weights")
    if n:
        expect(m.dtype == bool, f"{what}: mask of type {m.dtype}")
    return [bool(x) for x in m]


@REG.facet(
    quantile_cases(),
    quick=4000,
    rule="0-45 weights with ties, percentages in [0, 100] incl. the default;"
    " decisions compared with the percentile in rational arithmetic;"
    " non-trivial: some but not all points are kept",
)
def quantile(c, cx):
    w = np.array(c["w"], float)
    f = QuantileFilter() if c["percent"] is None else QuantileFilter(c["percent"])
    p = 50 if c["percent"] is None else c["percent"]
    before = frozen(w)
    f.filter(np.array([3.0, 1.0, 2.0, 2.0]))
    mask = check_mask(f.filter(w), len(w), "quantile")
    expect(frozen(w) == before, "the weights were changed")
    check_stats(f, mask, "quantile")
    if not len(w):
        return
    q, exact = percentile(c["w"], p)
    size = max(abs(x) for x in c["w"])
    pos = Fraction(p) / 100 * (len(w) - 1)
    # floating point finds this position and interpolates there exactly
    sure = p in (0, 25, 50, 75, 100) or abs(pos - round(pos)) > Fraction(1, 10**9)
    for x, m in zip(c["w"], mask):
        near = abs(Fraction(x) - q) <= Fraction(1, 10**13) * (1 + Fraction(size))
        if near and not (exact and sure):
            cx.label("within rounding")
            continue
        expect(m == (x >= q), f"weight {x} kept={m}, quantile {float(q)} of {sorted(c['w'])} at {p}%")
    cx.nontrivial(0 < sum(mask) < len(mask))
    expect(any(mask), "no point is kept")
    idx = order(len(w), c["perm"])
    other = check_mask(f.filter(w[idx]), len(w), "quantile")
    expect(other == [mask[i] for i in idx], "the decision depends on the order of the points")


@st.composite
def bound_cases(draw):
    lo = draw(st.one_of(st.none(), weight))
    hi = draw(st.one_of(st.none(), weight))
    w = draw(weights())
    for b in (lo, hi):
        if b is not None and draw(st.booleans()):
            w = w + [b, math.nextafter(b, 1e300), math.nextafter(b, -1e300)]
    return {"w": w, "lo": lo, "hi": hi, "perm": draw(gen.nice(0, 1))}


@REG.facet(
    bound_cases(),
    quick=4000,
    rule="0-50 weights incl. the bounds and their neighbouring floats, all"
    " pairs of bounds incl. defaults and contradictory ones; non-trivial: some"
    " but not all points are kept",
)
def bound(c, cx):
    w = np.array(c["w"], float)
    kw = {k: v for k, v in (("lower_bound", c["lo"]), ("upper_bound", c["hi"])) if v is not None}
    lo = 0.5 if c["lo"] is None else c["lo"]
    hi = 1 if c["hi"] is None else c["hi"]
    if hi < lo:
        cx.label("contradictory")
        must_raise(f"bounds {lo}, {hi}", lambda: BoundFilter(**kw), ValueError)
        return
    f = BoundFilter(**kw)
    f.filter(np.array([0.0, 0.7]))
    before = frozen(w)
    mask = check_mask(f.filter(w), len(w), "bounds")
    expect(frozen(w) == before, "the weights were changed")
    check_stats(f, mask, "bounds")
    want = [lo <= x <= hi for x in c["w"]]
    expect(mask == want, f"{c['w']} in [{lo}, {hi}]: {mask}")
    cx.nontrivial(0 < sum(mask) < len(mask))
    idx = order(len(w), c["perm"])
    other = check_mask(f.filter(w[idx]), len(w), "bounds")
    expect(other == [mask[i] for i in idx], "the decision depends on the order of the points")


@REG.facet(
    st.one_of(gen.nice(-200, -1 / 64), gen.nice(100 + 1 / 64, 300), st.sampled_from([-1e-12, 100.0000001])),
    quick=200,
    rule="percentages outside [0, 100]; non-trivial: always",
)
def rejected(p, cx):
    cx.nontrivial()
    must_raise(f"{p} percent", lambda: QuantileFilter(p), ValueError)


# ---- large ----
def big_weights(r, n):
    draw = r.choice([lambda: r.num(0, 1), lambda: r.randint(0, 6) / 4, lambda: r.num(-10, 10), lambda: r.choice([0.1, 0.3, 1.0])])
    return [draw() for _ in range(n)]


def big_quantile(r, n):
    return {"w": big_weights(r, n), "percent": r.choice([None, r.randint(0, 100), r.num(0, 100), 0, 100, 25]), "perm": r.random()}


def big_bound(r, n):
    w = big_weights(r, n)
    lo, hi = r.choice([None, r.choice(w), r.num(0, 1)]), r.choice([None, r.choice(w), r.num(0, 1)])
    for b in (lo, hi):
        if b is not None:
            w += [b, math.nextafter(b, 1e300), math.nextafter(b, -1e300)]
    return {"w": w, "lo": lo, "hi": hi, "perm": r.random()}


big.large(REG, quantile, big_quantile, hi=3000, quick=80, what="weights")
big.large(REG, bound, big_bound, hi=3000, quick=80, what="weights")
