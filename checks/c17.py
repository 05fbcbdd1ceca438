"""C17: weighers weigh each point as documented, whatever came before."""
import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import close, finite, frozen, must_raise
from hrosailing.core.data import Data
from hrosailing.processing.weigher import (
    AllOneWeigher,
    CylindricMeanWeigher,
    CylindricMemberWeigher,
    FluctuationWeigher,
    FuzzyBool,
    FuzzyVariable,
    FuzzyWeigher,
    Weigher,
)

REG = Registry(
    "C17",
    [
        "points within rounding of a cylinder's or time window's border are"
        " not judged",
        "arrays have the columns wind speed, wind angle, boat speed when the"
        " norm is detected; dimensions name the boat speed, as required",
        "upper bounds of fluctuations are positive, measurements of the"
        " fluctuation weigher chronological",
    ],
)
SCALE = {"TWS": 1 / 20, "AWS": 1 / 20, "TWA": 1 / 360, "AWA": 1 / 360, "BSP": 1 / 40, "SOG": 1 / 40, "lat": 1 / 360, "lon": 1 / 360}
T0 = dt.datetime(2022, 5, 6, 7, 8, 9)
RANGE = {"TWS": 20, "AWS": 20, "TWA": 359, "AWA": 359, "BSP": 12, "SOG": 12, "lat": 80, "lon": 80, "heel": 1}


@st.composite
def records(draw, keys, lo=1, hi=10):
    """Clustered values, so that cylinders hold several points."""
    n = draw(st.integers(lo, hi))
    base = {k: draw(gen.grid(0, RANGE[k])) for k in keys}
    rows = []
    for _ in range(n):
        if rows and draw(st.integers(0, 5)) == 0:
            rows.append(list(draw(st.sampled_from(rows))))
            continue
        near = draw(st.booleans())
        rows.append(
            [
                base[k] + draw(st.integers(-2, 2)) * RANGE[k] / 128 if near else draw(gen.grid(0, RANGE[k]))
                for k in keys
            ]
        )
    if draw(st.integers(0, 3)) == 0:
        j = len(keys) - 1
        v = draw(st.sampled_from([0.1, 0.3, 5.7, 7.1]))
        for r in rows:
            if draw(st.integers(0, 3)):
                r[j] = v
    return rows


@st.composite
def data_sets(draw, lo=1, hi=10, array=None):
    if array if array is not None else draw(st.booleans()):
        return {"keys": None, "rows": draw(records(["TWS", "TWA", "BSP"], lo, hi))}
    speed = draw(st.sampled_from(["BSP", "BSP", "SOG"]))
    keys = draw(st.lists(st.sampled_from(["TWS", "TWA", "AWS", "heel", "lat"]), min_size=1, max_size=4, unique=True))
    keys = list(draw(st.permutations(keys + [speed])))
    return {"keys": keys, "rows": draw(records(keys, lo, hi)), "text": draw(st.booleans())}


def make(d):
    if d["keys"] is None:
        return np.array(d["rows"], float).reshape(-1, 3)
    cols = {k: [float(r[i]) for r in d["rows"]] for i, k in enumerate(d["keys"])}
    if d.get("text"):
        cols = {"sail": [f"s{i}" for i in range(len(d["rows"]))], **cols}
    if "times" in d:
        cols["datetime"] = [T0 + dt.timedelta(seconds=s) for s in d["times"]]
    return Data.from_dict(cols)


def snapshot(p):
    return frozen(p if isinstance(p, np.ndarray) else {k: list(p[k]) for k in p.keys()})


def columns(d, dims):
    """-> (keys or None, rows) as the weigher sees them."""
    if d["keys"] is None:
        return None, [list(map(float, r)) for r in d["rows"]]
    keys = [k for k in (dims if dims is not None else d["keys"]) if k in d["keys"]]
    return keys, [[float(r[d["keys"].index(k)]) for k in keys] for r in d["rows"]]


NORMS = {
    "max": (lambda v: np.max(np.abs(v), axis=1), lambda v: max(map(abs, v))),
    "sum": (lambda v: np.sum(np.abs(v), axis=1), lambda v: sum(map(abs, v))),
    "half": (lambda v: np.linalg.norm(v, axis=1) / 16, lambda v: math.hypot(*v) / 16),
}


def norm_of(name, keys):
    if name is not None:
        return NORMS[name][1]
    sc = [SCALE.get(k, 1) for k in (keys if keys is not None else ["TWS", "TWA"])]
    return lambda v: math.sqrt(sum((s * x) ** 2 for s, x in zip(sc, v)))


def exact(norm, rows, limit):
    """Whether all distances and their comparisons are free of rounding."""
    return norm in ("max", "sum") and all(
        v * 2**20 == round(v * 2**20) for r in rows for v in r
    ) and limit * 2**36 == round(limit * 2**36)


def mean_reference(d, dims, radius, norm):
    keys, rows = columns(d, dims)
    if keys is None:
        xs, ys, rest = [r[:-1] for r in rows], [r[-1] for r in rows], None
    else:
        t = "BSP" if "BSP" in keys else "SOG"
        j = keys.index(t)
        rest = [k for k in keys if k != t]
        xs = [[v for i, v in enumerate(r) if i != j] for r in rows]
        ys = [r[j] for r in rows]
    f = norm_of(norm, rest)
    sharp = exact(norm, rows, radius)
    dev = []
    for p, b in zip(xs, ys):
        inside = []
        for q, y in zip(xs, ys):
            dist = f([u - v for u, v in zip(q, p)])
            if not sharp and abs(dist - radius) < 1e-9 * (1 + radius):
                return None
            if dist <= radius:
                inside.append(y)
        m = math.fsum(inside) / len(inside)
        s = math.sqrt(math.fsum((y - m) ** 2 for y in inside) / len(inside))
        if len(set(inside)) == 1:
            m, s = inside[0], 0.0
        dev.append(abs(m - b) / (s or 1))
    top = max(dev)
    return [1 - (x / top if top else x) for x in dev]


def member_reference(d, dims, radius, length, norm):
    keys, rows = columns(d, dims)
    f = norm_of(norm, None if keys is None else keys[:-1])
    sharp, sharp_h = exact(norm, rows, radius), exact("max", rows, length)
    out = []
    for p in rows:
        n = 0
        for q in rows:
            dist = f([u - v for u, v in zip(q[:-1], p[:-1])])
            h = abs(q[-1] - p[-1])
            if not sharp and abs(dist - radius) < 1e-9 * (1 + radius):
                return None
            if not sharp_h and length and abs(h - length) < 1e-9 * (1 + length):
                return None
            n += dist <= radius and h <= length
        out.append(n - 1)
    top = max(out)
    return [x / top if top else float(x) for x in out]


def check_stats(w, weights, what):
    s = w.get_latest_statistics()
    v = np.asarray(weights, float)
    tol = 1e-9 * (1 + np.max(np.abs(v)))
    for k, f in (("average_weight", np.mean), ("minimal_weight", np.min), ("maximal_weight", np.max)):
        expect(
            s.get(k) is not None and abs(float(s[k]) - f(v)) <= tol,
            f"{what}: statistic {k} is {s.get(k)}, the weights are {v.tolist()}",
        )
    lo, hi = np.min(v), np.max(v)
    shares = s.get("quantiles")
    expect(shares is not None and len(shares) == 10, f"{what}: statistic quantiles is {shares}")
    for i, share in enumerate(shares):
        a, b = lo + (hi - lo) * i / 10, lo + (hi - lo) * (i + 1) / 10
        # the ends of the whole span belong to it, rounding may decide inner ones
        least = np.sum(((v >= a + tol) | ((i == 0) & (v == lo))) & ((v <= b - tol) | ((i == 9) & (v == hi))))
        most = np.sum((v >= a - tol) & (v <= b + tol))
        expect(
            100 * least / len(v) - 0.0051 <= share <= 100 * most / len(v) + 0.0051,
            f"{what}: {share} percent of the weights in tenth {i} of the span, weights {v.tolist()}",
        )


def check_weights(got, want, n, what, unit=True, tol=1e-7):
    v = np.asarray(got, float)
    expect(v.shape == (n,), f"{what}: weights of shape {v.shape} for {n} points")
    expect(finite(v), f"{what}: weights {v.tolist()}")
    if unit:
        expect(bool(np.all((v >= -1e-12) & (v <= 1 + 1e-12))), f"{what}: weights {v.tolist()}")
    if want is not None:
        expect(close(v, want, tol, tol), f"{what}: weights {v.tolist()}, expected {want}")


@st.composite
def cylinder_cases(draw):
    d = draw(data_sets())
    dims = None
    if d["keys"] is not None and draw(st.booleans()):
        speed = "BSP" if "BSP" in d["keys"] else "SOG"
        others = [k for k in d["keys"] if k != speed]
        dims = list(draw(st.permutations(others)))[: draw(st.integers(1, len(others)))]
        dims = list(draw(st.permutations(dims + [speed])))
    return {
        "data": d,
        "dims": dims,
        "radius": draw(st.sampled_from([None, 0.05, 0.011, 0.3, 1.5, 17.3, 0.15625, 0.3125, 2.8046875, 0.3125 - 2**-33])),
        "length": draw(st.sampled_from([None, 0, 0.26, 2.03, 20.1, 0.09375, 0.1875, 0.1875 - 2**-33, 1])),
        "norm": draw(st.sampled_from([None, None, None, "max", "max", "sum", "half"])),
    }


def kwargs(c, *names):
    kw = {}
    if c["radius"] is not None:
        kw["radius"] = c["radius"]
    if c["length"] is not None and "length" in names:
        kw["length"] = c["length"]
    if c["norm"] is not None:
        kw["norm"] = NORMS[c["norm"]][0]
    if c["dims"] is not None:
        kw["dimensions"] = list(c["dims"])
    return kw


@REG.facet(
    cylinder_cases(),
    quick=2000,
    rule="1-10 clustered points (arrays, data with different columns, repeated"
    " points and equal boat speeds), detected and given norms, dimensions in"
    " any order; non-trivial: the weights are not all equal",
)
def cylindric_mean(c, cx):
    p = make(c["data"])
    kw = kwargs(c)
    w = CylindricMeanWeigher(**kw)
    before = snapshot(p), list(kw.get("dimensions", []))
    got = w.weigh(p)
    want = mean_reference(c["data"], c["dims"], c["radius"] or 0.05, c["norm"])
    if want is not None:
        cx.nontrivial(len(set(want)) > 1)
    cx.label("array" if c["data"]["keys"] is None else "data")
    check_weights(got, want, len(c["data"]["rows"]), "mean in a cylinder", tol=1e-6)
    check_stats(w, got, "mean in a cylinder")
    expect((snapshot(p), list(kw.get("dimensions", []))) == before, "points or dimensions were changed")


@REG.facet(
    cylinder_cases(),
    quick=2000,
    rule="as cylindric_mean with cylinders of finite and zero height;"
    " non-trivial: the weights are not all equal",
)
def cylindric_member(c, cx):
    p = make(c["data"])
    kw = kwargs(c, "length")
    w = CylindricMemberWeigher(**kw)
    before = snapshot(p), list(kw.get("dimensions", []))
    got = w.weigh(p)
    want = member_reference(
        c["data"], c["dims"], c["radius"] or 0.05,
        0.05 if c["length"] is None else c["length"], c["norm"],
    )
    if want is not None:
        cx.nontrivial(len(set(want)) > 1)
    check_weights(got, want, len(c["data"]["rows"]), "points in a cylinder", tol=1e-12)
    check_stats(w, got, "points in a cylinder")
    expect((snapshot(p), list(kw.get("dimensions", []))) == before, "points or dimensions were changed")


@st.composite
def fluctuation_cases(draw):
    d = draw(data_sets(array=False))
    t, times = 0, []
    for _ in d["rows"]:
        t += draw(st.sampled_from([0, 1, 5, 10, 30, 60, 200, 86400, 86405]))
        times.append(t)
    d["times"] = times
    k = draw(st.integers(1, len(d["keys"])))
    attrs = list(draw(st.permutations(d["keys"])))[:k]
    if d["text"] and draw(st.booleans()):  # has no numbers, to be ignored
        attrs.insert(draw(st.integers(0, len(attrs))), "sail")
    return {
        "data": d,
        "attrs": attrs,
        "ub": [draw(st.sampled_from([0.01, 0.5, 1, 2.5, 10, 100])) for _ in attrs],
        "before": draw(st.sampled_from([0.5, 7.5, 33.3, 95.2, 1000.7])),
        "after": draw(st.one_of(st.none(), st.sampled_from([0.5, 7.5, 33.3, 1000.7]))),
    }


@REG.facet(
    fluctuation_cases(),
    quick=2000,
    rule="1-10 measurements, one to five attributes in any order with their"
    " own bounds, windows before and around; non-trivial: some weight strictly"
    " between 0 and 1",
)
def fluctuation(c, cx):
    d = c["data"]
    p = make(d)
    before = snapshot(p)
    span = dt.timedelta(seconds=c["before"])
    if c["after"] is not None:
        span = (span, dt.timedelta(seconds=c["after"]))
    w = FluctuationWeigher(list(c["attrs"]), span, list(c["ub"]))
    got = w.weigh(p)
    want = []
    _, rows = columns(d, c["attrs"])
    for i, t in enumerate(d["times"]):
        sel = [
            r for r, s in zip(rows, d["times"])
            if t - c["before"] <= s <= t + (c["after"] or 0)
        ]
        wt = 1.0
        bounds = [ub for ub, a in zip(c["ub"], c["attrs"]) if a != "sail"]
        for j, ub in enumerate(bounds):
            ys = [r[j] for r in sel]
            m = math.fsum(ys) / len(ys)
            sd = math.sqrt(math.fsum((y - m) ** 2 for y in ys) / len(ys))
            wt *= max(0.0, (ub - sd) / ub)
        want.append(wt)
    cx.nontrivial(any(0 < x < 1 for x in want))
    if len(c["attrs"]) > 1:
        cx.label("several attributes")
    check_weights(got, want, len(rows), "fluctuation", tol=1e-6)
    check_stats(w, got, "fluctuation")
    expect(snapshot(p) == before, "the data was changed")


@st.composite
def fuzzy_cases(draw):
    d = draw(data_sets())
    ks = [0, 1, 2] if d["keys"] is None else d["keys"]
    return {
        "data": d,
        "key": draw(st.sampled_from(ks)),
        "key2": draw(st.sampled_from(ks)),
        "a": draw(gen.grid(0, 20)),
        "b": draw(gen.grid(0, 20)),
        "s": draw(st.sampled_from([None, 1, 3, 0.5])),
        "gaps": [draw(st.booleans()) for _ in d["rows"]],
    }


def sigmoid(z):
    return 1 / (1 + math.exp(min(z, 700)))


@REG.facet(
    fuzzy_cases(),
    quick=1200,
    rule="conjunctions of two comparisons as weights of arrays and data, and"
    " constant weights of one; non-trivial: at least two points",
)
def fuzzy_and_ones(c, cx):
    d = c["data"]
    p = make(d)
    before = snapshot(p)
    cx.nontrivial(len(d["rows"]) > 1)
    x = FuzzyVariable()
    s = 10 if c["s"] is None else c["s"]
    one = (x[c["key"]] if c["s"] is None else x[c["key"]](c["s"])) > c["a"]
    w = FuzzyWeigher(one & ~(x[c["key2"]] < c["b"]))
    got = w.weigh(p)
    i, j = [(k if d["keys"] is None else d["keys"].index(k)) for k in (c["key"], c["key2"])]
    want = [
        min(sigmoid(-s * (r[i] - c["a"])), 1 - sigmoid(10 * (r[j] - c["b"]))) for r in d["rows"]
    ]
    check_weights(got, want, len(want), "fuzzy statement", tol=1e-9)
    check_stats(w, got, "fuzzy statement")
    if d["keys"] is not None and len(set(c.get("gaps", ()))) > 1:
        # entries missing in a column which the statement does not use
        more = Data.from_dict({
            **{k: list(p[k]) for k in p.keys()},
            "note": [v if g else None for v, g in zip(range(len(want)), c["gaps"])],
        })
        check_weights(w.weigh(more), want, len(want), "fuzzy statement, other entries missing", tol=1e-9)
    check_weights(AllOneWeigher().weigh(p), [1.0] * len(want), len(want), "all one")
    expect(snapshot(p) == before, "the data was changed")


class Fixed(Weigher):
    """A user's weigher: one column of the data, plus an offset."""

    def __init__(self, col, off, form):
        super().__init__()
        self.col, self.off, self.form = col, off, form

    def weigh(self, points):
        w = points[:, self.col] + self.off
        w = w.tolist() if self.form == "list" else w
        self.set_statistics(w)
        return w


@st.composite
def trees(draw, depth=3):
    if depth == 0 or draw(st.integers(0, 4)) == 0:
        return ["leaf", draw(st.integers(0, 2)), draw(st.integers(1, 5)), draw(st.sampled_from(["array", "list"]))]
    op = draw(st.sampled_from(["+", "-", "*", "/", "neg", "pow", "w+a", "a+w", "w-a", "w*a", "a*w", "w/a", "a/w"]))
    if op in "+-*/":
        return [op, draw(trees(depth - 1)), draw(trees(depth - 1))]
    if op == "neg":
        return [op, draw(trees(depth - 1))]
    if op == "pow":
        return [op, draw(trees(depth - 1)), draw(st.integers(0, 3))]
    a = draw(st.one_of(st.integers(1, 9), gen.grid(0.25, 9), st.just("array")))
    return [op, draw(trees(depth - 1)), a]


@st.composite
def tree_cases(draw):
    n = draw(st.integers(1, 5))
    return {
        "tree": draw(trees()),
        "rows": [[draw(gen.grid(0.5, 9)) for _ in range(3)] for _ in range(n)],
        "arr": [draw(gen.grid(0.25, 9)) for _ in range(n)],
    }


def weigher_of(t, arr):
    if t[0] == "leaf":
        return Fixed(t[1], t[2], t[3])
    u = weigher_of(t[1], arr)
    if t[0] in "+-*/":
        v = weigher_of(t[2], arr)
        return {"+": lambda: u + v, "-": lambda: u - v, "*": lambda: u * v, "/": lambda: u / v}[t[0]]()
    if t[0] == "neg":
        return -u
    if t[0] == "pow":
        return u ** t[2]
    a = np.array(arr) if t[2] == "array" else t[2]
    return {
        "w+a": lambda: u + a, "a+w": lambda: a + u, "w-a": lambda: u - a, "w*a": lambda: u * a,
        "a*w": lambda: a * u, "w/a": lambda: u / a, "a/w": lambda: a / u,
    }[t[0]]()


def value_of(t, pts, arr):
    if t[0] == "leaf":
        return pts[:, t[1]] + t[2]
    u = value_of(t[1], pts, arr)
    if t[0] in "+-*/":
        v = value_of(t[2], pts, arr)
        return {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.divide}[t[0]](u, v)
    if t[0] == "neg":
        return -u
    if t[0] == "pow":
        return u ** t[2]
    a = np.array(arr) if t[2] == "array" else t[2]
    return {
        "w+a": lambda: u + a, "a+w": lambda: a + u, "w-a": lambda: u - a, "w*a": lambda: u * a,
        "a*w": lambda: a * u, "w/a": lambda: u / a, "a/w": lambda: a / u,
    }[t[0]]()


@REG.facet(
    tree_cases(),
    quick=2500,
    rule="expressions of depth up to 3 over user weighers, numbers and arrays"
    " on either side, evaluated as the same expression of the weights;"
    " non-trivial: at least two operations",
)
def combinations(c, cx):
    pts = np.array(c["rows"])
    want = value_of(c["tree"], pts, c["arr"])
    cx.nontrivial(str(c["tree"]).count("[") > 2)
    if not finite(want) or np.max(np.abs(want)) > 1e12:
        return
    cx.label(c["tree"][0])
    w = weigher_of(c["tree"], c["arr"])
    expect(isinstance(w, Weigher), f"the combination is {type(w)}")
    got = w.weigh(pts)
    v = np.asarray(got, float)
    expect(v.shape == want.shape, f"{v.shape} weights for {want.shape}")
    expect(np.allclose(v, want, rtol=1e-9, atol=1e-9), f"weights {v}, expected {want}")
    check_stats(w, v, "combination")
    for bad in ("text", None, [1, 2]):
        for f in (lambda: w + bad, lambda: w * bad, lambda: w - bad, lambda: w / bad):
            must_raise(f"a combination with {bad!r}", f, TypeError)


@st.composite
def reuse_cases(draw):
    kind = draw(st.sampled_from(["mean", "member", "sum"]))
    return {
        "kind": kind,
        "sets": draw(st.lists(data_sets(), min_size=2, max_size=4)),
        "dims": draw(st.booleans()),
        "radius": draw(st.sampled_from([0.05, 0.3, 1.5])),
        "empty": draw(st.booleans()),
    }


@REG.facet(
    reuse_cases(),
    quick=1500,
    rule="one weigher used on two to four data sets of different columns and"
    " kinds, possibly with an empty one in between, compared with a fresh"
    " weigher each time; non-trivial: the data sets have different columns",
)
def reuse(c, cx):
    sets = c["sets"]
    dims = None
    if c["dims"]:
        common = [k for k in (sets[0]["keys"] or []) if all(d["keys"] and k in d["keys"] for d in sets)]
        if ("BSP" in common or "SOG" in common) and len(common) > 1:
            dims = common
            cx.label("dimensions")
    cx.nontrivial(len({str(d["keys"]) for d in sets}) > 1)

    def fresh(kw):
        if c["kind"] == "mean":
            return CylindricMeanWeigher(c["radius"], **kw)
        if c["kind"] == "member":
            return CylindricMemberWeigher(c["radius"], 2.03, **kw)
        return CylindricMeanWeigher(c["radius"], **kw) + CylindricMemberWeigher(c["radius"], 2.03, **kw) * 2

    kw = {} if dims is None else {"dimensions": dims}
    was = list(dims or [])
    w = fresh(kw)
    for d in sets:
        if c["empty"] and c["kind"] != "sum":
            expect(len(w.weigh(np.empty((0, 3)))) == 0, "weights of no points")
        got = np.asarray(w.weigh(make(d)), float)
        ref = np.asarray(fresh({k: list(v) for k, v in kw.items()}).weigh(make(d)), float)
        expect(
            got.shape == ref.shape and np.array_equal(got, ref),
            f"a used weigher gives {got.tolist()}, a fresh one {ref.tolist()}",
        )
        expect(list(dims or []) == was, "the given dimensions were changed")


@REG.facet(
    st.tuples(gen.nice(-5, 0), gen.nice(-5, -1 / 64)).map(list),
    quick=100,
    rule="radii that are not positive, negative lengths; non-trivial: always",
)
def rejected(c, cx):
    cx.nontrivial()
    must_raise(f"radius {c[0]}", lambda: CylindricMeanWeigher(c[0]), ValueError)
    must_raise(f"radius {c[0]}", lambda: CylindricMemberWeigher(c[0]), ValueError)
    must_raise(f"length {c[1]}", lambda: CylindricMemberWeigher(0.1, c[1]), ValueError)
    must_raise("a list as points", lambda: FuzzyWeigher(FuzzyBool(lambda x: 1.0)).weigh([1, 2]), TypeError)


# ---- large ----
def big_records(r, keys, n):
    base = {k: r.grid(0, RANGE[k]) for k in keys}
    rows = []
    for _ in range(n):
        if rows and r.random() < 0.1:
            rows.append(list(r.choice(rows)))
        elif r.random() < 0.5:
            rows.append([base[k] + r.randint(-2, 2) * RANGE[k] / 128 for k in keys])
        else:
            rows.append([r.grid(0, RANGE[k]) for k in keys])
    return rows


def big_data(r, n, array=None):
    if array is None and r.random() < 0.5:
        return {"keys": None, "rows": big_records(r, ["TWS", "TWA", "BSP"], n)}
    keys = r.sample(["TWS", "TWA", "AWS", "heel", "lat"], r.randint(1, 4)) + [r.choice(["BSP", "SOG"])]
    r.shuffle(keys)
    return {"keys": keys, "rows": big_records(r, keys, n), "text": r.random() < 0.5}


def big_cylinder(r, n):
    d = big_data(r, n)
    dims = None
    if d["keys"] is not None and r.random() < 0.5:
        speed = "BSP" if "BSP" in d["keys"] else "SOG"
        others = [k for k in d["keys"] if k != speed]
        dims = r.sample(others, r.randint(1, len(others))) + [speed]
        r.shuffle(dims)
    return {
        "data": d, "dims": dims, "radius": r.choice([None, 0.05, 0.011, 0.3, 1.5]),
        "length": r.choice([None, 0, 0.26, 2.03, 20.1]), "norm": r.choice([None, None, "max", "sum", "half"]),
    }


def big_fluctuation(r, n):
    d = big_data(r, n, array=False)
    steps = r.choice([[0, 1, 5], [1, 5, 10, 30, 60, 200], [86400, 1], [1]])
    t, times = 0, []
    for _ in d["rows"]:
        t += r.choice(steps)
        times.append(t)
    d["times"] = times
    attrs = r.sample(d["keys"], r.randint(1, len(d["keys"])))
    return {
        "data": d, "attrs": attrs, "ub": [r.choice([0.01, 0.5, 1, 2.5, 10, 100]) for _ in attrs],
        "before": r.choice([0.5, 7.5, 33.3, 95.2, 1000.7]), "after": r.choice([None, 0.5, 7.5, 33.3, 1000.7]),
    }


def big_fuzzy(r, n):
    d = big_data(r, n)
    ks = [0, 1, 2] if d["keys"] is None else d["keys"]
    return {"data": d, "key": r.choice(ks), "key2": r.choice(ks), "a": r.grid(0, 20), "b": r.grid(0, 20), "s": r.choice([None, 1, 3, 0.5])}


def big_tree(r, n):
    def tree(depth):
        if depth == 0 or r.random() < 0.2:
            return ["leaf", r.randrange(3), r.randint(1, 5), r.choice(["array", "list"])]
        op = r.choice(["+", "-", "*", "/", "neg", "pow", "w+a", "a+w", "w-a", "w*a", "a*w", "w/a", "a/w"])
        if op in "+-*/":
            return [op, tree(depth - 1), tree(depth - 1)]
        if op == "neg":
            return [op, tree(depth - 1)]
        if op == "pow":
            return [op, tree(depth - 1), r.randint(0, 3)]
        return [op, tree(depth - 1), r.choice([r.randint(1, 9), r.grid(0.25, 9), "array"])]

    return {"tree": tree(3), "rows": [[r.grid(0.5, 9) for _ in range(3)] for _ in range(n)], "arr": [r.grid(0.25, 9) for _ in range(n)]}


def big_reuse(r, n):
    sets = [big_data(r, m) for m in r.choice([[n, 3], [3, n], [n, n], [n, 5, 2]])]
    return {"kind": r.choice(["mean", "member", "sum"]), "sets": sets, "dims": r.random() < 0.5, "radius": r.choice([0.05, 0.3, 1.5]), "empty": r.random() < 0.3}


big.large(REG, cylindric_mean, big_cylinder, hi=200, quick=50, what="points")
big.large(REG, cylindric_member, big_cylinder, hi=200, quick=50, what="points")
big.large(REG, fluctuation, big_fluctuation, hi=300, quick=50, what="rows")
big.large(REG, fuzzy_and_ones, big_fuzzy, hi=600, quick=30, what="points")
big.large(REG, combinations, big_tree, hi=600, quick=60, what="points")
big.large(REG, reuse, big_reuse, hi=200, quick=30, what="points")
