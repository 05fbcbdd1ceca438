"""C19: interpolators follow their formulas and stay within the data."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import frozen, must_raise
from hrosailing.core.data import WeightedPoints
from hrosailing.core.exceptions import (
    BilinearInterpolatorNoGridException,
    BilinearInterpolatorOutsideGridException,
)
from hrosailing.processing.interpolator import (
    ArithmeticMeanInterpolator,
    BilinearGridInterpolator,
    IDWInterpolator,
    ImprovedIDWInterpolator,
    ShepardInterpolator,
)
from hrosailing.processing.neighbourhood import Ball, Cuboid, Ellipsoid, Polytope, ScalingBall

REG = Registry(
    "C19",
    [
        "positions are separated by at least 1/64 or equal, apart from query"
        " points down to 1e-300 away from a point",
        "the scaling factor of the arithmetic mean is 1 at data points",
    ],
)

NORMS = {
    "scaled": (None, lambda v: math.hypot(v[0] / 40, v[1] / 360)),
    "euclid": (lambda v: np.linalg.norm(v, axis=1), lambda v: math.hypot(*v)),
    "max": (lambda v: np.max(np.abs(v), axis=1), lambda v: max(map(abs, v))),
    "sum": (lambda v: np.sum(np.abs(v), axis=1), lambda v: sum(map(abs, v))),
}


@st.composite
def clouds(draw, lo=1, hi=9):
    shape = draw(st.sampled_from(["any", "any", "line", "ring", "constant", "repeated"]))
    n = draw(st.integers(lo, hi))
    c = [draw(gen.grid(1, 30)), draw(gen.grid(20, 340))]
    val = st.one_of(st.integers(0, 15).map(float), gen.grid(0, 15))
    pts = []
    for i in range(n):
        if shape == "ring":
            d = draw(st.sampled_from([(4, 3), (3, 4), (-4, 3), (0, 5), (5, 0), (-3, -4), (0, -5)]))
            p = [c[0] + d[0], c[1] + d[1]]
        elif shape == "line":
            p = [c[0] + i * 0.5, c[1]]
        elif draw(st.booleans()):
            p = [c[0] + draw(gen.grid(-2, 2)), c[1] + draw(gen.grid(-9, 9))]
        else:
            p = [draw(gen.grid(0, 40)), draw(gen.grid(0, 359))]
        if shape == "repeated" and pts and draw(st.booleans()):
            p = draw(st.sampled_from(pts))[:2]
        pts.append(p + [draw(val)])
    if shape == "constant":
        pts = [p[:2] + [pts[0][2]] for p in pts]
    q = draw(st.sampled_from(["near", "near", "on", "centre", "tiny", "far"]))
    k = draw(st.integers(0, n - 1))
    if q == "near":
        at = [pts[k][0] + draw(gen.floats(-3, 3)), pts[k][1] + draw(gen.floats(-20, 20))]
    elif q == "on":
        at = pts[k][:2]
    elif q == "centre":
        at = list(c)
    elif q == "tiny":
        # the smallest representable steps away from a point moved to 0
        pts[k][0] = pts[k][1] = 0.0
        at = [draw(st.sampled_from([0.0, 1e-9, 1e-120, 1e-300])), draw(st.sampled_from([0.0, 1e-15, 1e-200]))]
    else:
        at = [draw(gen.grid(40, 400)), draw(gen.grid(-4000, 4000))]
    return {
        "pts": pts,
        "weights": [draw(st.one_of(st.just(1.0), gen.grid(1 / 64, 2))) for _ in pts],
        "at": at,
    }


@st.composite
def methods(draw, kind=None):
    kind = kind or draw(st.sampled_from(["idw", "mean", "improved", "shepard"]))
    m = {"kind": kind, "norm": draw(st.sampled_from(sorted(NORMS)))}
    if kind == "idw":
        m["p"] = draw(st.one_of(st.none(), st.integers(0, 6)))
    if kind == "mean":
        m["s"] = draw(st.sampled_from([1, 1, 0.5, 2]))
        m["distr"] = draw(st.sampled_from([None, None, "ones", "weights", "cauchy"]))
        m["alpha"] = draw(st.sampled_from([None, 0, 1, 50, 1000]))
    if kind == "shepard":
        m["slope"] = draw(st.sampled_from([None, 0.1, 0.3, 1.7]))
        m["tol"] = draw(st.sampled_from([None, None, 1e-6, 0.1]))
        m["nb"] = draw(st.sampled_from([["ball", 0.0371], ["ball", 3.71], ["cuboid", 2.003], ["ellipsoid", 2.503], ["scaling", 3], ["ball", 1000.3], ["polytope", 1.003], ["shear", 2.503]]))
    return m


DISTR = {
    "ones": (lambda d, w: np.ones(len(d)), lambda d, w: [1.0] * len(d)),
    "weights": (lambda d, w: w, lambda d, w: w),
    "cauchy": (
        lambda d, w, a: w / (a + d * d),
        lambda d, w, a: [x / (a + y * y) for x, y in zip(w, d)],
    ),
}


def neighbourhood(spec, norm):
    kind, r = spec
    kw = {} if norm is None else {"norm": norm}
    if kind == "ball":
        return Ball(r, **kw)
    if kind == "cuboid":
        return Cuboid(dimensions=(r, 10 * r))
    if kind == "ellipsoid":
        return Ellipsoid([[1, 0], [0, 8]], radius=r, norm=lambda v: np.linalg.norm(v, axis=1))
    if kind == "polytope":  # not symmetric
        return Polytope(np.array([[1.0, 0.25], [-1.0, 0.0], [0.0, 1.0], [0.0, -1.0]]), r * np.array([1.0, 4.0, 30.0, 2.0]))
    if kind == "shear":
        return Ellipsoid([[1, 4], [0, 8]], radius=r, norm=lambda v: np.linalg.norm(v, axis=1))
    return ScalingBall(r, **kw)


def inside(spec, f, diffs):
    kind, r = spec
    if kind == "ball":
        return [f(v) <= r for v in diffs]
    if kind == "cuboid":
        return [abs(v[0]) <= r and abs(v[1]) <= 10 * r for v in diffs]
    if kind == "ellipsoid":
        return [math.hypot(v[0], v[1] / 8) <= r for v in diffs]
    if kind == "polytope":
        return [v[0] + v[1] / 4 <= r and -v[0] <= 4 * r and v[1] <= 30 * r and -v[1] <= 2 * r for v in diffs]
    if kind == "shear":
        return [math.hypot(v[0] - v[1] / 2, v[1] / 8) <= r for v in diffs]
    ds = sorted(f(v) for v in diffs)
    if not ds:
        return []
    lim = ds[min(r, len(ds)) - 1]
    return [f(v) <= lim for v in diffs]


def build(m):
    norm = NORMS[m["norm"]][0]
    kw = {} if norm is None else {"norm": norm}
    if m["kind"] == "idw":
        return IDWInterpolator(**kw) if m["p"] is None else IDWInterpolator(m["p"], **kw)
    if m["kind"] == "improved":
        return ImprovedIDWInterpolator(**kw)
    if m["kind"] == "mean":
        params = () if m["alpha"] is None else (m["alpha"],)
        if m["distr"] is None:
            return ArithmeticMeanInterpolator(m["s"], params=params, **kw)
        params = (m["alpha"] or 3,) if m["distr"] == "cauchy" else ()
        return ArithmeticMeanInterpolator(m["s"], distribution=DISTR[m["distr"]][0], params=params, **kw)
    if m["slope"] is not None:
        kw["slope"] = m["slope"]
    if m["tol"] is not None:
        kw["tol"] = m["tol"]
    return ShepardInterpolator(neighbourhood(m["nb"], norm), **kw)


def basic_weights(d):
    r = max(d)
    w = []
    for x in d:
        w.append(1 / x if x <= r / 3 else 27 / (4 * r) * (x / r - 1) ** 2)
    return w if any(w) else [1.0] * len(d)


def wmean(w, z):
    s = math.fsum(w)
    return math.fsum(a / s * b for a, b in zip(w, z))


def reference(m, c):
    """-> (value, tolerance) or None if the case is not judged."""
    f = NORMS[m["norm"]][1]
    pts, at = c["pts"], c["at"]
    z = [p[2] for p in pts]
    d = [f([p[0] - at[0], p[1] - at[1]]) for p in pts]
    if min(d) < 1e-100:
        return None
    if m["kind"] == "idw":
        p = 2 if m["p"] is None else m["p"]
        lo = min(d)
        return wmean([(lo / x) ** p for x in d], z), 1e-9
    if m["kind"] == "improved":
        w = basic_weights(d)
        top = max(w)
        return wmean([(x / top) ** 2 for x in w], z), 1e-9
    if m["kind"] == "mean":
        if m["distr"] is None:
            e = [(100 if m["alpha"] is None else m["alpha"]) * w * x for w, x in zip(c["weights"], d)]
            lo = min(e)
            w = [math.exp(lo - x) for x in e]
        elif m["distr"] == "cauchy":
            w = DISTR["cauchy"][1](d, c["weights"], m["alpha"] or 3)
        else:
            w = DISTR[m["distr"]][1](d, c["weights"])
        return m["s"] * wmean(w, z), 1e-9
    # Shepard 1968
    tol = m["tol"] or np.finfo(float).eps
    if any(abs(x - tol) < 1e-9 * tol for x in d):
        return None
    close_by = [v for x, v in zip(d, z) if x < tol]
    if close_by:
        return math.fsum(close_by) / len(close_by), 1e-9
    if max(d) / min(d) > 1e6:
        return None
    s = basic_weights(d)
    u = [(at[0] - p[0], at[1] - p[1]) for p in pts]
    e = [math.hypot(*v) for v in u]
    w = []
    for i in range(len(pts)):
        t = 0.0
        for j in range(len(pts)):
            if j != i:
                cos = (u[i][0] * u[j][0] + u[i][1] * u[j][1]) / (e[i] * e[j])
                t += s[j] * (1 - cos)
        w.append(s[i] ** 2 * (1 + t / math.fsum(s)))
    grads = []
    for i, p in enumerate(pts):
        others = [j for j in range(len(pts)) if j != i]
        diffs = [[pts[j][0] - p[0], pts[j][1] - p[1]] for j in others]
        sel = [
            j for j, ok, v in zip(others, inside(m["nb"], f, diffs), diffs)
            if ok and (v[0] or v[1])
        ]
        tot = math.fsum(w[j] for j in sel)
        if not tot:
            grads.append((0.0, 0.0))
            continue
        gx = gy = 0.0
        for j in sel:
            dx, dy, dz = [pts[j][k] - p[k] for k in range(3)]
            q = w[j] / tot * dz / (dx * dx + dy * dy)
            gx += q * dx
            gy += q * dy
        grads.append((gx, gy))
    top = max(math.hypot(*g) for g in grads)
    vals = list(z)
    if top > 0:
        v = (m["slope"] or 0.1) * (max(z) - min(z)) / top
        vals = [
            zi + (g[0] * ui[0] + g[1] * ui[1]) * v / (v + ei)
            for zi, g, ui, ei in zip(z, grads, u, e)
        ]
    return wmean(w, vals), 1e-6 if top > 1e-6 or top == 0 else None


def wpts(c):
    return WeightedPoints(np.array(c["pts"], float), np.array(c["weights"]))


def snap(w):
    return frozen([w.data, w.weights])


def check(m, c, cx):
    pts, at = c["pts"], c["at"]
    z = [p[2] for p in pts]
    q = np.array(at, float)
    w = wpts(c)
    before = snap(w), frozen(q)
    method = build(m)
    got = float(method.interpolate(w, q))
    text = f"{m['kind']} at {at}"
    expect(math.isfinite(got), f"{text}: {got}")
    expect((snap(w), frozen(q)) == before, f"{text}: the points were changed")
    s = m.get("s", 1)
    exact = [p[2] for p in pts if p[:2] == at]
    # (distances below 1e-150 vanish on squaring)
    here = [p[2] for p in pts if max(abs(p[0] - at[0]), abs(p[1] - at[1])) < 1e-140]
    if exact and s == 1:
        cx.label("on a point")
        # (a tolerance makes Shepard's method prefer the mean of near points
        # only where no point is hit exactly)
        expect(got in here, f"{text}: {got}, measured there: {here}")
    span = max(z) - min(z)
    slack = 1e-9 * (1 + abs(max(z)))
    if m["kind"] == "shepard":
        slack += (m["slope"] or 0.1) * span
    if not (here and s != 1):
        expect(
            s * min(z) - slack <= got <= s * max(z) + slack,
            f"{text}: {got}, the values are {sorted(z)}",
        )
    ref = None if here else reference(m, c)
    if ref is not None and ref[1] is not None:
        cx.nontrivial(len(pts) > 1 and span > 0)
        tol = ref[1] * (1 + max(map(abs, z)))
        expect(abs(got - ref[0]) <= tol, f"{text}: {got}, the formula gives {ref[0]}")
    if len(here) < 2:
        for rev in (True, False):
            k = list(range(len(pts)))
            k = k[::-1] if rev else k[1:] + k[:1]
            c2 = {"pts": [pts[i] for i in k], "weights": [c["weights"][i] for i in k], "at": at}
            again = float(method.interpolate(wpts(c2), q))
            expect(abs(again - got) <= 1e-6 * (1 + max(map(abs, z))) or (ref is not None and ref[1] is None),
                   f"{text}: {got}, {again} after reordering the points")
    expect(float(method.interpolate(w, q)) == got, f"{text}: differs the second time")


RULE = (
    "1-9 points (clusters, lines, rings, repeated positions, constant values),"
    " queries near, far, on and extremely close to points, default and given"
    " norms; non-trivial: the formula was compared for several values"
)


@REG.facet(st.tuples(methods("idw"), clouds()).map(list), quick=2500, rule=RULE)
def inverse_distance(c, cx):
    check(c[0], c[1], cx)


@REG.facet(st.tuples(methods("mean"), clouds()).map(list), quick=2500, rule=RULE)
def arithmetic_mean(c, cx):
    check(c[0], c[1], cx)


@REG.facet(st.tuples(methods("improved"), clouds()).map(list), quick=2500, rule=RULE)
def improved(c, cx):
    check(c[0], c[1], cx)


@REG.facet(st.tuples(methods("shepard"), clouds()).map(list), quick=2500, rule=RULE)
def shepard(c, cx):
    check(c[0], c[1], cx)


@st.composite
def grids(draw):
    xs = sorted(draw(gen.uniq(gen.grid(0, 40), 1, 5)))
    ys = sorted(draw(gen.uniq(gen.grid(0, 359), 1, 5)))
    if draw(st.integers(0, 4)) == 0:  # lines of the grid next to each other
        for v in (xs, ys):
            v.append(v[-1] * (1 + 2**-20) + 2**-30)
    bil = draw(st.booleans())
    co = [draw(st.integers(-4, 4)) for _ in range(4)]
    z = [
        [
            co[0] + co[1] * x + co[2] * y + co[3] * x * y if bil else draw(gen.grid(0, 20))
            for y in ys
        ]
        for x in xs
    ]

    def at(v):
        k = draw(st.sampled_from(["node", "in", "in", "in", "out"]))
        if k == "node":
            return draw(st.sampled_from(v))
        if k == "in":
            i = draw(st.integers(0, max(len(v) - 2, 0)))
            return v[i] + draw(gen.floats(0, 1)) * (v[min(i + 1, len(v) - 1)] - v[i])
        return draw(st.one_of(
            gen.grid(v[-1] + 1 / 64, v[-1] + 9), gen.grid(v[0] - 9, v[0] - 1 / 64),
            st.sampled_from([v[-1] * (1 + 2**-30) + 2**-40, v[0] * (1 - 2**-30) - 2**-40]),
        ))

    order = draw(st.permutations([(i, j) for i in range(len(xs)) for j in range(len(ys))]))
    hole = draw(st.integers(0, 3)) == 0
    return {
        "xs": xs, "ys": ys, "z": z, "bil": co if bil else None,
        "at": [at(xs), at(ys)],
        "order": [list(o) for o in order],
        "hole": draw(st.integers(0, len(order) - 1)) if hole and len(order) > 1 else None,
    }


@REG.facet(
    grids(),
    quick=3000,
    rule="grids of 1-5 by 1-5 unevenly spaced winds in any order, possibly"
    " with one missing point, queries at nodes, edges, inside, outside;"
    " non-trivial: strictly inside a cell of a complete grid",
)
def bilinear(c, cx):
    xs, ys, at = c["xs"], c["ys"], c["at"]
    order = [o for i, o in enumerate(c["order"]) if i != c["hole"]]
    data = np.array([[xs[i], ys[j], c["z"][i][j]] for i, j in order])
    w = WeightedPoints(data, 1)
    before = snap(w)
    call = lambda: BilinearGridInterpolator().interpolate(w, np.array(at))  # noqa: E731
    have = {(xs[i], ys[j]): c["z"][i][j] for i, j in order}
    kx, ky = {p[0] for p in have}, {p[1] for p in have}
    out = not (min(kx) <= at[0] <= max(kx) and min(ky) <= at[1] <= max(ky))
    if out:
        cx.label("outside")
        must_raise(f"the point {at} outside the grid", call, BilinearInterpolatorOutsideGridException)
        return
    x0, x1 = max(x for x in kx if x <= at[0]), min(x for x in kx if x >= at[0])
    y0, y1 = max(y for y in ky if y <= at[1]), min(y for y in ky if y >= at[1])
    corners = [(x0, y0), (x0, y1), (x1, y0), (x1, y1)]
    if any(k not in have for k in corners):
        cx.label("no grid")
        must_raise("a grid with a missing corner", call, BilinearInterpolatorNoGridException)
        return
    cx.nontrivial(x0 < x1 and y0 < y1)
    got = float(call())
    s = (at[0] - x0) / (x1 - x0) if x1 > x0 else 0.0
    t = (at[1] - y0) / (y1 - y0) if y1 > y0 else 0.0
    z = [have[k] for k in corners]
    want = (1 - s) * ((1 - t) * z[0] + t * z[1]) + s * ((1 - t) * z[2] + t * z[3])
    tol = 1e-9 * (1 + max(map(abs, z)))
    expect(abs(got - want) <= tol, f"{got} at {at}, expected {want}")
    expect(min(z) - tol <= got <= max(z) + tol, f"{got} outside of {z}")
    if tuple(at) in have:
        expect(got == have[tuple(at)], f"{got} at the grid point {at}: {have[tuple(at)]}")
    if c["bil"]:
        a, b, d, e = c["bil"]
        want = a + b * at[0] + d * at[1] + e * at[0] * at[1]
        expect(abs(got - want) <= 1e-7 * (1 + max(map(abs, z))), f"{got} at {at}, the data is bilinear: {want}")
    expect(snap(w) == before, "the points were changed")


@REG.facet(
    st.tuples(gen.grid(-5, -1 / 64), gen.grid(0, 5)).map(list),
    quick=60,
    rule="parameters out of range, point sets without points; non-trivial:"
    " always",
)
def rejected(c, cx):
    neg, pos = c
    cx.nontrivial()
    must_raise("negative p", lambda: IDWInterpolator(int(neg) - 1), ValueError)
    must_raise("fractional p", lambda: IDWInterpolator(pos + 0.5), TypeError)
    must_raise(f"s={neg}", lambda: ArithmeticMeanInterpolator(neg), ValueError)
    must_raise("s=0", lambda: ArithmeticMeanInterpolator(0), ValueError)
    must_raise("tol", lambda: ShepardInterpolator(Ball(), tol=neg), ValueError)
    must_raise("slope", lambda: ShepardInterpolator(Ball(), slope=neg), ValueError)
    none = WeightedPoints(np.empty((0, 3)), np.empty(0))
    must_raise("no points", lambda: IDWInterpolator().interpolate(none, np.zeros(2)), ValueError)
    four = WeightedPoints(np.ones((2, 4)), 1)
    must_raise("four columns", lambda: BilinearGridInterpolator().interpolate(four, np.ones(2)), BilinearInterpolatorNoGridException)


# ---- large ----
def big_cloud(r, n):
    c = [r.grid(1, 30), r.grid(20, 340)]
    shape = r.choice(["any", "any", "near", "grid", "constant", "repeated"])
    pts = []
    for i in range(n):
        if shape == "grid":
            p = [float(i % 20), float(i // 20)]
        elif shape == "near" or r.random() < 0.4:
            p = [c[0] + r.grid(-2, 2), c[1] + r.grid(-9, 9)]
        else:
            p = [r.grid(0, 40), r.grid(0, 359)]
        if shape == "repeated" and pts and r.random() < 0.5:
            p = r.choice(pts)[:2]
        pts.append(p + [3.5 if shape == "constant" else r.choice([float(r.randint(0, 15)), r.grid(0, 15)])])
    k = r.randrange(n)
    q = r.choice(["near", "near", "on", "centre", "far"])
    at = {
        "near": lambda: [pts[k][0] + r.uniform(-3, 3), pts[k][1] + r.uniform(-20, 20)], "on": lambda: pts[k][:2],
        "centre": lambda: list(c), "far": lambda: [r.grid(40, 400), r.grid(-4000, 4000)],
    }[q]()
    return {"pts": pts, "weights": [r.choice([1.0, r.grid(1 / 64, 2)]) for _ in pts], "at": at}


def big_case(kind):
    def expand(r, n):
        m = {"kind": kind, "norm": r.choice(sorted(NORMS))}
        if kind == "idw":
            m["p"] = r.choice([None, r.randint(0, 6)])
        if kind == "mean":
            m.update(s=r.choice([1, 1, 0.5, 2]), distr=r.choice([None, None, "ones", "weights", "cauchy"]), alpha=r.choice([None, 1, 50, 1000]))
        if kind == "shepard":
            m.update(
                slope=r.choice([None, 0.1, 0.3, 1.7]), tol=r.choice([None, 1e-6, 0.1]),
                nb=r.choice([["ball", 0.0371], ["ball", 3.71], ["cuboid", 2.003], ["ellipsoid", 2.503], ["scaling", 3], ["scaling", n // 2]]),
            )
        return [m, big_cloud(r, n)]
    return expand


big.large(REG, inverse_distance, big_case("idw"), hi=1000, quick=60, what="points")
big.large(REG, arithmetic_mean, big_case("mean"), hi=1000, quick=60, what="points")
big.large(REG, improved, big_case("improved"), hi=1000, quick=60, what="points")
big.large(REG, shepard, big_case("shepard"), hi=150, quick=60, what="points")


def big_grid(r, n):
    m, k = r.shape(n, cells=1500)
    xs = sorted(r.uniq(m, lambda: r.grid(0, 90)))
    ys = sorted(r.uniq(k, lambda: r.grid(0, 359)))
    co = [r.randint(-4, 4) for _ in range(4)]
    bil = r.random() < 0.5
    z = [[co[0] + co[1] * x + co[2] * y + co[3] * x * y if bil else r.grid(0, 20) for y in ys] for x in xs]

    def at(v):
        kind = r.randrange(4)
        if kind == 0:
            return r.choice(v)
        i = r.randrange(max(1, len(v) - 1))
        if kind < 3:
            return v[i] + r.random() * (v[min(i + 1, len(v) - 1)] - v[i])
        return r.choice([v[-1] + r.grid(1 / 64, 9), v[0] - r.grid(1 / 64, 9)])

    order = [[i, j] for i in range(len(xs)) for j in range(len(ys))]
    r.shuffle(order)
    return {
        "xs": xs, "ys": ys, "z": z, "bil": co if bil else None, "at": [at(xs), at(ys)], "order": order,
        "hole": r.choice([None, None, None, r.randrange(len(order))]) if len(order) > 1 else None,
    }


big.large(REG, bilinear, big_grid, hi=300, quick=60, what="grid lines")
