"""C20: neighbourhoods contain exactly the points of their definition."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import frozen, must_raise
from hrosailing.core import computing as comp
from hrosailing.processing.neighbourhood import (
    Ball,
    Cuboid,
    Ellipsoid,
    Polytope,
    ScalingBall,
)

REG = Registry(
    "C20",
    [
        "points within rounding of the boundary are only judged where the"
        " inequality is evaluated without rounding (max norm, cuboids,"
        " polytopes with dyadic data)",
    ],
)

NORMS = {
    "scaled": (None, lambda v: math.hypot(v[0] / 40, v[1] / 360)),
    "euclid": (lambda v: np.linalg.norm(v, axis=1), lambda v: math.hypot(*v)),
    "max": (lambda v: np.max(np.abs(v), axis=1), lambda v: max(map(abs, v))),
    "sum": (lambda v: np.sum(np.abs(v), axis=1), lambda v: sum(map(abs, v))),
}
EXACT = {"max", "sum"}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["ball", "ellipsoid", "cuboid", "polytope"]))
    c = {"kind": kind}
    size = draw(st.sampled_from([1, 1, 1, 1 / 16, 16, 2**-20, 2**12]))
    r = draw(st.one_of(st.none(), gen.grid(1 / 16, 4)))
    c["radius"] = None if r is None else r * size
    scale = 0.05 if r is None else c["radius"]
    c["norm"] = draw(st.sampled_from(sorted(NORMS)))
    if kind == "ellipsoid":
        c["trans"] = draw(
            st.one_of(
                st.none(),
                st.sampled_from([[[2.0, 0.0], [0.0, 0.5]], [[0.0, 1.0], [-4.0, 0.0]], [[1.0, 1.0], [0.0, 1.0]]]),
                gen.matrix(gen.grid(-3, 3, 4), 2, 2).filter(lambda m: abs(m[0][0] * m[1][1] - m[0][1] * m[1][0]) > 0.2),
            )
        )
    if kind == "cuboid":
        c["dims"] = draw(st.one_of(st.none(), st.tuples(gen.grid(0, 4), gen.grid(0, 4)).map(list)))
        c["half"] = draw(st.booleans())
        scale = max(c["dims"] or [0.05]) or 1
    if kind == "polytope":
        m = draw(st.integers(1, 6))
        c["mat"] = draw(st.one_of(st.none(), gen.matrix(gen.grid(-4, 4, 4), m, 2)))
        rows = 4 if c["mat"] is None else m
        c["b"] = draw(st.lists(gen.grid(-1 if c["mat"] else 1 / 16, 4), min_size=rows, max_size=rows))
        if c["mat"] is None and draw(st.booleans()):
            c["b"] = None
        scale = 1
    if c["norm"] == "scaled" and kind in ("ball", "ellipsoid"):
        sx, sy = 40 * scale, 360 * scale
    else:
        sx = sy = scale
    n = draw(st.integers(0, 8))
    unit = st.one_of(
        st.tuples(gen.grid(-2, 2), gen.grid(-2, 2)),
        st.tuples(st.sampled_from([0, 1, -1, 0.5]), st.sampled_from([0, 1, -1, 0.5])),
        st.sampled_from([(0.6, 0.8), (-0.8, 0.6)]),
    )
    c["pts"] = [[x * sx, y * sy] for x, y in (draw(unit) for _ in range(n))]
    # the same in other units
    u = draw(st.sampled_from([1, 1, 1, 2**-20, 2**12]))
    for k in {"ellipsoid": ["trans"], "cuboid": ["dims"], "polytope": ["b"]}.get(kind, []):
        if c[k] is not None and u != 1:
            c[k] = [[x * u for x in v] if isinstance(v, list) else v * u for v in c[k]]
            c["pts"] = [[x * u, y * u] for x, y in c["pts"]]
    c["form"] = draw(st.sampled_from(["array", "list", "array"]))
    return c


def inverse(t):
    (a, b), (c, d) = t
    det = a * d - b * c
    return [[d / det, -b / det], [-c / det, a / det]]


def build(c):
    """-> neighbourhood, function point -> (lhs - bound) list, exact?"""
    f = NORMS[c["norm"]][1]
    kw = {}
    if NORMS[c["norm"]][0] is not None:
        kw["norm"] = NORMS[c["norm"]][0]
    if c["radius"] is not None:
        kw["radius"] = c["radius"]
    r = 0.05 if c["radius"] is None else c["radius"]
    if c["kind"] == "ball":
        return Ball(**kw), (lambda p: [f(p) - r]), c["norm"] in EXACT
    if c["kind"] == "ellipsoid":
        t = c["trans"] or [[1.0, 0.0], [0.0, 1.0]]
        inv = inverse(t)

        def lhs(p):
            q = [inv[0][0] * p[0] + inv[0][1] * p[1], inv[1][0] * p[0] + inv[1][1] * p[1]]
            return [f(q) - r]

        if c["trans"] is not None:
            kw["lin_trans"] = c["trans"]
        return Ellipsoid(**kw), lhs, False
    if c["kind"] == "cuboid":
        kw = {}
        if c["half"]:
            kw["norm"] = lambda v: np.abs(v) / 2
        if c["dims"] is not None:
            kw["dimensions"] = tuple(c["dims"])
        d = c["dims"] or [0.05, 0.05]
        k = 0.5 if c["half"] else 1
        return Cuboid(**kw), (lambda p: [k * abs(p[0]) - d[0], k * abs(p[1]) - d[1]]), True
    kw = {}
    if c["mat"] is not None:
        kw["mat"] = c["mat"]
    if c["b"] is not None:
        kw["b"] = c["b"]
    mat = c["mat"] or [[1, 0], [0, 1], [-1, 0], [0, -1]]
    b = c["b"] or [0.05] * 4
    return (
        Polytope(**kw),
        lambda p: [row[0] * p[0] + row[1] * p[1] - bound for row, bound in zip(mat, b)],
        True,
    )


def mask_of(nb, pts, n, what):
    m = np.asarray(nb.is_contained_in(pts))
    expect(m.shape == (n,), f"{what}: a mask of shape {m.shape} for {n} points")
    expect(m.dtype == bool, f"{what}: a mask of type {m.dtype}")
    return m


@REG.facet(
    cases(),
    quick=5000,
    rule="0-8 points around and exactly on the boundary of balls (four norms),"
    " ellipsoids, cuboids and polytopes with default and given parameters;"
    " non-trivial: points inside and outside",
)
def membership(c, cx):
    nb, lhs, exact = build(c)
    pts = c["pts"]
    given = np.array(pts, float).reshape(-1, 2) if c["form"] == "array" else [list(p) for p in pts]
    before = frozen(given), frozen([c.get("mat"), c.get("b"), c.get("trans"), c.get("dims")])
    mask = mask_of(nb, given, len(pts), c["kind"])
    cx.label(c["kind"])
    cx.nontrivial(len(set(mask.tolist())) == 2)
    for p, got in zip(pts, mask):
        v = max(lhs(p))
        if not exact and abs(v) < 1e-9 * (1 + abs(p[0]) + abs(p[1])):
            cx.label("on the boundary, not judged")
            continue
        if v == 0:
            cx.label("on the boundary")
        expect(bool(got) == (v <= 0), f"{c['kind']}: {p} is {'in' if got else 'out'}, off the boundary by {v}")
    # one by one, and in another order
    for i, p in enumerate(pts):
        one = mask_of(nb, np.array([p]) if c["form"] == "array" else [p], 1, c["kind"])
        expect(exact is False and abs(max(lhs(p))) < 1e-9 * (1 + abs(p[0]) + abs(p[1])) or bool(one[0]) == bool(mask[i]),
               f"{c['kind']}: {p} decided differently on its own")
    back = mask_of(nb, given[::-1], len(pts), c["kind"])
    expect(
        all(
            bool(a) == bool(b) or (not exact and abs(max(lhs(p))) < 1e-9 * (1 + abs(p[0]) + abs(p[1])))
            for a, b, p in zip(back[::-1], mask, pts)
        ),
        f"{c['kind']}: depends on the order",
    )
    expect(
        (frozen(given), frozen([c.get("mat"), c.get("b"), c.get("trans"), c.get("dims")])) == before,
        "points or parameters were changed",
    )


@st.composite
def scaling_cases(draw):
    sets = draw(
        st.lists(
            st.lists(
                st.one_of(
                    st.tuples(gen.grid(-4, 4), gen.grid(-4, 4)).map(list),
                    st.sampled_from([[3.0, 4.0], [-4.0, 3.0], [0.0, 0.0], [5.0, 0.0]]),
                ),
                min_size=0, max_size=10,
            ),
            min_size=1, max_size=3,
        )
    )
    return {
        "min": draw(st.integers(1, 12)),
        "norm": draw(st.sampled_from(["scaled", "euclid", "max", "sum"])),
        "sets": sets,
    }


@REG.facet(
    scaling_cases(),
    quick=3000,
    rule="one to three point sets of 0-10 points with equal distances, fewer"
    " and more points than required, one ball for all of them; non-trivial:"
    " some points are left out",
)
def scaling_ball(c, cx):
    fn, f = NORMS[c["norm"]]
    kw = {} if fn is None else {"norm": fn}
    nb = ScalingBall(c["min"], **kw)
    more = ScalingBall(c["min"] + 1, **kw)
    for pts in c["sets"] + c["sets"][:1]:
        arr = np.array(pts, float).reshape(-1, 2)
        before = frozen(arr)
        mask = mask_of(nb, arr, len(pts), "scaling ball")
        want = min(c["min"], len(pts))
        d = [f(p) for p in pts]
        cx.nontrivial(want < len(pts))
        if len(pts) < c["min"]:
            cx.label("too few")
        expect(int(mask.sum()) >= want, f"{int(mask.sum())} of {len(pts)} points, {c['min']} required")
        lim = sorted(d)[want - 1] if pts else 0
        for p, x, got in zip(pts, d, mask):
            if abs(x - lim) <= 1e-12 * lim:
                continue  # ties up to rounding are in or were counted
            expect(bool(got) == (x < lim), f"{p} at {x} is {'in' if got else 'out'}, radius {lim}")
        if c["norm"] in EXACT:
            expect(all(got == (x <= lim) for x, got in zip(d, mask)), "ties are treated differently")
        m2 = mask_of(more, arr, len(pts), "scaling ball")
        expect(bool(np.all(m2 | ~mask)), "a ball of more points leaves out points of a smaller one")
        expect(frozen(arr) == before, "the points were changed")
        expect(np.array_equal(ScalingBall(c["min"], **kw).is_contained_in(arr), mask), "a used ball differs from a fresh one")


@REG.facet(
    st.tuples(gen.grid(-4, 0), gen.grid(-3, 3)).map(list),
    quick=100,
    rule="radii and numbers that are not positive, singular or misshapen"
    " matrices, infinite entries; non-trivial: always",
)
def rejected(c, cx):
    r, x = c
    cx.nontrivial()
    must_raise(f"radius {r}", lambda: Ball(r), ValueError)
    must_raise(f"radius {r}", lambda: Ellipsoid(radius=r), ValueError)
    must_raise(f"{int(r)} points", lambda: ScalingBall(int(r)), ValueError)
    must_raise("a singular matrix", lambda: Ellipsoid([[x, 0], [1, 0]]), ValueError)
    must_raise("a 2x1 matrix", lambda: Ellipsoid([[x], [1]]), ValueError)
    must_raise("an infinite matrix", lambda: Ellipsoid([[math.inf, x], [1, 2]]), ValueError)
    must_raise("three columns", lambda: Polytope([[x, 1, 2]], [1]), ValueError)
    must_raise("two bounds for one row", lambda: Polytope([[x, 1]], [1, 2]), ValueError)
    must_raise("NaN bounds", lambda: Polytope([[x, 1]], [math.nan]), ValueError)


@st.composite
def norm_cases(draw):
    d = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    size = draw(st.sampled_from([1, 1, 40, 360, 1e-6, 1e6]))
    return {
        "d": d,
        "vecs": draw(st.lists(st.lists(gen.nice(-5, 5).map(lambda x: x * size), min_size=d, max_size=d), max_size=8)),
        "factors": draw(st.lists(gen.nice(0.001, 50), min_size=d, max_size=d)),
        "form": draw(st.sampled_from([list, tuple, np.array]).map(lambda f: f.__name__)),
    }


@REG.facet(
    norm_cases(),
    quick=1500,
    rule="0-8 vectors of one to four components: the euclidean norm, a norm"
    " scaled by given factors and the documented scaled norm, compared with"
    " hypot and with the scaling of single vectors; non-trivial: two vectors",
)
def norms(c, cx):
    d = c["d"]
    vecs = np.array(c["vecs"], float).reshape(-1, d)
    before = frozen(vecs)
    f = {"list": list, "tuple": tuple, "array": np.array}[c["form"]](c["factors"])
    cx.nontrivial(len(vecs) > 1)
    cx.label(f"{d} components")

    def check(got, want, what):
        expect(np.shape(got) == (len(vecs),), f"{what}: shape {np.shape(got)} for {len(vecs)} vectors")
        for g, w, v in zip(got, want, c["vecs"]):
            expect(abs(g - w) <= 1e-9 * w + 1e-100, f"{what} of {v} is {g}, expected {w}")

    check(comp.euclidean_norm(vecs), [math.hypot(*v) for v in c["vecs"]], "the euclidean norm")
    scaled = [[x * k for x, k in zip(v, c["factors"])] for v in c["vecs"]]
    check(comp.scaled_norm(comp.euclidean_norm, f)(vecs), [math.hypot(*v) for v in scaled], f"the norm scaled by {f}")
    check(comp.scaled_norm(lambda v: np.sum(np.abs(v), axis=1), f)(vecs), [sum(map(abs, v)) for v in scaled], f"the 1-norm scaled by {f}")
    if d in (2, 3):
        scaled = [[x / k for x, k in zip(v, (40, 360, 20))] for v in c["vecs"]]
        check(comp.scaled_euclidean_norm(vecs), [math.hypot(*v) for v in scaled], "the scaled euclidean norm")
    else:
        must_raise(f"{d} components", lambda: comp.scaled_euclidean_norm(vecs), NotImplementedError)
    expect(frozen(vecs) == before and list(f) == c["factors"], "the arguments were changed")


# ---- large ----
def big_case(r, n):
    kind = r.choice(["ball", "ellipsoid", "cuboid", "polytope"])
    c = {"kind": kind, "radius": r.choice([None, r.grid(1 / 16, 4)]), "norm": r.choice(sorted(NORMS))}
    scale = 0.05 if c["radius"] is None else c["radius"]
    if kind == "ellipsoid":
        c["trans"] = r.choice([None, [[2.0, 0.0], [0.0, 0.5]], [[0.0, 1.0], [-4.0, 0.0]], [[1.0, 1.0], [0.0, 1.0]]])
    if kind == "cuboid":
        c["dims"] = r.choice([None, [r.grid(1 / 16, 4), r.grid(1 / 16, 4)]])
        c["half"] = r.random() < 0.5
        scale = max(c["dims"] or [0.05])
    if kind == "polytope":
        m = r.choice([1, 6, min(n, 60)])
        c["mat"] = r.choice([None, [[r.grid(-4, 4, 4), r.grid(-4, 4, 4)] for _ in range(m)]])
        rows = 4 if c["mat"] is None else m
        c["b"] = None if c["mat"] is None and r.random() < 0.5 else [r.grid(1 / 16, 4) for _ in range(rows)]
        scale = 1
    wide = c["norm"] == "scaled" and kind in ("ball", "ellipsoid")
    sx, sy = (40 * scale, 360 * scale) if wide else (scale, scale)
    c["pts"] = [[r.choice([r.grid(-2, 2), r.choice([0, 1, -1, 0.5])]) * sx, r.choice([r.grid(-2, 2), r.choice([0, 1, -1, 0.5])]) * sy] for _ in range(n)]
    c["form"] = r.choice(["array", "list"])
    return c


def big_scaling(r, n):
    def pts(m):
        return [r.choice([[r.grid(-4, 4), r.grid(-4, 4)], [r.grid(-40, 40), r.grid(-40, 40)], [3.0, 4.0], [0.0, 0.0]]) for _ in range(m)]

    return {
        "min": r.choice([1, 3, r.randint(1, n), n, n + 3]), "norm": r.choice(["scaled", "euclid", "max", "sum"]),
        "sets": [pts(m) for m in r.choice([[n], [n, 3], [3, n], [n, n]])],
    }


big.large(REG, membership, big_case, hi=1500, quick=80, what="points")
big.large(REG, scaling_ball, big_scaling, hi=600, quick=60, what="points")
