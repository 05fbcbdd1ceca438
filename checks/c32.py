"""C32: the convex hull of a slice is drawn, and nothing else."""
import math

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import hrosailing.plotting  # noqa: F401
from checks.c31 import build, model
from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import angdiff

REG = Registry(
    "C32",
    [
        "points within 1e-7 of an edge may or may not be drawn",
        "slices that are not within 1e-6 of being collinear",
    ],
)


def cart(rows):
    """[angle in degrees, boat speed] -> points"""
    return np.array([[b * math.cos(math.radians(a)), b * math.sin(math.radians(a))] for a, b in rows]).reshape(-1, 2)


def hull(pts):
    """indices of the vertices, counterclockwise (monotone chain)"""
    order = sorted(range(len(pts)), key=lambda i: (pts[i][0], pts[i][1]))

    def turn(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    def half(idx):
        out = []
        for i in idx:
            while len(out) > 1 and turn(pts[out[-2]], pts[out[-1]], pts[i]) <= 0:
                out.pop()
            out.append(i)
        return out

    low, up = half(order), half(order[::-1])
    return low[:-1] + up[:-1]


def to_segment(p, a, b):
    d = b - a
    n = float(d @ d)
    t = 0.0 if n == 0 else min(1.0, max(0.0, float((p - a) @ d) / n))
    return float(np.linalg.norm(p - a - t * d))


def distances(poly, p):
    """-> distance to the boundary"""
    return min(to_segment(p, poly[i], poly[i - 1]) for i in range(len(poly)))


def inside(poly, p):
    """how far p is outside of a counterclockwise polygon"""
    out = -1e300
    for i in range(len(poly)):
        a, b = poly[i - 1], poly[i]
        d = b - a
        n = float(np.linalg.norm(d))
        if n > 0:
            out = max(out, float((p - a)[0] * d[1] - (p - a)[1] * d[0]) / n)
    return out


CLOSE = st.sampled_from([0.25, 0.5, 0.75, 0.125, 2.0, 0.01])


@st.composite
def slices_(draw):
    """one slice: several angles, all around or in a sector"""
    kind = draw(st.sampled_from(["around", "around", "sector", "gap", "any", "line", "wind"]))
    n = draw(st.integers(1 if kind in ("any", "line") else 3, 12))
    if kind == "around":
        a0 = draw(gen.grid(0, 359, 4))
        wa = [(a0 + k * 360 / n + draw(gen.grid(-20, 20, 4))) % 360 for k in range(n)]
    elif kind == "sector":
        a0 = draw(gen.grid(0, 190, 4))
        wa = [a0 + draw(gen.grid(0, 160, 4)) for _ in range(n)]
    elif kind == "gap":
        # none close to the wind
        a0 = draw(gen.grid(20, 90, 4))
        wa = [a0, 360 - draw(gen.grid(20, 90, 4))] + [draw(gen.grid(a0, 270, 4)) for _ in range(n - 2)]
    elif kind == "wind":
        # close to the wind on both sides
        wa = [draw(CLOSE), 360 - draw(CLOSE)] + [draw(gen.grid(20, 340, 4)) for _ in range(n)]
    elif kind == "line":
        wa = [draw(st.sampled_from([30.0, 210.0])) for _ in range(n)]
    else:
        wa = [draw(gen.nice(0, 359.9)) for _ in range(n)]
    if draw(st.booleans()):
        wa.append(0.0)
    wa = [w % 360 for w in dict.fromkeys(wa)]
    if kind == "line":
        return [[w, 1.0 + k] for k, w in enumerate(wa)]
    zero = draw(st.sampled_from([False, False, True]))
    return [[w, 0.0 if zero and k == len(wa) - 1 else draw(gen.nice(0.5, 20))] for k, w in enumerate(dict.fromkeys(wa))]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["table", "table", "cloud", "multi", "curve"]))
    c = {"polar": draw(st.booleans()), "scatter": draw(st.integers(0, 3)) == 0}
    if kind == "curve":
        c["pd"] = {
            "kind": "curve",
            "params": [draw(gen.nice(0.1, 2)) for _ in range(3)],
            "radians": draw(st.booleans()),
        }
        c["ws"] = draw(gen.nice(2, 20))
    elif kind == "table":
        s = draw(slices_())
        ws = [4.0, 8.0] if draw(st.booleans()) else [8.0]
        bsp = [[draw(gen.nice(0, 20)) if w == 4.0 else r[1] for w in ws] for r in s]
        c["pd"] = {"kind": "table", "ws": ws, "wa": [r[0] for r in s], "bsp": bsp}
        c["ws"] = 8.0
    elif kind == "cloud":
        c["pd"] = {"kind": "cloud", "pts": [[8.0, *r] for r in draw(slices_())]}
        c["ws"] = 8.0
    else:
        parts = [draw(slices_()) for _ in range(draw(st.integers(1, 3)))]
        c["pd"] = {
            "kind": "multi",
            "pds": [{"kind": "table", "ws": [8.0], "wa": [r[0] for r in s], "bsp": [[r[1]] for r in s]} for s in parts],
            "sails": ["Jib", "Spi", "G0"][: len(parts)],
        }
        c["ws"] = 8.0
    return c


@REG.facet(
    cases(),
    quick=700,
    rule="slices around the boat, in a sector, without winds close to 0, on a"
    " line, with points at the origin, of all kinds of diagrams; non-trivial:"
    " a proper hull that leaves out points",
)
def drawn(c, cx):
    pd = build(c["pd"])
    before = pds.describe(pd) if c["pd"]["kind"] != "curve" else None
    _, (part,) = pd.get_slices(c["ws"])
    rows = [[float(a), float(b)] for _, a, b in np.asarray(part, float).T]
    fig = plt.figure()
    try:
        ax = plt.subplot(projection="hro polar" if c["polar"] else "hro flat")
        (ax.scatter if c["scatter"] else ax.plot)(pd, ws=c["ws"], use_convex_hull=True)
        things = list(ax.collections) + list(ax.lines)
        expect(len(things) == 1, "%s lines for one slice", len(things))
        if c["scatter"]:
            got = np.asarray(things[0].get_offsets(), float)
        else:
            got = np.column_stack([np.asarray(v, float) for v in things[0].get_data()])
    finally:
        plt.close(fig)
    expect(before is None or pds.describe(pd) == before, "the diagram was changed")
    if c["polar"]:
        got = np.column_stack([np.rad2deg(got[:, 0]), got[:, 1]])
    got = got.tolist()
    expect(np.isfinite(got).all(), "drawn are %s", got)
    expect(all(got[i][0] <= got[i + 1][0] for i in range(len(got) - 1)), "angles drawn are not ascending: %s", got)
    pts = cart(rows)
    size = float(np.abs(pts).max(initial=0.0)) or 1.0
    own = hull(pts.tolist())
    poly = pts[own]
    area = 0.5 * abs(sum(poly[i - 1][0] * poly[i][1] - poly[i][0] * poly[i - 1][1] for i in range(len(poly))))
    cx.label(c["pd"]["kind"])
    if len(poly) < 3 or area < 1e-14 * size * size:
        flat(rows, got)
        cx.label("no proper hull")
        return
    if area < 1e-4 * size * size:
        cx.label("narrow hull: skipped")
        return
    eps = 1e-7 * size
    far = []
    for k, i in enumerate(own):
        rest = [j for j in range(len(pts)) if float(np.linalg.norm(pts[j] - pts[i])) > eps]
        r = pts[rest][hull(pts[rest].tolist())]
        if len(r) < 3 or inside(r, pts[i]) > eps:
            far.append(i)
    drawn_pts = cart(got)
    boat_inside = inside(poly, np.zeros(2)) < -eps
    for p, (a, b) in zip(drawn_pts, got):
        if boat_inside:
            expect(distances(poly, p) <= eps, "%s is drawn, but not on the hull", (a, b))
        else:
            # several vertices may have the same angle
            expect(inside(poly, p) <= eps, "%s is drawn, but outside of the hull", (a, b))
        expect(
            any(angdiff(a, r[0]) < 1e-9 and abs(b - r[1]) <= 1e-9 * size for r in rows) or min(a, 360 - a) < 1e-9,
            "%s is drawn, but not in the slice",
            (a, b),
        )
    for i in far:
        expect(
            min(float(np.linalg.norm(p - pts[i])) for p in drawn_pts) <= eps,
            "the vertex %s of the hull is not drawn: %s",
            rows[i],
            got,
        )
    ang = sorted(rows[i][0] for i in far)
    # points without boat speed have no angle of their own
    if ang[-1] - ang[0] > 180 + 1e-6 and min(rows[i][1] for i in own) > eps:
        expect(
            abs(got[0][0]) < 1e-9 and abs(got[-1][0] - 360) < 1e-9 and abs(got[0][1] - got[-1][1]) <= 1e-9 * size,
            "the hull is not closed at the wind: %s",
            got,
        )
        cx.label("closed")
    gaps = [(ang[(k + 1) % len(ang)] - ang[k]) % 360 for k in range(len(ang))]
    if max(gaps) < 179 and 0.0 not in [r[1] for r in rows]:
        # the boat is inside: nothing of the slice is outside of what is drawn
        closed = np.array([p for k, p in enumerate(drawn_pts) if np.linalg.norm(p - drawn_pts[k - 1]) > eps])
        for p, r in zip(pts, rows):
            expect(inside(closed, p) <= 10 * eps, "%s is outside of the line drawn: %s", r, got)
        cx.label("around the boat")
    cx.nontrivial(len(far) < len(pts))


def flat(rows, got):
    """all points are drawn as they are"""
    a, b = sorted(rows), sorted(got)
    expect(
        len(a) == len(b) and all(abs(x - y) <= 1e-9 * (1 + abs(x)) for r, s in zip(a, b) for x, y in zip(r, s)),
        "drawn are %s, expected %s",
        got,
        rows,
    )


# ---- large ----
def big_slice(r, n):
    kind = r.choice(["around", "around", "sector", "gap", "any"])
    a0 = r.grid(20, 90, 4)
    draw = {
        "around": lambda: r.grid(0, 359.75, 4), "any": lambda: r.num(0, 359.9), "sector": lambda: a0 + r.grid(0, 160, 4),
        "gap": lambda: r.grid(a0, 330 - a0, 4),
    }[kind]
    wa = r.uniq(n, draw)
    if r.random() < 0.3 and 0.0 not in wa:
        wa.append(0.0)
    size = r.num(1, 10)
    return [[w, r.choice([size, r.num(0.5, 20), r.num(0.5, 20), 1.5 * size])] for w in wa]


def big_case(r, n):
    kind = r.choice(["table", "cloud", "multi"])
    c = {"polar": r.random() < 0.5, "scatter": r.random() < 0.25, "ws": 8.0}
    if kind == "table":
        s = big_slice(r, n)
        c["pd"] = {"kind": kind, "ws": [8.0], "wa": [q[0] for q in s], "bsp": [[q[1]] for q in s]}
    elif kind == "cloud":
        c["pd"] = {"kind": kind, "pts": [[8.0, *q] for q in big_slice(r, n)]}
    else:
        k = r.choice([2, 3, min(n, 10)])
        parts = [big_slice(r, max(3, n // k)) for _ in range(k)]
        c["pd"] = {
            "kind": kind, "sails": [f"Sail no {i}" for i in range(k)],
            "pds": [{"kind": "table", "ws": [8.0], "wa": [q[0] for q in s], "bsp": [[q[1]] for q in s]} for s in parts],
        }
    return c


big.large(REG, drawn, big_case, lo=12, hi=300, quick=60, what="points")
