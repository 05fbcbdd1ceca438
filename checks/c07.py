"""C07: slices and point queries agree with evaluating the polar diagram."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.c01 import NPARAMS
from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import must_raise, same
from hrosailing import polardiagram as hp
from hrosailing.processing import (
    ArithmeticMeanInterpolator,
    IDWInterpolator,
)

REG = Registry(
    "C07",
    [
        "the wind angles in slices and default points are degrees for every"
        " kind of diagram (the plotting and cruising functions use them so),"
        " also for curves whose function takes radians",
        "winds given to point queries are in the unit the diagram is called"
        " with",
    ],
)

INTERP = {
    "default": None,
    "idw": lambda: IDWInterpolator(),
    "mean": lambda: ArithmeticMeanInterpolator(params=(20,)),
}


@st.composite
def tables(draw, lo=1):
    c = draw(gen.table(ws=(lo, 5), wa=(1, 7), dyadic=True))
    c["kind"] = "table"
    return c


@st.composite
def curves(draw):
    f = draw(st.sampled_from(sorted(NPARAMS)))
    n = NPARAMS[f][0]
    return {
        "kind": "curve",
        "f": f,
        "params": pds.defined(f, draw(st.lists(gen.nice(-1, 1), min_size=n, max_size=n))),
        "radians": draw(st.booleans()),
    }


@st.composite
def clouds(draw):
    return {"kind": "cloud", "pts": draw(gen.points(1, 8, ws_low=0.25, dyadic=True))}


ws_request = st.one_of(
    st.tuples(st.just("none"), st.none()).map(list),
    st.tuples(st.sampled_from(["scalar", "npint", "npfloat"]), st.integers(1, 30)).map(list),
    st.tuples(st.just("scalar"), gen.nice(0.25, 30)).map(list),
    st.tuples(
        st.sampled_from(["list", "array", "tuple"]),
        st.lists(gen.nice(0.25, 30), min_size=1, max_size=5),
    ).map(list),
    st.tuples(
        st.sampled_from(["list", "intarray"]),
        st.lists(st.integers(1, 30), min_size=1, max_size=5),
    ).map(list),
)


def request(r):
    kind, v = r
    return {
        "none": lambda: None,
        "scalar": lambda: v,
        "npint": lambda: np.int64(v),
        "npfloat": lambda: np.float64(v),
        "list": lambda: list(v),
        "tuple": lambda: tuple(v),
        "array": lambda: np.array(v, float),
        "intarray": lambda: np.array(v, int),
    }[kind]()


def expected_labels(pd, r, n):
    kind, v = r
    if kind == "none":
        v = [float(x) for x in pd.default_slices]
    elif kind in ("scalar", "npint", "npfloat"):
        return [float(v)]
    if n is None:
        return [float(x) for x in v]
    out = []
    for a, b in zip(v, v[1:]):
        out += [a + (b - a) * k / (n + 1) for k in range(n + 1)]
    return out + [v[-1]]


@st.composite
def near_own(draw, pd):
    """wind speeds of the diagram and such that nearly are"""
    own = pd.get("ws") or sorted({p[0] for p in pd.get("pts", [])}) or [6.0, 11.0]
    pick = st.tuples(st.sampled_from(own), st.sampled_from([0, 0, 0, 1e-9, -1e-7, 1e-5, 2.0**-20, 1 / 64]))
    ws = [max(w + off, 2.0**-20) for w, off in draw(st.lists(pick, min_size=1, max_size=4))]
    return [draw(st.sampled_from(["list", "array", "tuple"])), ws]


@st.composite
def cases(draw, kinds):
    pd = draw(kinds)
    return {
        "pd": pd,
        "ws": draw(ws_request if draw(st.integers(0, 2)) else near_own(pd)),
        "n": draw(st.sampled_from([None, None, 1, 2, 3])),
        "res": draw(st.sampled_from([None, 2, 3, 7, 24])),
        "interp": draw(st.sampled_from(["default", "idw", "mean"])),
    }


def check_labels(labels, want):
    labels = np.asarray(labels, float)
    expect(
        labels.shape == (len(want),)
        and np.allclose(labels, want, rtol=1e-12, atol=1e-12),
        f"labels {labels}, requested {want}",
    )
    return labels.tolist()


def slices_of(pd, c, **kw):
    if c["n"] is not None:
        kw["n_steps"] = c["n"]
    if c["ws"][0] != "none" or c["n"] == 3:
        labels, slices = pd.get_slices(request(c["ws"]), **kw)
    else:
        labels, slices = pd.get_slices(**kw)
    labels = check_labels(labels, expected_labels(pd, c["ws"], c["n"]))
    expect(len(slices) == len(labels), f"{len(slices)} slices, {len(labels)} labels")
    return labels, [np.asarray(s, float) for s in slices]


def note(c, cx):
    cx.label("ws " + c["ws"][0])
    if c["n"]:
        cx.label("intermediate wind speeds")


RULE = (
    "generated diagram, wind speed request (none, scalar of several types,"
    " list, array), number of steps, angular resolution; every column of every"
    " slice is recomputed by calling the diagram; non-trivial: "
)


@REG.facet(cases(tables()), quick=800, rule=RULE + "a slice off the table")
def table_slices(c, cx):
    pd = pds.build(c["pd"])
    note(c, cx)
    wa = sorted(c["pd"]["wa"])
    kw = {}
    interp = INTERP[c["interp"]]
    if interp:
        kw["interpolator"] = interp()
    want = expected_labels(pd, c["ws"], c["n"])
    for w in want:
        # interpolation needs a table entry in reach of the neighbourhood
        if w not in c["pd"]["ws"] and min(abs(w - x) for x in c["pd"]["ws"]) > 38:
            return
    labels, slices = slices_of(pd, c, **kw)
    for w, s in zip(labels, slices):
        expect(s.shape == (3, len(wa)), f"slice of shape {s.shape}")
        expect(same(s[0], [w] * len(wa)) and same(s[1], wa), f"winds {s[:2]} of slice {w}")
        ref = [pd(w, a, **kw) for a in wa]
        expect(same(s[2], ref), f"slice {w}: {s[2]}, calling gives {ref}")
        if w in c["pd"]["ws"]:
            j = c["pd"]["ws"].index(w)
            stored = {a: c["pd"]["bsp"][i][j] for i, a in enumerate(c["pd"]["wa"])}
            expect(same(s[2], [stored[a] for a in wa]), f"slice {w} differs from the table")
        else:
            cx.nontrivial()


@REG.facet(cases(curves()), quick=800, rule=RULE + "always")
def curve_slices(c, cx):
    pd = pds.build(c["pd"])
    note(c, cx)
    cx.nontrivial()
    cx.label("radians" if c["pd"]["radians"] else "degrees")
    kw = {} if c["res"] is None else {"wa_resolution": c["res"]}
    n = c["res"] or 100
    labels, slices = slices_of(pd, c, **kw)
    unit = math.pi / 180 if c["pd"]["radians"] else 1.0
    for w, s in zip(labels, slices):
        expect(s.shape == (3, n), f"slice of shape {s.shape}, resolution {n}")
        expect(same(s[0], [w] * n), f"wind speeds {s[0]} of slice {w}")
        expect(
            np.allclose(s[1], [360.0 * k / (n - 1) for k in range(n)], atol=1e-9),
            f"angles {s[1]}",
        )
        agree(pd, s.T[:: max(1, n // 8)], unit, "slice")


def agree(pd, rows, unit, what):
    for w, a, b in rows:
        v = float(pd(float(w), float(a) * unit))
        if not np.isfinite(v):
            expect(not np.isfinite(b), f"{what} at ({w}, {a}): {b}, call {v}")
            continue
        # a full turn may be evaluated at either end by rounding
        alt = v
        if min(a, 360 - a) < 1e-6:
            ends = [float(pd.curve(w, e, *pd.parameters)) for e in (0.0, 360 * unit)]
            alt = min(ends, key=lambda e: abs(e - b) if np.isfinite(e) else 1e300)
        ok = min(abs(b - v), abs(b - alt)) <= 1e-6 * (1 + abs(v))
        expect(ok, f"{what} says {b} at ({w}, {a}), the diagram {v}")


@REG.facet(curves(), quick=60, rule="default points and slices of generated curves; non-trivial: always")
def curve_defaults(c, cx):
    pd = pds.build(c)
    cx.nontrivial()
    unit = math.pi / 180 if c["radians"] else 1.0
    p = np.asarray(pd.default_points, float)
    expect(p.ndim == 2 and p.shape[1] == 3 and len(p) > 0, f"points {p.shape}")
    expect(np.all((p[:, 1] >= 0) & (p[:, 1] <= 360)) and p[:, 1].max() > 7, "angles are not degrees")
    agree(pd, p[:: max(1, len(p) // 40)], unit, "default point")


@REG.facet(cases(clouds()), quick=500, rule=RULE + "interpolated slices")
def cloud_slices(c, cx):
    pd = pds.build(c["pd"])
    note(c, cx)
    if c["interp"] == "default":
        cx.label("plain")
        labels, slices = slices_of(pd, c)
        for w, s in zip(labels, slices):
            expect(s.ndim == 2 and s.shape[0] == 3, f"slice of shape {s.shape}")
            for col in s.T:
                expect(
                    abs(col[0] - w) <= 1 and col.tolist() in c["pd"]["pts"],
                    f"{col} is not a point near {w}",
                )
            n = sum(abs(p[0] - w) <= 1 for p in c["pd"]["pts"])
            expect(s.shape[1] == n, f"{s.shape[1]} of {n} points in slice {w}")
        return
    n = c["res"] or 30
    interp = INTERP[c["interp"]]()
    wants = expected_labels(pd, c["ws"], c["n"])
    for w in wants:
        for k in range(n):
            a = 360.0 * k / (n - 1)
            if min(((w - p[0]) / 40) ** 2 + (((a % 360) - p[1]) / 360) ** 2 for p in c["pd"]["pts"]) > 0.9:
                return  # nothing to interpolate from
    cx.nontrivial()
    labels, slices = slices_of(pd, c, wa_resolution=n, interpolator=interp)
    for w, s in zip(labels, slices):
        expect(s.shape == (3, n), f"slice of shape {s.shape}, resolution {n}")
        expect(same(s[0], [w] * n), f"wind speeds {s[0]} of slice {w}")
        expect(
            np.allclose(s[1], [360.0 * k / (n - 1) for k in range(n)], atol=1e-9),
            f"angles {s[1]}",
        )
        ref = [pd(w, a, interp) for a in s[1].tolist()]
        expect(np.allclose(s[2], ref, rtol=1e-9, atol=1e-12), f"slice {w}: {s[2]}, calling gives {ref}")


@st.composite
def point_queries(draw):
    pd = draw(st.one_of(tables(), curves(), clouds(), clouds().flatmap(lambda c: tables().map(lambda t: {"kind": "multi", "pds": [t, c], "sails": None}))))
    form = draw(st.sampled_from(["rows", "columns", "pair", "pair lists"]))
    n = draw(st.integers(1, 5))
    if form == "columns":
        n = max(n, 3)
    winds = [
        [draw(gen.nice(0.25, 30)), draw(gen.grid(0, 359))] for _ in range(n)
    ]
    m = draw(st.integers(1, 4))
    return {
        "pd": pd,
        "form": form,
        "winds": winds,
        "second": [draw(gen.grid(0, 359)) for _ in range(m)],
    }


@REG.facet(
    point_queries(),
    quick=1200,
    rule="point queries as (n, 2), (2, n) arrays and pairs of resolutions on"
    " all four kinds; non-trivial: more than one wind",
)
def point_query(c, cx):
    pd = pds.build(c["pd"])
    cx.label(c["pd"]["kind"], c["form"])
    if c["form"] == "rows":
        want = c["winds"]
        arg = np.array(want)
    elif c["form"] == "columns":
        want = c["winds"]
        arg = np.array(want).T
    else:
        a, b = [w[0] for w in c["winds"]], c["second"]
        arg = (a, b) if c["form"] == "pair lists" else (np.array(a), np.array(b))
        want = [[x, y] for y in b for x in a]

    def pts_of(d):
        if d["kind"] == "table":
            return [(w, a) for w in d["ws"] for a in d["wa"]]
        if d["kind"] == "cloud":
            return [(p[0], p[1]) for p in d["pts"]]
        return None

    for d in c["pd"].get("pds", [c["pd"]]):
        ps = pts_of(d)
        for w, a in want:
            if ps and min(((w - x) / 40) ** 2 + ((a - y) / 360) ** 2 for x, y in ps) > 0.9:
                return
    cx.nontrivial(len(want) > 1)
    got = np.asarray(pd.get_points(arg), float)
    expect(got.shape == (len(want), 3), f"{got.shape} for {len(want)} winds")
    if c["form"] in ("rows", "columns"):
        expect(same(got[:, :2], want), f"winds {got[:, :2]}, asked {want}")
    else:
        expect(
            sorted(map(tuple, got[:, :2].tolist())) == sorted(map(tuple, want)),
            f"winds {got[:, :2]}, asked all combinations {want}",
        )
    for w, a, b in got.tolist():
        v = float(pd(w, a))
        expect(
            b == v or (not np.isfinite(v) and not np.isfinite(b)) or abs(b - v) <= 1e-9 * (1 + abs(v)),
            f"point ({w}, {a}) has {b}, the diagram says {v}",
        )


@REG.facet(
    st.one_of(tables(), curves(), clouds()),
    quick=150,
    rule="requests that are not wind speeds; non-trivial: always",
)
def bad_requests(c, cx):
    cx.nontrivial()
    pd = pds.build(c)
    for bad in ("abc", ["a", "b"], [1, "x"], object(), [None], [[1, 2]]):
        must_raise(f"get_slices({bad!r})", lambda: pd.get_slices(bad), TypeError)
    for n in (0, -1, -3):
        must_raise(f"n_steps={n}", lambda: pd.get_slices([5, 10], n_steps=n), ValueError)
    for bad in ("abc", [1, 2], 5, {1: 2}):
        must_raise(f"get_points({bad!r})", lambda: pd.get_points(bad), TypeError)
    must_raise("(3, 3) winds", lambda: pd.get_points(np.ones((3, 3))), ValueError)
    must_raise("triple", lambda: pd.get_points(([1], [2], [3])), ValueError)


# ---- large ----
def big_pd(r, n):
    k = r.randrange(3)
    if k == 0:
        c = r.table(n, wa=(0, 359.9), ws=(0, 40))
        c["wa"] = r.uniq(len(c["wa"]), lambda: r.grid(0, 359.9))
        return dict(c, kind="table", bsp=c["bsp"][: len(c["wa"])])
    if k == 1:
        f = r.choice(sorted(NPARAMS))
        return {"kind": "curve", "f": f, "params": [r.num(-1, 1) for _ in range(NPARAMS[f][0])], "radians": r.random() < 0.5}
    return {"kind": "cloud", "pts": [[r.num(0.25, 40), r.grid(0, 359.9), r.num(0, 20)] for _ in range(n)]}


def big_slices(kind):
    def expand(r, n):
        pd = big_pd(r, n)
        while pd["kind"] != kind:
            pd = big_pd(r, n)
        m = r.choice([1, 3, min(n, 40)]) if kind != "curve" else n
        return {
            "pd": pd,
            "ws": r.choice([["none", None], [r.choice(["list", "array", "tuple"]), [r.num(0.25, 30) for _ in range(m)]]]),
            "n": r.choice([None, None, 1, 12]),
            "res": r.choice([None, 7, 61, 200]),
            "interp": r.choice(["default", "idw", "mean"]),
        }
    return expand


def big_points(r, n):
    pd = r.choice([big_pd(r, 9), big_pd(r, n)])
    if r.random() < 0.2:
        pd = {"kind": "multi", "pds": [dict(r.table(4), kind="table"), big_pd(r, 9), {"kind": "cloud", "pts": r.points(9)}], "sails": None}
        pd["pds"] = [d for d in pd["pds"] if d["kind"] != "curve"]
    return {
        "pd": pd,
        "form": r.choice(["rows", "columns", "pair", "pair lists"]),
        "winds": [[r.num(0.25, 30), r.grid(0, 359)] for _ in range(min(n, 250))],
        "second": r.uniq(r.choice([1, 2, 5]), lambda: r.grid(0, 359)),
    }


big.large(REG, table_slices, big_slices("table"), hi=100, quick=30, what="wind speeds or angles")
big.large(REG, curve_slices, big_slices("curve"), hi=100, quick=30, what="wind speeds asked for")
big.large(REG, cloud_slices, big_slices("cloud"), hi=600, quick=30, what="points")
big.large(REG, point_query, big_points, hi=300, quick=40, what="points or winds")
