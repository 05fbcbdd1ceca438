"""C30: quality reports measure the diagram against the test data."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import close, frozen
from hrosailing import polardiagram as hp
from hrosailing.pipeline import quality_assurance as qa

REG = Registry(
    "C30",
    [
        "the diagram has a value at every wind the report asks for",
        "at least one test point; boat speeds of the diagram are not negative;"
        " wind speeds above 0; winds that are not halfway between two integers",
        "the zero values are compared with the whole range of wind speeds up"
        " to the steepness of the diagram (documented is the range, not which"
        " wind speeds are tried)",
    ],
)


def off(lo, hi):
    """eighths that are not halfway between integers"""
    return st.integers(lo * 8, hi * 8).filter(lambda k: k % 8 != 4).map(lambda k: k / 8)


def tent(ws, wa, a, b, c):
    """a curve with a boat speed of a + b |ws - c| against the wind"""
    return a + b * np.abs(ws - c) + (1 - np.cos(wa)) * ws / 4


def tent_deg(ws, wa, a, b, c):
    return tent(ws, np.deg2rad(wa), a, b, c)


def anchored(draw, t):
    """the table with some wind close to every wind"""
    if 16.0 not in t["ws"]:
        t = {"ws": t["ws"] + [16.0], "wa": t["wa"], "bsp": [r + [draw(gen.nice(0, 20))] for r in t["bsp"]]}
    if 180.0 not in t["wa"]:
        t = {"ws": t["ws"], "wa": t["wa"] + [180.0], "bsp": t["bsp"] + [[draw(gen.nice(0, 20)) for _ in t["ws"]]]}
    return t


@st.composite
def diagrams(draw):
    kind = draw(st.sampled_from(["table", "cloud", "curve", "curve", "multi"]))
    if kind == "table":
        t = draw(gen.table(ws=(1, 4), wa=(1, 6), dyadic=True))
        return dict(anchored(draw, t), kind=kind)
    if kind == "cloud":
        pts = draw(gen.points(1, 8, ws_low=0.25, dyadic=True))
        # some point close to every wind
        return {"kind": kind, "pts": pts + [[16.0, 180.0, draw(gen.nice(0, 20))]]}
    if kind == "curve":
        return {
            "kind": kind,
            "p": [draw(gen.grid(0, 5, 4)), draw(gen.grid(0, 2, 4)), draw(gen.grid(0, 20, 4))],
            "radians": draw(st.booleans()),
        }
    ws = draw(gen.speeds(1, 3, low=0.25))
    out = []
    for _ in range(draw(st.integers(1, 3))):
        wa = draw(gen.angles(1, 4, dyadic=True))
        t = {"ws": ws, "wa": wa, "bsp": draw(gen.matrix(gen.nice(0, 20), len(wa), len(ws)))}
        out.append(anchored(draw, t))
    return {"kind": kind, "pds": out}


@st.composite
def cases(draw):
    pd = draw(diagrams())
    n = draw(st.integers(1, 20))
    scale = draw(st.sampled_from([1, 1, 1, 64]))
    low = draw(st.sampled_from([0, 0, 0, -8, -64]))
    cells = [[draw(off(1, 30)), draw(off(0, 359))] for _ in range(draw(st.integers(1, 6)))]
    pts = []
    for _ in range(n):
        if draw(st.booleans()):
            # close to another point
            c = draw(st.sampled_from(cells))
            ws, wa = c[0] + draw(gen.grid(-0.25, 0.25, 8)), c[1] + draw(gen.grid(-0.25, 0.25, 8))
            if (ws * 8) % 8 == 4 or (wa * 8) % 8 == 4 or wa < 0:
                ws, wa = c
        else:
            ws, wa = draw(off(1, 30)), draw(off(0, 359))
        if draw(st.integers(0, 9)) == 0:
            # about the full circle
            ws, wa = draw(st.sampled_from([[k, a] for k in (5.0, 6.0) for a in (0.0, 0.25, 359.625, 359.75)]))
        pts.append([ws, wa, draw(gen.nice(0, 20)) * scale + low])
    return {
        "pd": pd,
        "pts": pts,
        "exact": draw(st.sampled_from([0, 0, 1, 2])),
        "order": draw(st.permutations(range(n))),
        "form": draw(st.sampled_from(["array", "array", "list", "tuples"])),
    }


def build(c):
    if c["kind"] == "curve":
        return hp.PolarDiagramCurve(tent if c["radians"] else tent_deg, *c["p"], radians=c["radians"])
    if c["kind"] == "multi":
        return hp.PolarDiagramMultiSails([pds.table(t) for t in c["pds"]])
    return pds.build(c)


def speed(c, pd, ws, wa):
    if c["kind"] == "curve":
        return float(tent(ws, math.radians(wa), *c["p"]))
    return float(pd(ws, wa))


def data_of(c, pts):
    if c["form"] == "array":
        return np.array(pts)
    return [tuple(p) if c["form"] == "tuples" else list(p) for p in pts]


def prepared(c):
    """-> diagram, test points, differences; some or all points exact"""
    pd = build(c["pd"])
    pts, diffs = [], []
    for k, (ws, wa, bsp) in enumerate(c["pts"]):
        v = speed(c["pd"], pd, ws, wa)
        if c["exact"] == 2 or (c["exact"] == 1 and k % 2):
            bsp = v
        pts.append([ws, wa, bsp])
        diffs.append(abs(bsp - v))
    return pd, pts, diffs


def expected(diffs):
    n = len(diffs)
    return {
        "max_error": max(diffs),
        "min_error": min(diffs),
        "average_error": math.fsum(diffs) / n,
        "average_quadratic_error": math.fsum(d * d for d in diffs) / n,
    }


def report(c, checker, pd, pts):
    data = data_of(c, pts)
    before = frozen([data])
    out = checker.check(pd, data)
    expect(frozen([data]) == before, "the test data was changed")
    expect(isinstance(out, dict), "the report is %r", out)
    return out


def compare(out, want):
    for k, v in want.items():
        expect(k in out, "no %s in the report %s", k, sorted(out))
        expect(out[k] is not None and close(out[k], v, 1e-9, 1e-9), "%s is %s, expected %s", k, out[k], v)


def note(c, cx, diffs):
    cx.label(c["pd"]["kind"])
    cx.nontrivial(len(set(diffs)) > 1)


RULE = "tables, clouds, curves in both units, multi-sail diagrams, 1 to 20 test points; non-trivial: two different errors"


@REG.facet(cases(), quick=1200, rule=RULE)
def minimal(c, cx):
    pd, pts, diffs = prepared(c)
    checker = qa.MinimalQualityAssurance()
    out = report(c, checker, pd, pts)
    want = expected(diffs)
    expect(set(out) == set(want), "keys %s", sorted(out))
    compare(out, want)
    if c["exact"] == 2:
        expect(all(abs(v) <= 1e-9 for v in out.values()), "errors %s of a diagram that is exact", out)
    again = report(c, checker, pd, [pts[i] for i in c["order"]])
    compare(again, out)
    note(c, cx, diffs)


def zero_values(c, pd, out):
    """the zero figures against the documented range"""
    if c["kind"] == "curve":
        a, b, top = c["p"]
        f = lambda ws: a + b * abs(ws - top)
        lo, hi = min(f(0), f(20), f(top)), max(f(0), f(20), f(top))
        slack = b * 20 / 15
        grid = [f(20 * (k + 0.5) / 2000) for k in range(2000)]
        mean, square = sum(grid) / 2000, sum(v * v for v in grid) / 2000
        expect(abs(out["average_zero_val"] - mean) <= slack, "average_zero_val %s, around %s", out["average_zero_val"], mean)
        expect(
            abs(out["average_quadratic_zero_val"] - square) <= 2 * slack * hi + 1e-9,
            "average_quadratic_zero_val %s, around %s",
            out["average_quadratic_zero_val"],
            square,
        )
        expect(abs(out["max_zero_val"] - hi) <= slack + 1e-9, "max_zero_val %s, around %s", out["max_zero_val"], hi)
        expect(abs(out["min_zero_val"] - lo) <= slack + 1e-9, "min_zero_val %s, around %s", out["min_zero_val"], lo)
    elif c["kind"] == "multi":
        lo, hi = 0.0, max(v for t in c["pds"] for r in t["bsp"] for v in r)
    elif c["kind"] == "table":
        lo, hi = (g(v for r in c["bsp"] for v in r) for g in (min, max))
    else:
        lo, hi = (g(p[2] for p in c["pts"]) for g in (min, max))
    figures = [out["min_zero_val"], out["average_zero_val"], out["max_zero_val"]]
    expect(all(f is not None for f in figures), "zero values %s", figures)
    a, m, b = figures
    expect(lo - 1e-9 <= a <= m + 1e-9 and m <= b + 1e-9 and b <= hi + 1e-9, "zero values %s outside of %s", figures, (lo, hi))
    q = out["average_quadratic_zero_val"]
    expect(m * m - 1e-9 <= q <= b * b + 1e-9, "average_quadratic_zero_val %s for %s", q, figures)


@REG.facet(cases(), quick=500, rule=RULE)
def conforming(c, cx):
    pd, pts, diffs = prepared(c)
    checker = qa.ComformingQualityAssurance()
    out = report(c, checker, pd, pts)
    want = expected(diffs)
    cells = {}
    for ws, wa, bsp in pts:
        cells.setdefault((math.floor(ws + 0.5), math.floor(wa + 0.5)), []).append(bsp)
    spread = [max(b) - min(b) for b in cells.values()]
    want["test_covering"] = len(cells)
    want["local_test_data_difference"] = max(spread)
    want["average_local_test_data_difference"] = math.fsum(spread) / len(spread)
    compare(out, want)
    zero_values(c["pd"], pd, out)
    again = report(c, checker, pd, [pts[i] for i in c["order"]])
    compare(again, out)
    cx.label("spread" if any(spread) else "no spread")
    note(c, cx, diffs)


# ---- large ----
def big_off(r, lo, hi):
    while True:
        k = r.randint(lo * 8, hi * 8)
        if k % 8 != 4:
            return k / 8


def big_diagram(r, n):
    kind = r.choice(["table", "cloud", "curve", "multi"])
    if kind == "curve":
        return {"kind": kind, "p": [r.grid(0, 5, 4), r.grid(0, 2, 4), r.grid(0, 20, 4)], "radians": r.random() < 0.5}
    if kind == "cloud":
        return {"kind": kind, "pts": [[r.grid(0.25, 40), r.grid(0, 359), r.num(0, 20)] for _ in range(n)] + [[16.0, 180.0, r.num(0, 20)]]}

    def tab(ws=None):
        t = r.table(n, bsp=lambda: r.num(0, 20))
        t["ws"] = ws or r.uniq(len(t["ws"]), lambda: r.grid(0.25, 40))
        t["wa"] = r.uniq(len(t["wa"]), lambda: r.grid(0, 359))
        t["bsp"] = [[r.num(0, 20) for _ in t["ws"]] for _ in t["wa"]]
        if 16.0 not in t["ws"]:
            t = {"ws": t["ws"] + [16.0], "wa": t["wa"], "bsp": [q + [r.num(0, 20)] for q in t["bsp"]]}
        if 180.0 not in t["wa"]:
            t = {"ws": t["ws"], "wa": t["wa"] + [180.0], "bsp": t["bsp"] + [[r.num(0, 20) for _ in t["ws"]]]}
        return t

    if kind == "table":
        return dict(tab(), kind=kind)
    first = tab()
    return {"kind": kind, "pds": [first] + [tab(list(first["ws"])) for _ in range(r.randint(0, 2))]}


def big_case(r, n):
    cells = [[float(r.randint(1, 30)), float(r.randint(0, 359))] for _ in range(max(3, n // 6))]
    pts = []
    for _ in range(n):
        ws, wa = big_off(r, 1, 30), big_off(r, 0, 359)
        if r.random() < 0.5:
            c = r.choice(cells)
            ws, wa = c[0] + r.randint(-2, 2) / 8, abs(c[1] + r.randint(-2, 2) / 8)
        pts.append([ws, wa, r.num(0, 20)])
    order = list(range(n))
    r.shuffle(order)
    return {
        "pd": big_diagram(r, r.choice([4, 20])), "pts": pts, "exact": r.choice([0, 0, 1, 2]), "order": order,
        "form": r.choice(["array", "list", "tuples"]),
    }


big.large(REG, minimal, big_case, hi=400, quick=30, what="test points")
big.large(REG, conforming, big_case, hi=400, quick=25, what="test points")
