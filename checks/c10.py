"""C10: wind conversion is vector arithmetic and invertible."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import angdiff, finite, frozen, must_raise
from harness.windref import convert, same_wind
from hrosailing import polardiagram as hp
from hrosailing.core.computing import (
    convert_apparent_wind_to_true,
    convert_true_wind_to_apparent,
)

REG = Registry(
    "C10",
    [
        "results are compared as wind vectors relative to the size of the"
        " vectors involved (2e-7: the law of cosines loses half of the digits"
        " where wind and boat speed nearly cancel)",
    ],
)
FUN = {True: convert_true_wind_to_apparent, False: convert_apparent_wind_to_true}

special = st.sampled_from([0.0, 90.0, 180.0, 270.0, 45.0, 135.0, 225.0, 359.0, 360.0])
angle = st.one_of(special, gen.nice(0, 359.9), gen.nice(-720, 1080))


@st.composite
def row(draw):
    ws = draw(gen.nice(0, 40))
    wa = draw(angle)
    k = draw(st.integers(0, 5))
    if k == 0:
        bsp = ws
    elif k == 1:
        bsp = 0.0
    elif k == 2:
        bsp = draw(gen.nice(-10, 20))
    else:
        bsp = draw(gen.nice(0, 20))
    return [ws, wa, bsp]


@st.composite
def cases(draw):
    return {
        "rows": draw(st.lists(row(), min_size=1, max_size=6)),
        "apparent": draw(st.booleans()),
        "form": draw(st.sampled_from(["array", "array", "list", "tuple", "int", "f"])),
    }


def shaped(rows, form):
    if form == "list":
        return [list(r) for r in rows]
    if form == "tuple":
        return tuple(tuple(r) for r in rows)
    if form == "int":
        return np.floor(np.array(rows, float)).astype(int)
    if form == "f":
        return np.asfortranarray(np.array(rows, float))
    return np.array(rows, float)


@REG.facet(
    cases(),
    quick=4000,
    rule="1-6 wind records, angles in and outside [0, 360), boat speed zero,"
    " equal to the wind speed, negative; compared row by row with the vector"
    " sum; non-trivial: a boat speed other than zero off the axis",
)
def vector_sum(c, cx):
    wind = shaped(c["rows"], c["form"])
    rows = [[float(x) for x in r] for r in wind]
    cx.nontrivial(any(b != 0 and w > 0 and a % 180 != 0 for w, a, b in rows))
    cx.label("to apparent" if c["apparent"] else "to true")
    before = frozen(wind)
    out = np.asarray(FUN[c["apparent"]](wind), float)
    expect(frozen(wind) == before, "the given winds were changed")
    expect(out.shape == (len(rows), 3), f"result has shape {out.shape}")
    expect(finite(out), f"{rows} converts to {out.tolist()}")
    for r, o in zip(rows, out.tolist()):
        w, a = convert(*r, c["apparent"])
        expect(o[2] == r[2], f"boat speed {r[2]} became {o[2]}")
        expect(o[0] >= 0 and 0 <= o[1] < 360, f"{r} gives {o}")
        expect(
            same_wind(w, a, o[0], o[1], r[0] + abs(r[2])),
            f"{r} gives wind {o[:2]}, the vector sum is {(w, a)}",
        )
        # away from cancellation the angle itself is well determined
        scale = r[0] + abs(r[2])
        if w > 0.05 * scale and scale > 1e-3:
            expect(abs(o[0] - w) <= 1e-9 * scale, f"wind speed {o[0]} for {w}")
            s = abs(math.sin(math.radians(a)))
            tol = 1e-8 / max(s, 1e-7) + 1e-8
            expect(angdiff(o[1], a) <= tol, f"{r}: angle {o[1]}, expected {a}")
            if s > 1e-5:
                expect((o[1] < 180) == (a < 180), f"{r}: wind comes from the wrong side")
        if len(rows) > 1:
            alone = np.asarray(FUN[c["apparent"]]([r]), float)[0]
            expect(
                np.allclose(alone, o, rtol=1e-9, atol=1e-7),
                f"{r} converts to {o} among others and to {alone.tolist()} alone",
            )


@REG.facet(
    cases(),
    quick=3000,
    rule="there and back in both directions, zero boat speed, whole turns;"
    " non-trivial: boat speed not zero",
)
def inverse(c, cx):
    rows = [r for r in c["rows"] if r[0] >= 0.01]
    if not rows:
        return
    cx.nontrivial(any(r[2] != 0 for r in rows))
    there = np.asarray(FUN[c["apparent"]](np.array(rows)), float)
    back = np.asarray(FUN[not c["apparent"]](there), float)
    for r, m, b in zip(rows, there, back):
        scale = r[0] + abs(r[2])
        if m[0] < 1e-4 * scale:
            continue  # the wind vanishes: nothing can be recovered from it
        expect(b[2] == r[2], "boat speed")
        expect(
            same_wind(r[0], r[1], b[0], b[1], scale, 1e-6),
            f"{r} becomes {m.tolist()} and back {b.tolist()}",
        )
    still = np.array(rows)
    still[:, 2] = 0
    for k in (True, False):
        out = np.asarray(FUN[k](still), float)
        for r, o in zip(still, out):
            expect(
                abs(o[0] - r[0]) <= 1e-12 * r[0] and angdiff(o[1], r[1]) < 3e-6,
                f"without boat speed {r.tolist()} became {o.tolist()}",
            )


@st.composite
def bad_cases(draw):
    return {
        "rows": draw(st.lists(row(), min_size=1, max_size=5)),
        "at": draw(st.integers(0, 4)),
        "neg": draw(st.one_of(gen.nice(0.01, 30), st.sampled_from([1e-12, 1e-6, 1e-3, 0.01, 1e4]))),
        "cols": draw(st.sampled_from([1, 2, 4, 5])),
        "how": draw(st.sampled_from(["negative", "columns", "flat", "cube", "nan", "text"])),
    }


@REG.facet(
    bad_cases(),
    quick=600,
    rule="negative wind speeds at any row, wrong shapes, NaN and infinite"
    " entries, text; non-trivial: always",
)
def rejected(c, cx):
    cx.nontrivial()
    cx.label(c["how"])
    a = np.array(c["rows"], float)
    i = c["at"] % len(a)
    if c["how"] == "negative":
        a[i, 0] = -c["neg"]
    elif c["how"] == "columns":
        a = np.ones((len(a), c["cols"]))
    elif c["how"] == "flat":
        a = a[i]
    elif c["how"] == "cube":
        a = np.stack([a, a])
    elif c["how"] == "nan":
        a[i, c["at"] % 3] = float("nan") if c["at"] % 2 else float("inf")
    else:
        a = [["a", "b", "c"]] * len(a)
    for k in (True, False):
        must_raise(f"{c['how']}: {a}", lambda k=k: FUN[k](a), (TypeError, ValueError))


@REG.facet(
    cases(),
    quick=800,
    rule="clouds built from and extended by apparent winds hold the vector"
    " difference; non-trivial: boat speed not zero",
)
def clouds(c, cx):
    rows = c["rows"]
    cx.nontrivial(any(r[2] != 0 for r in rows))
    pd = hp.PolarDiagramPointcloud(np.array(rows), apparent_wind=True)
    more = [r for r in rows if convert(*r, False)[0] > 1e-3 * (r[0] + abs(r[2])) and r[0] > 1e-2]
    if more:
        pd.add_points(np.array(more), apparent_wind=True)
    got = np.asarray(pd.points, float)
    expect(len(got) == len(rows) + len(more), f"{len(got)} points")
    for r, o in zip(rows + more, got.tolist()):
        w, a = convert(*r, False)
        expect(
            o[2] == r[2] and 0 <= o[1] < 360 and same_wind(w, a, o[0], o[1], r[0] + abs(r[2])),
            f"apparent {r} is stored as {o}, expected {(w, a)}",
        )


# ---- large ----
def big_rows(r, n):
    rows = []
    for _ in range(n):
        ws = r.num(0, 40)
        wa = r.choice([r.num(0, 359.9), r.num(-720, 1080), float(r.choice([0, 90, 180, 270, 45, 359, 360]))])
        rows.append([ws, wa, r.choice([ws, 0.0, r.num(-10, 20), r.num(0, 20), r.num(0, 20)])])
    return {"rows": rows, "apparent": r.random() < 0.5, "form": r.choice(["array", "list", "tuple", "int", "f"])}


def big_bad(r, n):
    return dict(
        rows=big_rows(r, n)["rows"], at=r.randrange(n), neg=r.num(0.01, 30), cols=r.choice([1, 2, 4, 5]),
        how=r.choice(["negative", "columns", "flat", "cube", "nan"]),
    )


big.large(REG, vector_sum, big_rows, hi=3000, quick=60, what="winds")
big.large(REG, inverse, big_rows, hi=3000, quick=60, what="winds")
big.large(REG, rejected, big_bad, hi=1500, quick=30, what="winds")
big.large(REG, clouds, big_rows, hi=600, quick=30, what="winds")
