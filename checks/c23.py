"""C23: influence models remove and add exactly their influence."""


import numpy as np
from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import angdiff, finite, frozen, must_raise
from harness.windref import convert, same_wind
from hrosailing.core.data import Data
from hrosailing.models.influencemodel import (
    IdentityInfluenceModel,
    WindAngleCorrectingInfluenceModel,
)
from hrosailing.polardiagram import PolarDiagramCurve

REG = Registry(
    "C23",
    [
        "misalignments are estimated from records symmetric about the true"
        " zero that leave a gap there wider than the interval size and fill"
        " the remaining circle; accuracy 0.25 degrees",
    ],
)


def bell_rad(ws, wa, a):
    return bell(ws, np.rad2deg(wa), a)


def bell(ws, wa, a):
    return a * ws * np.sin(np.deg2rad(wa) / 2) ** 2 + wa / 1000


@st.composite
def records(draw, lo=1, hi=8):
    n = draw(st.integers(lo, hi))
    apparent = draw(st.booleans())
    keys = ["AWS", "AWA"] if apparent else ["TWS", "TWA"]
    speeds = draw(st.sampled_from([["BSP"], ["SOG"], ["BSP", "SOG"], ["SOG", "BSP"]]))
    cols = {keys[0]: gen.nice(0.5, 30), keys[1]: gen.nice(0, 359.5)}
    if not apparent and draw(st.booleans()):
        cols.update({"AWS": gen.nice(1, 30), "AWA": gen.nice(0, 359)})
    for s in speeds:
        cols[s] = gen.nice(0, 15)
    if draw(st.booleans()):
        cols["heel"] = gen.nice(-20, 20)
    names = list(draw(st.permutations(sorted(cols))))
    num = draw(st.sampled_from([float, float, round]))
    return {
        "cols": {k: [num(draw(cols[k])) for _ in range(n)] for k in names},
        "form": draw(st.sampled_from(["data", "dict", "arrays"])),
        "shift": draw(st.one_of(st.integers(-20, 20), gen.grid(-400, 400))),
    }


def shaped(cols, form):
    if form == "data":
        return Data.from_dict({k: list(v) for k, v in cols.items()})
    if form == "arrays":
        return {k: np.array(v) for k, v in cols.items()}
    return {k: list(v) for k, v in cols.items()}


def snap(d):
    return frozen({k: d[k] for k in d.keys()})


def true_wind(cols):
    speed = cols["BSP" if "BSP" in cols else "SOG"]
    if "TWS" in cols and "TWA" in cols:
        return [list(r) for r in zip(cols["TWS"], cols["TWA"], speed)], True
    return [
        [*convert(ws, wa, b, False), b] for ws, wa, b in zip(cols["AWS"], cols["AWA"], speed)
    ], False


@REG.facet(
    records(),
    quick=2500,
    rule="1-8 records with true or apparent wind (or both), speed through"
    " water or over ground (or both), further columns in any order, as data,"
    " lists and arrays of floats or whole numbers, corrections beyond a turn; non-trivial: several"
    " records and a correction",
)
def removing(c, cx):
    want, exact = true_wind(c["cols"])
    cx.nontrivial(len(want) > 1 and c["shift"] % 360 != 0)
    cx.label(c["form"], "true wind" if exact else "apparent wind")
    for model, shift in (
        (IdentityInfluenceModel(), 0),
        (WindAngleCorrectingInfluenceModel(wa_shift=c["shift"]), c["shift"]),
        (WindAngleCorrectingInfluenceModel(), 0),
    ):
        d = shaped(c["cols"], c["form"])
        before = snap(d)
        name = f"{type(model).__name__} ({shift})"
        for _ in range(2):
            got = np.asarray(model.remove_influence(d), float)
            expect(got.shape == (len(want), 3), f"{name}: shape {got.shape} for {len(want)} records")
            expect(finite(got), f"{name}: {got}")
            for g, w in zip(got.tolist(), want):
                expect(g[2] == w[2], f"{name}: boat speed {g[2]} for {w[2]}")
                wa = w[1] - shift
                if exact:
                    ok = g[0] == w[0] and angdiff(g[1], wa) < 1e-9
                else:
                    ok = same_wind(g[0], g[1], w[0], wa, w[0] + w[2] + 1)
                expect(ok, f"{name}: wind {g[:2]}, expected {[w[0], wa % 360]}")
            expect(snap(d) == before, f"{name}: the data was changed")
    if exact:
        one = {k: v[0] for k, v in c["cols"].items()}
        got = np.ravel(IdentityInfluenceModel().remove_influence(one)).tolist()
        expect(got == want[0], f"a single record gives {got}, expected {want[0]}")


@st.composite
def adding_cases(draw):
    n = draw(st.integers(1, 6))
    return {
        "pd": draw(st.sampled_from(["curve", "radians", "table"])),
        "a": draw(gen.grid(0.25, 2)),
        "tab": draw(gen.table(ws=(2, 4), wa=(3, 6))),
        "TWS": [draw(gen.grid(0.5, 30)) for _ in range(n)],
        "TWA": [draw(gen.grid(0, 359)) for _ in range(n)],
        "shift": draw(st.one_of(st.integers(-20, 20), gen.grid(-400, 400))),
        "form": draw(st.sampled_from(["data", "dict", "arrays"])),
        "extra": draw(st.booleans()),
    }


@REG.facet(
    adding_cases(),
    quick=1200,
    rule="1-6 influences as data, lists, arrays and single values on curves"
    " and tables; non-trivial: a correction",
)
def adding(c, cx):
    pd = pds.table(c["tab"]) if c["pd"] == "table" else PolarDiagramCurve(bell, c["a"])
    call = pd
    if c["pd"] == "radians":
        pd = PolarDiagramCurve(bell_rad, c["a"], radians=True)
    cx.nontrivial(c["shift"] % 360 != 0)
    cols = {"TWS": c["TWS"], "TWA": c["TWA"]}
    if c["extra"]:
        cols = {"WVHGT": [0.5] * len(c["TWS"]), **cols}
    for model, shift in (
        (IdentityInfluenceModel(), 0),
        (WindAngleCorrectingInfluenceModel(wa_shift=c["shift"]), c["shift"]),
    ):
        d = shaped(cols, c["form"])
        before = snap(d)
        name = f"{type(model).__name__} ({shift})"
        try:
            want = [float(call(ws, (wa + shift) % 360)) for ws, wa in zip(c["TWS"], c["TWA"])]
        except (ValueError, ZeroDivisionError):
            # no entry of the table near the wind
            cx.label("table does not cover the wind")
            continue
        got = np.asarray(model.add_influence(pd, d), float)
        expect(got.shape == (len(want),), f"{name}: {got.shape} speeds for {len(want)} influences")
        for g, w in zip(got, want):
            expect(abs(g - w) <= 1e-9 * (1 + abs(w)), f"{name}: speeds {got.tolist()}, expected {want}")
        expect(snap(d) == before, f"{name}: the influences were changed")
        for ws, wa, w in zip(c["TWS"], c["TWA"], want):
            one = {"TWS": ws, "TWA": wa}
            g = float(model.add_influence(pd, one))
            expect(abs(g - w) <= 1e-9 * (1 + abs(w)), f"{name}: a single influence gives {g}, the list {w}")
            expect(one == {"TWS": ws, "TWA": wa}, "the influence was changed")


@st.composite
def fits(draw):
    gap = draw(st.integers(35, 60))
    step = draw(st.sampled_from([8, 11, 14]))
    half = []
    a = float(gap)
    while a < 180:
        half.append([a, draw(st.integers(8, 12)) / 2])
        a += step + draw(st.integers(-2, 2))
    return {
        "half": half,
        "shift": draw(st.one_of(st.integers(-25, 25), st.sampled_from([0, -0.5, 180, 359.5, 90.5]), gen.grid(0, 359))),
        "shift2": draw(st.integers(-25, 25)),
        "interval": draw(st.sampled_from([None, 20, 30])),
        "order": draw(st.integers(0, 5)),
    }


@REG.facet(
    fits(),
    quick=60,
    thorough=800,
    rule="20-40 records symmetric about the planted misalignment, refitted to"
    " another one; non-trivial: the misalignment is not 0",
)
def planted_misalignment(c, cx):
    cx.nontrivial(c["shift"] % 360 != 0)
    if angdiff(c["shift"], 0) < 30:
        cx.label("around zero")

    def data(shift):
        rec = [((s * a + shift) % 360, ws) for a, ws in c["half"] for s in (1, -1)]
        k = c["order"]
        rec = rec[k:] + rec[:k]
        return Data.from_dict({"TWA": [r[0] for r in rec], "TWS": [r[1] for r in rec], "BSP": [1.0] * len(rec)})

    kw = {} if c["interval"] is None else {"interval_size": c["interval"]}
    model = WindAngleCorrectingInfluenceModel(**kw)
    for shift in (c["shift"], c["shift2"]):
        d = data(shift)
        before = snap(d)
        model.fit(d)
        expect(snap(d) == before, "the data was changed")
        est = model.get_latest_statistics()["wa_shift"]
        expect(angdiff(est, shift) < 0.25, f"misalignment estimated as {est}, planted {shift % 360}")
        got = model.remove_influence(d)
        left = min(angdiff(a, 0) for a in got[:, 1].tolist())
        expect(abs(left - c["half"][0][0]) < 0.3, f"the corrected angles leave a gap of {left}")
        for a, b in zip(got[:, 1].tolist(), d["TWA"]):
            expect(angdiff(b - shift, a) < 0.25 and 0 <= a < 360, f"{b} was corrected to {a}")
        pd = PolarDiagramCurve(bell, 1.0)
        g = float(model.add_influence(pd, {"TWS": 8.0, "TWA": 70.0}))
        expect(abs(g - bell(8.0, (70 + est) % 360, 1.0)) < 1e-9, "the estimate is not the one added")
    IdentityInfluenceModel().fit(data(3))


@REG.facet(
    st.sampled_from([["TWS"], ["TWA", "AWS"], ["TWA"], [], ["AWA"], ["AWS"], ["TWS", "AWS"]]),
    quick=7,
    rule="data without complete wind; non-trivial: always",
)
def rejected(c, cx):
    cx.nontrivial()
    cols = {k: [1.0, 2.0] for k in c + ["BSP"]}
    for m in (IdentityInfluenceModel(), WindAngleCorrectingInfluenceModel()):
        must_raise(f"data with {sorted(cols)}", lambda: m.remove_influence(cols), ValueError)


# ---- large ----
def big_records(r, n):
    apparent = r.random() < 0.5
    keys = ["AWS", "AWA"] if apparent else ["TWS", "TWA"]
    cols = {keys[0]: (0.5, 30), keys[1]: (0, 359.5)}
    if not apparent and r.random() < 0.5:
        cols.update({"AWS": (1, 30), "AWA": (0, 359)})
    for s in r.choice([["BSP"], ["SOG"], ["BSP", "SOG"], ["SOG", "BSP"]]):
        cols[s] = (0, 15)
    if r.random() < 0.5:
        cols["heel"] = (-20, 20)
    names = sorted(cols)
    r.shuffle(names)
    return {
        "cols": {k: [r.num(*cols[k]) for _ in range(n)] for k in names},
        "form": r.choice(["data", "dict", "arrays"]), "shift": r.choice([r.randint(-20, 20), r.grid(-400, 400)]),
    }


def big_adding(r, n):
    return {
        "pd": r.choice(["curve", "radians", "table"]), "a": r.grid(0.25, 2),
        "tab": r.table(r.choice([3, min(n, 60)]), sort=True),
        "TWS": [r.grid(0.5, 30) for _ in range(n)], "TWA": [r.grid(0, 359) for _ in range(n)],
        "shift": r.choice([r.randint(-20, 20), r.grid(-400, 400)]), "form": r.choice(["data", "dict", "arrays"]),
        "extra": r.random() < 0.5,
    }


def big_fit(r, n):
    gap = r.randint(35, 60)
    step = (180 - gap) / (n / 2)
    half = [[gap + i * step, r.randint(8, 12) / 2] for i in range(n // 2)]
    return {
        "half": half, "shift": r.choice([r.randint(-25, 25), 180, 359.5, 90.5, r.grid(0, 359)]), "shift2": r.randint(-25, 25),
        "interval": r.choice([None, 20, 30]), "order": r.randrange(n // 2),
    }


big.large(REG, removing, big_records, hi=1000, quick=60, what="records")
big.large(REG, adding, big_adding, hi=120, quick=40, what="influences")
big.large(REG, planted_misalignment, big_fit, lo=50, hi=400, quick=12, what="records")
