"""C37: the printed form of a polar diagram shows its data."""
import datetime as dt
import re

import numpy as np
from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from hrosailing import polardiagram as hp
from hrosailing import processing as hproc
from hrosailing.core.data import Data
from hrosailing.processing.interpolator import ShepardInterpolator

REG = Registry("C37", ["numbers below 1000, so that the columns stay apart"])

# half a unit of the last printed digit
WIND, SPEED = 0.05 + 1e-9, 0.005 + 1e-9


def near(text, value, tol):
    expect(re.fullmatch(r"-?\d+\.\d+", text), "not a number", text)
    return abs(float(text) - float(value)) <= tol


def check_table(text, c):
    """`text` shows the table `c`, with the middle columns left out if there are many."""
    pd = pds.table_dict(pds.table(c))
    ws, wa = sorted({k[0] for k in pd}), sorted({k[1] for k in pd})
    long = len(ws) > 15
    shown = ws[:5] + ws[-5:] if long else ws
    lines = text.split("\n")
    expect(lines[-1] == "", "text after the last line", lines[-1])
    lines = lines[:-1]
    expect(len(lines) == len(wa) + 2, "one line per wind angle below a head of two", len(lines), len(wa))
    expect(re.fullmatch(r"[+ ]*", lines[1]), "rule below the head", lines[1])
    head = lines[0].split()
    expect(head[:3] == ["TWA", "/", "TWS"], "head", lines[0])
    rows = [(head[3:], shown, WIND)]
    for a, line in zip(wa, lines[2:]):
        cells = line.split()
        expect(cells and near(cells[0], a, WIND), "wind angle of a line", line, a)
        rows.append((cells[1:], [pd[(s, a)] for s in shown], SPEED))
    for cells, want, tol in rows:
        if long:
            expect(cells[5:6] == ["..."], "mark for the columns left out", cells)
            cells = cells[:5] + cells[6:]
        expect(len(cells) == len(want), "number of columns", cells, want)
        for cell, value in zip(cells, want):
            expect(near(cell, value, tol), "wrong value printed", cell, value, cells, want)
    return long


@st.composite
def tables(draw, wide=True):
    if wide and draw(st.booleans()):
        n = draw(st.integers(14, 24))
        return {
            "ws": draw(gen.uniq(gen.grid(0, 60, 4), n, n)),
            "wa": draw(gen.angles(1, 4)),
            "bsp": None,
            "step": draw(gen.grid(0.01, 1, 256)),
        }
    return draw(gen.table())


def filled(c):
    """Wide tables get different values everywhere."""
    if c.get("bsp") is not None:
        return c
    n, m = len(c["wa"]), len(c["ws"])
    return dict(c, bsp=[[round(c["step"] * (i * m + j), 3) for j in range(m)] for i in range(n)])


@REG.facet(tables(), quick=250, rule="a table of several different boat speeds")
def test_table(c, cx):
    """Tables"""
    c = filled(c)
    long = check_table(str(pds.table(c)), c)
    cx.label("shortened" if long else "complete")
    cx.nontrivial(len({x for r in c["bsp"] for x in r}) > 1)


def check_cloud(text, pts):
    lines = text.split("\n")
    expect(lines[0].split() == ["TWS", "TWA", "BSP"], "head", lines[0])
    expect(re.fullmatch(r"[+ ]*", lines[1]), "rule below the head", lines[1])
    expect(lines[-1] == "", "text after the last line", lines[-1])
    lines = lines[2:-1]
    pts = np.asarray(pds.cloud(pts).points)
    expect(len(lines) == len(pts), "one line per point", len(lines), len(pts))
    for line, p in zip(lines, pts):
        cells = line.split()
        expect(len(cells) == 3, "three numbers per point", line)
        for cell, x in zip(cells, p):
            expect(near(cell, x, SPEED), "wrong value printed", line, p)


@REG.facet(gen.points(), quick=120, rule="several different points")
def test_cloud(c, cx):
    """Point clouds"""
    check_cloud(str(pds.cloud(c)), c)
    cx.nontrivial(len({tuple(p) for p in c}) > 1)


@st.composite
def curves(draw):
    return {
        "kind": "curve",
        "f": "ws_s_wa_gauss",
        "params": [draw(gen.grid(0.5, 9)) for _ in range(9)],
        "radians": draw(st.booleans()),
    }


def check_curve(text, c):
    expect(c["f"] in text, "name of the function", text)
    expect(f"radians={c['radians']}" in text, "unit", text)
    shown = [float(x) for x in re.findall(r"(?<![\w.])-?\d+(?:\.\d*)?(?![\w.])", text.replace(c["f"], ""))]
    expect(shown == c["params"], "parameters", text, c["params"])


@REG.facet(curves(), quick=60, rule="different parameters")
def test_curve(c, cx):
    """Curves name their function, parameters and unit"""
    for text in (str(pds.curve(c)), repr(pds.curve(c))):
        check_curve(text, c)
    cx.nontrivial(len(set(c["params"])) > 1)


@st.composite
def multis(draw):
    n = draw(st.integers(1, 3))
    out = []
    for _ in range(n):
        k = draw(st.sampled_from(["table", "cloud", "curve"]))
        if k == "table":
            out.append(dict(draw(gen.table()), kind=k))
        elif k == "cloud":
            out.append({"kind": k, "pts": draw(gen.points(1, 5))})
        else:
            c = draw(curves())
            out.append(dict(c, radians=False))
    names = draw(st.one_of(st.none(), gen.uniq(st.sampled_from(["Jib", "Main", "Spi", "Code 0"]), n, n)))
    return {"kind": "multi", "pds": out, "sails": names}


@REG.facet(multis(), quick=100, rule="at least two sails")
def test_multi(c, cx):
    """Multi-sail diagrams print every sail's diagram below its name"""
    pd = pds.build(c)
    names = c["sails"] or [f"Sail {i}" for i in range(len(c["pds"]))]
    expect([str(s) for s in pd.sails] == names, "sails", pd.sails)
    text = str(pd)
    for name, d in zip(names, c["pds"]):
        expect(text.startswith(name + "\n"), "name of a sail expected", name, text)
        text = text[len(name) + 1 :]
        part, gap, text = text.partition("\n\n\n" if d["kind"] != "curve" else "\n\n")
        expect(gap, "no gap below a diagram", text)
        if d["kind"] == "table":
            check_table(part + "\n", d)
        elif d["kind"] == "cloud":
            check_cloud(part + "\n", d["pts"])
        else:
            check_curve(part, d)
    expect(text == "", "text after the last diagram", text)
    cx.nontrivial(len(names) > 1)


@REG.facet(tables(wide=False), quick=60, rule="a table of several different boat speeds")
def test_repr(c, cx):
    """repr shows all numbers of tables and point clouds (numpy's rounding)"""
    pts = [[s, a, b] for a, r in zip(c["wa"], c["bsp"]) for s, b in zip(c["ws"], r)]
    for pd, want in (
        (pds.table(c), lambda p: np.concatenate([p.wind_speeds, p.wind_angles, np.ravel(p.boat_speeds)])),
        (hp.PolarDiagramPointcloud(pts), lambda p: np.ravel(p.points)),
    ):
        text = repr(pd)
        expect(text.startswith(type(pd).__name__ + "("), "class", text)
        shown = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e[+-]?\d+)?", text)]
        want = want(pd)
        expect(len(shown) == len(want), "number of values", text, want)
        for x, y in zip(shown, want):
            expect(abs(x - y) <= 1e-6 * max(1, abs(y)), "wrong value", text, x, y)
    cx.nontrivial(len({x for r in c["bsp"] for x in r}) > 1)


def in_order(text, parts, what):
    """`parts` follow each other in `text`, as whole words; the remaining text"""
    for p in parts:
        m = re.search(r"(?<![\w.\-])" + re.escape(p) + r"(?![\w.])", text)
        expect(m, f"{what}: {p!r} is not shown (or not in its place)", text)
        text = text[m.end():]
    return text


ENTRY = {
    "float": lambda n: n / 4 + 0.0, "int": lambda n: n, "bool": lambda n: n % 2 == 0,
    "str": lambda n: f"w{n}", "date": lambda n: dt.date(2020, 1, 1) + dt.timedelta(days=n),
}


@st.composite
def data_tables(draw):
    names = draw(st.lists(st.sampled_from(["TWS", "TWA", "BSP", "lat", "sail", "day", "heel"]), max_size=5, unique=True))
    n = draw(st.one_of(st.integers(0, 8), st.sampled_from([9, 10, 11, 12, 30])))
    value = st.one_of(st.none(), st.integers(0, 400), st.integers(0, 400), st.integers(0, 400))
    return {k: [draw(st.sampled_from(sorted(ENTRY))), draw(st.lists(value, min_size=n, max_size=n))] for k in names}


@REG.facet(data_tables(), quick=300, rule="several columns with entries")
def test_data(c, cx):
    """Measurement tables name each column and its type and show its entries, of long columns the first and last five"""
    cols = {k: [None if n is None else ENTRY[kind](n) for n in ns] for k, (kind, ns) in c.items()}
    d = Data.from_dict(cols)
    text = str(d)
    for k, col in cols.items():
        types = {type(v) for v in col if v is not None}
        text = in_order(text, [k], "columns")
        if types:
            expect(next(iter(types)).__name__ in text.split(":")[0], "type of a column", text, types)
        text = text.split(":", 1)[1]
        shown = [str(v) if len(col) >= 10 else repr(v) for v in (col if len(col) < 10 else col[:5] + col[-5:])]
        text = in_order(text, shown, f"column {k}")
        head = text.split("Data field")[0] if k != list(cols)[-1] else text
        expect(not re.search(r"\w", head), "more entries than the column has", k, head)
    expect(not re.search(r"\w", text), "text after the last column", text)
    cx.nontrivial(len(cols) > 1 and any(v is not None for col in cols.values() for v in col))
    cx.label(*(f"{'ten or more' if len(col) >= 10 else 'few'} entries" for col in cols.values()))


def my_norm(v):
    return np.linalg.norm(v, axis=1)


@st.composite
def components(draw):
    kind = draw(st.sampled_from([
        "Ball", "ScalingBall", "Cuboid", "Polytope", "IDWInterpolator", "ArithmeticMeanInterpolator",
        "ShepardInterpolator", "CylindricMeanWeigher", "CylindricMemberWeigher", "QuantileFilter", "BoundFilter",
    ]))
    a, b = sorted(draw(gen.uniq(gen.grid(0.5, 90), 2, 2)))
    return {"kind": kind, "a": a, "b": b, "norm": draw(st.booleans()), "n": draw(st.integers(1, 50))}


@REG.facet(components(), quick=300, rule="always")
def test_components(c, cx):
    """Components with parameters print their class, their parameters and the name of the norm they are given"""
    a, b, n = c["a"], c["b"], c["n"]
    kw = {"norm": my_norm} if c["norm"] else {}
    make, shown = {
        "Ball": (lambda: hproc.Ball(radius=a, **kw), [a]),
        "ScalingBall": (lambda: hproc.ScalingBall(n, **kw), [n]),
        "Cuboid": (lambda: hproc.Cuboid(dimensions=(a, b), **kw), [a, b]),
        "Polytope": (lambda: hproc.Polytope([[a, b]], [b]), [a, b]),
        "IDWInterpolator": (lambda: hproc.IDWInterpolator(n, **kw), [n]),
        "ArithmeticMeanInterpolator": (lambda: hproc.ArithmeticMeanInterpolator(a, params=(b,), **kw), [a, b]),
        "ShepardInterpolator": (lambda: ShepardInterpolator(hproc.Ball(), tol=a, slope=b, **kw), [a, b]),
        "CylindricMeanWeigher": (lambda: hproc.CylindricMeanWeigher(a, **kw), [a]),
        "CylindricMemberWeigher": (lambda: hproc.CylindricMemberWeigher(a, b, **kw), [a, b]),
        "QuantileFilter": (lambda: hproc.QuantileFilter(a), [a]),
        "BoundFilter": (lambda: hproc.BoundFilter(a, b), [a, b]),
    }[c["kind"]]
    obj = make()
    cx.nontrivial()
    cx.label(c["kind"])
    for text in (repr(obj), str(obj)):
        expect(text.startswith(c["kind"]), "class", text)
        numbers = [float(x) for x in re.findall(r"\d+\.?\d*(?:e[+-]?\d+)?", text)]
        for x in shown:
            expect(x in numbers, f"parameter {x} is not shown", text)
        if c["norm"] and c["kind"] not in ("Polytope", "QuantileFilter", "BoundFilter"):
            expect("my_norm" in text, "name of the norm", text)


# ---- large ----
def big_table(r, n):
    k, m = r.shape(n, cells=3000)
    return {
        "ws": r.uniq(k, lambda: r.grid(0, 60)), "wa": sorted(r.uniq(m, lambda: r.num(0, 359.9))),
        "bsp": None, "step": 1 / r.choice([4, 64, 256]),
    }


def big_cloud(r, n):
    return r.points(n)


def big_multi(r, n):
    out = []
    for _ in range(r.choice([2, min(n, 30)])):
        if r.random() < 0.5:
            t = filled(big_table(r, min(n, 40)))
            out.append(dict(t, ws=sorted(t["ws"]), kind="table"))
        else:
            out.append({"kind": "cloud", "pts": r.points(r.randint(1, n))})
    return {"kind": "multi", "pds": out, "sails": r.choice([None, [f"Sail {i}-{len(out)}" for i in range(len(out))]])}


big.large(REG, test_table, big_table, lo=12, hi=300, quick=40, what="winds")
big.large(REG, test_cloud, big_cloud, lo=12, hi=2000, quick=30, what="points")
big.large(REG, test_multi, big_multi, lo=12, hi=200, quick=15, what="points or sails")
