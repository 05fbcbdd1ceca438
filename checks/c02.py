"""C02: ORC, OpenCPN and array formats."""
from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import must_raise
from hrosailing import polardiagram as hp

REG = Registry(
    "C02",
    [
        "hand-made files use the layouts of the repository's example files;"
        " numbers are written as plain integers or decimals"
    ],
)
FORMATS = ["orc", "opencpn", "array"]
anyfloat = st.one_of(gen.nice(0, 30), gen.nice(-50, 50), gen.wild())


@st.composite
def written(draw):
    c = draw(gen.table(ws=(1, 6), wa=(1, 8), elem=anyfloat))
    c["fmt"] = draw(st.sampled_from(FORMATS))
    return c


@REG.facet(
    written(),
    quick=2500,
    rule="table with arbitrary finite entries written in one of the three"
    " formats and re-read; non-trivial: more than one entry",
)
def roundtrip(c, cx):
    cx.label(c["fmt"])
    cx.nontrivial(len(c["ws"]) * len(c["wa"]) > 1)
    pd = pds.table(c)
    path = f"t.{c['fmt']}.csv"
    pd.to_csv(path, fmt=c["fmt"])
    back = hp.from_csv(path, fmt=c["fmt"])
    expect(isinstance(back, hp.PolarDiagramTable), "not a table")
    expect(
        pds.describe(pd) == pds.describe(back),
        f"{c['fmt']}: data differ after re-reading:\n{pd!r}\n{back!r}",
    )


number = st.one_of(
    st.integers(0, 30).map(str),
    st.integers(0, 3000).map(lambda n: f"{n / 100:.2f}"),
    st.integers(0, 300).map(lambda n: f"{n / 10:.1f}"),
)


@st.composite
def handmade(draw):
    fmt = draw(st.sampled_from(FORMATS))
    ws = draw(gen.uniq(st.integers(0, 400), 1, 6))
    wa = draw(gen.uniq(st.integers(0, 3599), 1, 8))

    def fmt_num(n):
        if n % 10 == 0 and draw(st.booleans()):
            return str(n // 10)
        return f"{n / 10:.1f}"

    cell = st.one_of(number, st.just("")) if fmt == "opencpn" else number
    return {
        "fmt": fmt,
        "ws": [fmt_num(n) for n in ws],
        "wa": [fmt_num(n) for n in wa],
        "deg": draw(st.booleans()) if fmt != "array" else False,
        "cells": draw(gen.matrix(cell, len(wa), len(ws))),
        "eol": draw(st.sampled_from(["\n", "\r\n"])),
    }


def text_of(c):
    sep = {"orc": ";", "opencpn": ",", "array": "\t"}[c["fmt"]]
    head = {"orc": "twa/tws", "opencpn": "TWA\\TWS", "array": "TWA\\TWS"}
    lines = [sep.join([head[c["fmt"]]] + c["ws"])]
    if c["fmt"] == "orc":
        lines.append(sep.join(["0"] * (len(c["ws"]) + 1)))
    for a, row in zip(c["wa"], c["cells"]):
        lines.append(sep.join([a + ("°" if c["deg"] else "")] + row))
    return c["eol"].join(lines) + c["eol"]


@REG.facet(
    handmade(),
    quick=2500,
    rule="file text generated from a random layout (row/column order, empty"
    " OpenCPN cells, degree signs, integer and decimal notation, both line"
    " endings); non-trivial: more than one cell",
)
def handmade_files(c, cx):
    cx.label(c["fmt"])
    cx.nontrivial(len(c["ws"]) * len(c["wa"]) > 1)
    if any(x == "" for r in c["cells"] for x in r):
        cx.label("empty cells")
    if c["deg"]:
        cx.label("degree signs")
    with open("f.csv", "w", encoding="utf-8", newline="") as fh:
        fh.write(text_of(c))
    pd = hp.from_csv("f.csv", fmt=c["fmt"])
    want = {
        (float(w), float(a)): (float(x) if x else 0.0)
        for a, row in zip(c["wa"], c["cells"])
        for w, x in zip(c["ws"], row)
    }
    got = pds.table_dict(pd)
    expect(got == want, f"file says {want}, table holds {got}")
    expect(
        list(pd.wind_speeds) == sorted(float(w) for w in c["ws"]),
        f"wind speeds {pd.wind_speeds} not the file's in order",
    )
    expect(
        list(pd.wind_angles) == sorted(float(a) for a in c["wa"]),
        f"wind angles {pd.wind_angles} not the file's in order",
    )


@REG.facet(
    st.text("abcdehinopr ORC-", max_size=8).filter(
        lambda s: s not in ("hro", "orc", "opencpn", "array")
    ),
    quick=150,
    rule="format names other than the four documented ones",
    examples=["ORC", "csv", "", "openCPN", "hro "],
)
def unknown_format(name, cx):
    cx.nontrivial()
    pd = hp.PolarDiagramTable([1, 2], [10, 20], [[1, 2], [3, 4]])
    must_raise(f"writing format {name!r}", lambda: pd.to_csv("u.csv", fmt=name))
    pd.to_csv("v.csv", fmt="array")
    must_raise(f"reading format {name!r}", lambda: hp.from_csv("v.csv", fmt=name))


# ---- the intern layouts of the example files ----
@st.composite
def intern(draw):
    ws = draw(gen.uniq(st.integers(0, 400), 1, 6))
    sails = []
    for i in range(draw(st.integers(0, 3))):
        wa = draw(gen.uniq(st.integers(0, 3599), 1, 8))
        sails.append(
            {
                "name": draw(st.sampled_from(["Sail {}", "jib {}", "reef, {}"])).format(i),
                "wa": wa,
                "cells": draw(gen.matrix(number, len(wa), len(ws))),
            }
        )
    return {"ws": ws, "sails": sails, "eol": draw(st.sampled_from(["\n", "\r\n"]))}


def _sail_lines(ws, s):
    return (
        ["TWA", ",".join(f"{n / 10:.1f}" for n in s["wa"]), "BSP"]
        + [",".join(row) for row in s["cells"]]
    )


def _sail_dict(ws, s):
    return {
        (n / 10, a / 10): float(x)
        for a, row in zip(s["wa"], s["cells"])
        for n, x in zip(ws, row)
    }


@REG.facet(
    intern(),
    quick=1000,
    rule="file text in the intern layouts of the example files: a table, a"
    " point cloud and all sails in a single file; non-trivial: at least one"
    " sail",
)
def handmade_intern(c, cx):
    cx.nontrivial(bool(c["sails"]))
    cx.label(f"{len(c['sails'])} sails")
    ws = ",".join(f"{n / 10:.1f}" for n in c["ws"])

    def write(name, lines):
        with open(name, "w", encoding="utf-8", newline="") as fh:
            fh.write(c["eol"].join(lines) + c["eol"])

    lines = ["PolarDiagramMultiSails", "TWS", ws]
    for i, s in enumerate(c["sails"]):
        want = _sail_dict(c["ws"], s)
        lines += [s["name"]] + _sail_lines(c["ws"], s)
        write(f"t{i}.csv", ["PolarDiagramTable", "TWS", ws] + _sail_lines(c["ws"], s))
        got = hp.from_csv(f"t{i}.csv")
        expect(pds.table_dict(got) == want, f"table file {want} read as {got!r}")
        write(
            f"c{i}.csv",
            ["PolarDiagramPointcloud", "TWS,TWA,BSP"]
            + [f"{w},{a},{b}" for (w, a), b in want.items()],
        )
        got = hp.from_csv(f"c{i}.csv").points.tolist()
        expect(
            sorted(got) == sorted([w, a, b] for (w, a), b in want.items()),
            f"point cloud file {want} read as {got}",
        )
    write("m.csv", lines)
    pd = hp.from_csv("m.csv")
    expect(
        list(pd.sails) == [s["name"] for s in c["sails"]],
        f"single file with sails {[s['name'] for s in c['sails']]} has {pd.sails}",
    )
    for s, d in zip(c["sails"], pd.diagrams):
        want = _sail_dict(c["ws"], s)
        got = pds.table_dict(d)
        expect(got == want, f"sail {s['name']}: file says {want}, table holds {got}")


# ---- large ----
def big_written(r, n):
    return dict(r.table(n, bsp=lambda: r.num(-50, 50)), fmt=r.choice(FORMATS))


def big_handmade(r, n):
    fmt = r.choice(FORMATS)
    nwa, nws = r.shape(n)

    def fmt_num(k):
        return str(k // 10) if k % 10 == 0 and r.random() < 0.5 else f"{k / 10:.1f}"

    def cell():
        if fmt == "opencpn" and r.random() < 0.3:
            return ""
        return r.choice([str(r.randint(0, 30)), f"{r.randint(0, 3000) / 100:.2f}"])

    ws = r.uniq(nws, lambda: r.randint(0, 4000))
    wa = r.uniq(nwa, lambda: r.randint(0, 3599))
    return {
        "fmt": fmt, "ws": [fmt_num(k) for k in ws], "wa": [fmt_num(k) for k in wa],
        "deg": fmt != "array" and r.random() < 0.5, "cells": [r.times(len(ws), cell) for _ in wa],
        "eol": r.choice(["\n", "\r\n"]),
    }


big.large(REG, roundtrip, big_written, hi=1200, quick=40, what="wind speeds or angles")
big.large(REG, handmade_files, big_handmade, hi=1200, quick=40, what="wind speeds or angles")
