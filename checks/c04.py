"""C04: editing a polar table changes exactly the addressed entries."""
import numpy as np
from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import frozen
from hrosailing import polardiagram as hp

REG = Registry(
    "C04",
    [
        "wind speeds and angles of one change are distinct; a block of changes"
        " is given as a matrix (rows wind angles, columns wind speeds), a"
        " single row or column as a vector, as documented"
    ],
)

value = st.one_of(gen.nice(0, 20), gen.wild())
idx = st.integers(0, 50)


@st.composite
def change(draw):
    return [
        "change",
        {
            "ws": draw(st.one_of(st.none(), gen.uniq(idx, 1, 4))),
            "wa": draw(st.one_of(st.none(), gen.uniq(idx, 1, 4))),
            "turn": draw(gen.turn()),
            "scalar": draw(st.booleans()),
            "cont": draw(st.sampled_from(["list", "array", "tuple"])),
            "vals": draw(st.lists(value, min_size=30, max_size=30)),
        },
    ]


op = st.one_of(
    change(),
    change(),
    change(),
    st.tuples(
        st.just("bad"),
        st.fixed_dictionaries(
            {
                "kind": st.sampled_from(
                    ["shape", "shape", "transposed", "flat", "one value", "row for column",
                     "missing", "unknown ws", "unknown wa", "nan", "inf",
                     "negative ws", "empty"]
                ),
                "i": idx,
            }
        ),
    ).map(list),
    st.tuples(
        st.sampled_from(["reload", "scribble", "symmetrize", "copy", "zeros"]),
        st.fixed_dictionaries({"i": idx}),
    ).map(list),
)


@st.composite
def histories(draw):
    c = draw(
        gen.table(ws=(1, 5), wa=(1, 6), elem=value, dyadic=True)
    )
    # angles with all their digits, which lose some of them beyond a turn
    c["digits"] = draw(st.booleans())
    if c["digits"]:
        c["wa"] = draw(gen.uniq(gen.floats(0, 359.9).map(lambda x: x + 0.0), len(c["wa"]), len(c["wa"])))
    c["zero"] = draw(st.integers(0, 3)) == 0
    c["ops"] = draw(st.lists(op, min_size=1, max_size=8))
    return c


def compare(pd, model, when):
    got = pds.table_dict(pd)
    if got != model:
        diff = {
            k: (got.get(k), model.get(k))
            for k in sorted(set(got) | set(model))
            if got.get(k) != model.get(k)
        }
        expect(False, f"{when}: cells (table, expected) differ: {diff}")


@REG.facet(
    histories(),
    quick=3000,
    rule="1-8 operations on a generated table (changes of the whole table,"
    " rows, columns, cells and blocks in caller-chosen order, refused changes,"
    " saving and re-reading, writing into handed-out arrays, symmetrising);"
    " compared with a dictionary after every operation; non-trivial: a change"
    " addressing at least two cells",
)
def edit_history(c, cx):
    if c["zero"]:
        pd = hp.PolarDiagramTable(c["ws"], c["wa"])
        model = {(w, a): 0.0 for w in c["ws"] for a in c["wa"]}
    else:
        pd = pds.table(c)
        model = {
            (w, a): c["bsp"][i][j]
            for i, a in enumerate(c["wa"])
            for j, w in enumerate(c["ws"])
        }
    ws_all = sorted(c["ws"])
    wa_all = sorted(c["wa"])
    others = []  # earlier tables and arrays, with what they must still hold
    compare(pd, model, "construction")
    for n, (name, p) in enumerate(c["ops"]):
        when = f"after operation {n} ({name})"
        if name == "change":
            ws, wa = p["ws"], p["wa"]
            if ws is not None:
                ws = list(dict.fromkeys(ws_all[i % len(ws_all)] for i in ws))
            if wa is not None:
                wa = list(dict.fromkeys(wa_all[i % len(wa_all)] for i in wa))
            cols = ws_all if ws is None else ws
            rows = wa_all if wa is None else wa
            vals = p["vals"]
            block = [
                [vals[(i * len(cols) + j) % len(vals)] for j in range(len(cols))]
                for i in range(len(rows))
            ]
            new = dict(model)
            for i, a in enumerate(rows):
                for j, w in enumerate(cols):
                    new[w, a] = block[i][j]
            if len(rows) == 1:
                arg = block[0]
            elif len(cols) == 1:
                arg = [r[0] for r in block]
            else:
                arg = block
            if len(rows) == len(cols) == 1 and p["scalar"]:
                arg = block[0][0]
            elif p["cont"] == "array":
                arg = np.array(arg, float)
            elif p["cont"] == "tuple" and len(rows) > 1 and len(cols) > 1:
                arg = tuple(tuple(r) for r in arg)

            def wind(v, turn):
                if v is None:
                    return None
                v = [x + turn for x in v]
                if len(v) == 1 and p["scalar"]:
                    return v[0]
                return np.array(v, float) if p["cont"] == "array" else v

            a_ws, a_wa = wind(ws, 0), wind(wa, 0 if c.get("digits") else p["turn"])
            before = frozen([arg, a_ws, a_wa])
            kw = {}
            if ws is not None:
                kw["ws"] = a_ws
            if wa is not None:
                kw["wa"] = a_wa
            pd.change_entries(arg, **kw)
            expect(
                frozen([arg, a_ws, a_wa]) == before,
                f"{when}: the arguments were modified",
            )
            model = new
            cx.nontrivial(len(rows) * len(cols) > 1)
            if cols != sorted(cols) or rows != sorted(rows):
                cx.label("change in non-ascending order")
            cx.label(
                "whole table"
                if ws is None and wa is None
                else f"change {'all' if wa is None else min(len(rows), 2)}"
                f" x {'all' if ws is None else min(len(cols), 2)}"
            )
        elif name == "bad":
            k = p["kind"]
            cx.label("refused: " + k)
            full = [[1.0] * len(ws_all) for _ in wa_all]
            free_ws = max(ws_all) + 1.0
            free_wa = next(a for a in range(0, 360) if float(a) not in wa_all)
            i = p["i"]
            # part of the table, addressed by the winds some_ws, some_wa
            some_ws = ws_all[: 1 + i % len(ws_all)]
            some_wa = wa_all[: 1 + (i // 3) % len(wa_all)]
            r, q = len(some_wa), len(some_ws)
            part = np.arange(1.0, r * q + 1).reshape(r, q)
            if k in ("transposed", "flat", "row for column", "one value", "missing"):
                wrong = {
                    "transposed": part.T,
                    "flat": part.ravel(),
                    "row for column": np.ones(r + q),
                    "one value": np.ones(()) if i % 2 else np.ones(1),
                    "missing": part.ravel()[1:] if 1 in (r, q) else part[1:] if i % 2 else part[:, 1:],
                }[k]
                fits = (q,) if r == 1 else (r,) if q == 1 else (r, q)
                if wrong.size == 0 or wrong.shape == fits or k == "one value" and part.size == 1 or 1 in wrong.shape and wrong.size in (1, r, q) and r * q == wrong.size:
                    continue
                wrong = wrong.tolist() if i % 5 else wrong
            call = {
                **dict.fromkeys(
                    ["transposed", "flat", "one value", "row for column", "missing"],
                    lambda: pd.change_entries(wrong, ws=some_ws, wa=some_wa),
                ),
                "shape": lambda: pd.change_entries(
                    [[1.0] * (len(ws_all) + 1)] * (len(wa_all) + 1)
                ),
                "unknown ws": lambda: pd.change_entries(
                    [1.0] * len(wa_all), ws=free_ws
                ),
                "unknown wa": lambda: pd.change_entries(
                    [1.0] * len(ws_all), wa=free_wa
                ),
                "nan": lambda: pd.change_entries(
                    float("nan"), ws=ws_all[i % len(ws_all)], wa=wa_all[0]
                ),
                "inf": lambda: pd.change_entries(
                    float("inf"), ws=ws_all[0], wa=wa_all[i % len(wa_all)]
                ),
                "negative ws": lambda: pd.change_entries(
                    [1.0] * len(wa_all), ws=-1.0
                ),
                "empty": lambda: pd.change_entries(full, ws=[]),
            }[k]
            try:
                call()
            except Exception:
                pass
            else:
                expect(False, f"{when}: an invalid change ({k}) was accepted")
        elif name == "reload":
            pd.to_csv("edit.csv")
            others.append((pd, dict(model)))
            pd = hp.from_csv("edit.csv")
        elif name == "scribble":
            b, w, a = pd.boat_speeds, pd.wind_speeds, pd.wind_angles
            b[...] = -77.0
            w[...] = w[...] + 1
            a[...] = a[...] + 1
            pts = pd.default_points
            pts[...] = -1
            for s in pd.get_slices()[1]:
                s[...] = -2
        elif name == "symmetrize":
            pd.symmetrize()
        elif name == "copy":
            others.append((pd, dict(model)))
            pd = hp.PolarDiagramTable(
                pd.wind_speeds, pd.wind_angles, pd.boat_speeds
            )
        elif name == "zeros":
            others.append((pd, dict(model)))
            pd = hp.PolarDiagramTable(
                ws_resolution=pd.wind_speeds, wa_resolution=pd.wind_angles
            )
            model = {k: 0.0 for k in model}
        compare(pd, model, when)
    for other, m in others:
        compare(other, m, "an earlier table, after editing a later one")
    fresh = hp.PolarDiagramTable()
    expect(
        not np.any(fresh.boat_speeds), "a new default table is not all zero"
    )


@st.composite
def handed_out(draw):
    c = draw(gen.table(ws=(1, 4), wa=(1, 5), dyadic=True))
    c["v"] = draw(gen.nice(21, 30))
    c["i"] = draw(idx)
    c["j"] = draw(idx)
    return c


@REG.facet(
    handed_out(),
    quick=600,
    rule="arrays and slices taken before one cell is changed keep their"
    " values; non-trivial: more than one cell",
)
def handed_out_arrays_stay(c, cx):
    pd = pds.table(c)
    src = [list(r) for r in c["bsp"]]
    arr = np.array(src, float)
    twin = hp.PolarDiagramTable(np.array(c["ws"]), np.array(c["wa"]), arr)
    before = frozen([pd.boat_speeds, twin.boat_speeds, arr])
    got = [pd.boat_speeds, twin.boat_speeds, arr]
    slices = pd.get_slices()[1]
    pts = pd.get_points()
    snap = frozen([slices, pts])
    w, a = c["ws"][c["j"] % len(c["ws"])], c["wa"][c["i"] % len(c["wa"])]
    pd.change_entries([c["v"]], ws=w, wa=a)
    twin.change_entries([c["v"]], ws=w, wa=a)
    expect(frozen(got) == before, "arrays taken before the change changed")
    expect(frozen([slices, pts]) == snap, "slices taken before changed")
    expect(pd[w, a] == c["v"] == twin[w, a], "the change did not happen")
    cx.nontrivial(len(c["ws"]) * len(c["wa"]) > 1)


# ---- large ----
def big_history(r, n):
    c = r.table(n)
    c["wa"] = r.uniq(len(c["wa"]), lambda: r.grid(0, 359.9))
    c["bsp"] = c["bsp"][: len(c["wa"])]
    c["zero"] = r.random() < 0.2

    def some():
        if r.random() < 0.25:
            return None
        return [r.randrange(n) for _ in range(r.choice([1, r.randint(1, n), n]))]

    def change():
        return ["change", {
            "ws": some(), "wa": some(), "turn": r.choice([0, 0, 360, -720]), "scalar": r.random() < 0.5,
            "cont": r.choice(["list", "array", "tuple"]), "vals": r.times(3001, lambda: r.num(0, 20)),
        }]

    def other():
        return r.choice([
            ["bad", {"kind": r.choice(["shape", "transposed", "flat", "one value", "row for column", "missing", "unknown ws", "unknown wa", "nan", "negative ws"]), "i": r.randrange(n)}],
            [r.choice(["reload", "scribble", "symmetrize", "copy", "zeros"]), {"i": r.randrange(n)}],
        ])

    c["ops"] = [r.choice([change, change, other])() for _ in range(r.randint(1, 6))]
    return c


big.large(REG, edit_history, big_history, hi=350, quick=60, what="wind speeds or angles")
