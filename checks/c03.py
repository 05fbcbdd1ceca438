"""C03: a polar table returns exactly its stored entries."""
import numpy as np
from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import must_raise, same
from hrosailing import polardiagram as hp

REG = Registry(
    "C03",
    [
        "resolutions have no duplicates (modulo 360 for angles): duplicates are"
        " documented to be unwanted",
        "angles shifted by full turns are multiples of 1/64 degree, so that the"
        " shift is exact in floating point",
    ],
)

CONTAINERS = {
    "list": list,
    "tuple": tuple,
    "array": lambda v: np.array(v, float),
    "int array": lambda v: np.array(v, int),
}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["ints", "ints", "dyadic", "digits"]))
    if kind == "ints":
        ws = draw(gen.uniq(st.integers(0, 60), 1, 6))
        wa = draw(gen.uniq(st.integers(0, 359), 1, 9))
        cont = draw(st.sampled_from(["list", "tuple", "array", "int array"]))
    else:
        ws = draw(gen.speeds(1, 6))
        wa = draw(gen.angles(1, 9, dyadic=kind == "dyadic"))
        if kind == "digits" and draw(st.booleans()):
            # winds that are nearly equal
            by = draw(st.sampled_from([1e-12, 1e-9, 1e-7, 1e-4]))
            ws += [w for w in [ws[0] * (1 - by)] if w not in ws]
            wa += [a for a in [wa[0] * (1 - by)] if a not in wa]
        cont = draw(st.sampled_from(["list", "tuple", "array"]))
    # whole turns are exact for dyadic angles only
    shift = [draw(gen.turn()) if kind != "digits" and draw(st.booleans()) else 0 for _ in wa]
    elem = st.one_of(gen.nice(0, 20), gen.wild())
    return {
        "ws": ws,
        "wa": wa,
        "shift": shift,
        "bsp": draw(gen.matrix(elem, len(wa), len(ws))),
        "cont": cont,
        "turns": [0] if kind == "digits" else draw(st.lists(gen.turn(), min_size=3, max_size=3)),
    }


def model_of(c):
    return {
        (float(w), float(a)): float(c["bsp"][i][j])
        for i, a in enumerate(c["wa"])
        for j, w in enumerate(c["ws"])
    }


def build(c):
    f = CONTAINERS[c["cont"]]
    return hp.PolarDiagramTable(
        ws_resolution=f(c["ws"]),
        wa_resolution=f([a + s for a, s in zip(c["wa"], c["shift"])]),
        bsps=[list(r) for r in c["bsp"]],
    )


def check_table(pd, model, turns):
    ws = sorted({w for w, _ in model})
    wa = sorted({a for _, a in model})
    expect(
        same(pd.wind_speeds, ws), f"wind speeds {pd.wind_speeds}, given {ws}"
    )
    expect(
        same(pd.wind_angles, wa), f"wind angles {pd.wind_angles}, given {wa}"
    )
    expect(
        np.shape(pd.boat_speeds) == (len(wa), len(ws)),
        f"boat speeds have shape {np.shape(pd.boat_speeds)}",
    )
    got = pds.table_dict(pd)
    expect(got == model, f"stored {got}, given {model}")
    items = list(model.items())
    for (w, a), v in items[:: len(items) // 80 + 1]:
        for t in [0] + list(turns):
            r = pd[w, a + t]
            expect(r == v, f"[{w}, {a + t}] gives {r}, stored is {v}")
            r = pd(w, a + t)
            expect(r == v, f"call ({w}, {a + t}) gives {r}, stored is {v}")
    pts = {(p[0], p[1]): p[2] for p in np.asarray(pd.get_points(), float).tolist()}
    expect(pts == model, f"points {pts}, given {model}")
    expect(len(pd.get_points()) == len(model), "duplicated points")
    labels, slices = pd.get_slices()
    expect(same(labels, ws), f"default slices {labels}, wind speeds {ws}")
    for w, s in zip(ws, slices):
        expect(np.shape(s) == (3, len(wa)), f"slice of shape {np.shape(s)}")
        expect(
            bool(np.all(s[0] == w)) and same(s[1], wa),
            f"slice {w}: winds {s[:2]}",
        )
        expect(
            same(s[2], [model[w, a] for a in wa]),
            f"slice {w}: {s[2]}, stored {[model[w, a] for a in wa]}",
        )


@REG.facet(
    cases(),
    quick=2500,
    rule="rows and columns in random order, angles shifted by full turns, four"
    " container types; non-trivial: at least two rows or columns out of order",
)
def exact_lookup(c, cx):
    cx.nontrivial(c["ws"] != sorted(c["ws"]) or c["wa"] != sorted(c["wa"]))
    cx.label(c["cont"])
    if any(c["shift"]):
        cx.label("angles outside [0, 360)")
    pd = build(c)
    check_table(pd, model_of(c), c["turns"])


@st.composite
def queries(draw):
    c = draw(cases())
    c["q"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from(["ws", "wa", "both"]),
                gen.nice(0, 60),
                gen.grid(0, 359),
                gen.turn(),
            ).map(list),
            min_size=1,
            max_size=4,
        )
    )
    return c


class Recorder:
    """Interpolator and neighbourhood that write down what they are given."""

    def __init__(self, keep):
        self.keep = keep
        self.seen = None
        self.offsets = None

    def is_contained_in(self, pts):
        self.offsets = np.array(pts, float)
        return np.array(
            [(i * 7 + 3) % 5 < self.keep for i in range(len(pts))], bool
        )

    def interpolate(self, w_pts, grid_pt):
        self.seen = (
            np.array(w_pts.data, float),
            np.array(w_pts.weights, float),
            np.array(grid_pt, float),
        )
        return 12.625


@REG.facet(
    queries(),
    quick=1200,
    rule="winds that are not in the table: indexing must refuse, calling must"
    " interpolate the table's entries in the neighbourhood of the wind"
    " (observed through a recording interpolator), the same modulo 360;"
    " non-trivial: the wind is not in the table",
)
def winds_not_in_table(c, cx):
    pd = build(c)
    model = model_of(c)
    lo = min(model.values())
    hi = max(model.values())
    for kind, qw, qa, t in c["q"]:
        if c["turns"] == [0] and kind == "ws":
            t = 0
        w = qw if kind != "wa" else c["ws"][0]
        a = qa if kind != "ws" else c["wa"][0]
        if (w, a) in model:
            continue
        cx.nontrivial()
        must_raise(f"indexing [{w}, {a}]", lambda: pd[w, a], ValueError)
        must_raise(f"indexing [{w}, {a + t}]", lambda: pd[w, a + t], ValueError)
        for neg in (-1.0, -1e-7, -w - 0.5):
            must_raise(f"indexing [{neg}, {a}]", lambda: pd[neg, a], ValueError)
        for shift in (0, t):
            for keep in (5, 2):
                rec = Recorder(keep)
                r = pd(w, a + shift, interpolator=rec, neighbourhood=rec)
                expect(r == 12.625, f"call gives {r}, the interpolator 12.625")
                data, weights, q = rec.seen
                expect(
                    same(q, [w, a]),
                    f"asked for ({w}, {a + shift}), interpolated at {q}",
                )
                grid = sorted(k + (v,) for k, v in model.items())
                dist = np.sort(np.linalg.norm(rec.offsets, axis=1))
                want = np.sort(
                    [np.hypot(g[0] - w, g[1] - a) for g in grid]
                )
                expect(
                    len(dist) == len(want)
                    and np.allclose(dist, want, rtol=1e-6, atol=1e-6),
                    "the neighbourhood was not asked about the table's winds"
                    " relative to the wind in question",
                )
                seen = set(map(tuple, data.tolist()))
                expect(
                    seen <= set(grid) and len(seen) == len(data),
                    f"interpolated from {data}, table {grid}",
                )
                if keep == 5:
                    expect(len(data) == len(grid), "not all neighbours used")
                else:
                    n = sum((i * 7 + 3) % 5 < 2 for i in range(len(grid)))
                    expect(len(data) == n, "neighbourhood not respected")
                expect(
                    len(set(weights.tolist())) <= 1, "points weighted unevenly"
                )
        near = min(
            ((w - k[0]) / 40) ** 2 + ((a - k[1]) / 360) ** 2 for k in model
        )
        if max(abs(lo), abs(hi)) < 1e6 and near < 0.95:
            cx.label("default interpolation")
            r = pd(w, a)
            expect(
                lo - 1e-9 * (1 + abs(lo)) <= r <= hi + 1e-9 * (1 + abs(hi)),
                f"default interpolation at ({w}, {a}) gives {r}, entries lie in"
                f" [{lo}, {hi}]",
            )
            expect(
                pd(w, a + t) == r,
                f"({w}, {a}) gives {r}, ({w}, {a + t}) gives {pd(w, a + t)}",
            )


@st.composite
def resolutions(draw):
    def one(hi, angle):
        kind = draw(st.sampled_from(["none", "scalar", "list", "array"]))
        if kind == "none":
            return ["none", None]
        if kind == "scalar":
            top = 360 if angle else 40
            v = draw(
                st.one_of(
                    st.integers(8 if angle else 1, top),
                    gen.grid(8 if angle else 1, top, 4),
                )
            )
            return ["scalar", v]
        if angle:
            return [kind, draw(gen.angles(1, 6, dyadic=True))]
        return [kind, draw(gen.speeds(1, 6))]

    return {
        "ws": one(40, False),
        "wa": one(360, True),
        "zero": draw(st.booleans()),
        "turns": [draw(gen.turn())],
    }


def expected_resolution(r, top, default):
    kind, v = r
    if kind == "none":
        return [float(x) for x in default]
    if kind == "scalar":
        return [float(x) for x in np.arange(v, top, v)]
    return [float(x) for x in v]


@REG.facet(
    resolutions(),
    quick=400,
    rule="resolutions given as nothing, a step, a list or an array, with and"
    " without boat speeds; non-trivial: custom resolution or zero table",
)
def resolutions_and_zero_tables(c, cx):
    def arg(r):
        return np.array(r[1]) if r[0] == "array" else r[1]

    ws = expected_resolution(c["ws"], 40, range(2, 42, 2))
    wa = expected_resolution(c["wa"], 360, range(0, 360, 5))
    cx.label("ws " + c["ws"][0], "wa " + c["wa"][0])
    if not ws or not wa:
        return
    cx.label("zero table" if c["zero"] else "with boat speeds")
    cx.nontrivial(c["zero"] or c["ws"][0] != "none" or c["wa"][0] != "none")
    if c["zero"]:
        pd = hp.PolarDiagramTable(
            ws_resolution=arg(c["ws"]), wa_resolution=arg(c["wa"])
        )
        model = {(w, a): 0.0 for w in ws for a in wa}
    else:
        bsp = [[i + j / 128 for j in range(len(ws))] for i in range(len(wa))]
        pd = hp.PolarDiagramTable(
            ws_resolution=arg(c["ws"]), wa_resolution=arg(c["wa"]), bsps=bsp
        )
        model = {
            (w, a): bsp[i][j]
            for i, a in enumerate(wa)
            for j, w in enumerate(ws)
        }
    if len(model) <= 60:
        check_table(pd, model, c["turns"])
    else:
        expect(pds.table_dict(pd) == model, "stored entries differ")
        labels, slices = pd.get_slices([ws[0], ws[-1]])
        for w, s in zip(labels, slices):
            expect(
                same(s[2], [model[w, a] for a in sorted(wa)]), f"slice {w}"
            )
        for w, a in list(model)[:: max(1, len(model) // 25)]:
            expect(pd[w, a] == model[w, a], f"entry {w}, {a}")
    between = (ws[0] + 0.03125, wa[0] + 0.03125)
    if between not in model and c["zero"]:
        expect(pd(*between) == 0, "zero table interpolates to non-zero")


@st.composite
def bad(draw):
    c = draw(cases())
    c["fault"] = draw(
        st.sampled_from(
            ["nan", "inf", "negative ws", "extra row", "missing column",
             "transposed", "nan ws", "step 0", "step too big", "negative step",
             "empty"]
        )
    )
    c["at"] = draw(st.integers(0, 100))
    return c


@REG.facet(
    bad(),
    quick=400,
    rule="one defect planted in otherwise valid constructor arguments: must be"
    " rejected; non-trivial: always",
)
def invalid_tables_are_rejected(c, cx):
    f = c["fault"]
    cx.label(f)
    ws, wa = list(c["ws"]), list(c["wa"])
    bsp = [list(r) for r in c["bsp"]]
    i, j = c["at"] % len(wa), c["at"] % len(ws)
    if f == "nan":
        bsp[i][j] = float("nan")
    elif f == "inf":
        bsp[i][j] = float("inf")
    elif f == "negative ws":
        ws[j] = [-1.0 - ws[j], -1e-3, -1e-9][c["at"] % 3]
    elif f == "extra row":
        bsp.append(list(bsp[0]))
    elif f == "missing column":
        bsp = [r[:-1] for r in bsp]
    elif f == "transposed":
        if len(ws) == len(wa):
            return
        bsp = [list(r) for r in zip(*bsp)]
    elif f == "nan ws":
        ws[j] = float("nan")
    elif f == "empty":
        ws = []
        bsp = [[] for _ in wa]
    else:
        step = {"step 0": 0, "negative step": -2.5}.get(f)
        cx.nontrivial()
        must_raise(
            f, lambda: hp.PolarDiagramTable(ws_resolution=41 if step is None else step)
        )
        must_raise(
            f, lambda: hp.PolarDiagramTable(wa_resolution=361 if step is None else step)
        )
        return
    cx.nontrivial()
    must_raise(f"a table with {f}", lambda: hp.PolarDiagramTable(ws, wa, bsp))


# ---- large ----
def big_case(r, n):
    c = r.table(n, wa=(0, 359.9))
    c["wa"] = r.uniq(len(c["wa"]), lambda: r.grid(0, 359.9))
    c["shift"] = [r.choice([0, 0, 360, -360, 720]) for _ in c["wa"]]
    c["bsp"] = c["bsp"][: len(c["wa"])]
    c["cont"] = r.choice(["list", "tuple", "array"])
    c["turns"] = [r.choice([360, -720])]
    return c


def big_query(r, n):
    c = big_case(r, n)
    c["q"] = [[r.choice(["ws", "wa", "both"]), r.num(0, 60), r.grid(0, 359), r.choice([0, 360])] for _ in range(2)]
    return c


big.large(REG, exact_lookup, big_case, hi=1200, quick=40, what="wind speeds or angles")
big.large(REG, winds_not_in_table, big_query, hi=600, quick=30, what="wind speeds or angles")
