"""C06: symmetrising a polar diagram yields its mirror-symmetric version."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.c01 import NPARAMS
from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import frozen
from hrosailing import polardiagram as hp
import hrosailing.core.modelfunctions as mf

REG = Registry(
    "C06",
    [
        "tables and clouds have their angles on one side of the 0-180 axis (the"
        " documented precondition); angles are multiples of 1/64 degree so that"
        " mirroring is exact",
    ],
)


@st.composite
def side_angles(draw, lo=1, hi=7):
    """Distinct angles on one closed side; the axis is over-represented."""
    left = draw(st.booleans())
    a = draw(gen.uniq(gen.grid(1 / 64, 180 - 1 / 64), 0, hi - 2))
    if left:
        a = [360 - x for x in a]
    axis = draw(st.sampled_from([[], [0.0], [180.0], [0.0, 180.0], [180.0, 0.0]]))
    a = a + axis
    if len(a) < lo:
        a = a + [90.0]
    return draw(st.permutations(a))


@st.composite
def tables(draw):
    wa = list(draw(side_angles()))
    ws = draw(gen.speeds(1, 4))
    elem = st.one_of(gen.nice(0, 20), gen.wild())
    return {
        "kind": "table",
        "ws": ws,
        "wa": wa,
        "bsp": draw(gen.matrix(elem, len(wa), len(ws))),
    }


def mirror(a):
    return (360.0 - a) % 360.0


def sym_model(model):
    out = dict(model)
    for (w, a), v in model.items():
        out[w, mirror(a)] = v
    return out


def check_table(c, pd, sym):
    model = {
        (w, a): c["bsp"][i][j]
        for i, a in enumerate(c["wa"])
        for j, w in enumerate(c["ws"])
    }
    want = sym_model(model)
    wa = sorted({a for _, a in want})
    expect(
        list(sym.wind_angles) == wa,
        f"angles {sym.wind_angles} of the symmetrised {sorted(c['wa'])}",
    )
    expect(list(sym.wind_speeds) == sorted(c["ws"]), "wind speeds changed")
    got = pds.table_dict(sym)
    expect(got == want, f"symmetrised table {got}, expected {want}")
    for (w, a), v in want.items():
        expect(sym(w, a) == v and sym(w, 360 - a) == v, f"value at {w}, {a}")


@REG.facet(
    tables(),
    quick=2500,
    rule="tables with angles on one closed side, with and without 0 and 180"
    " degrees, rows in any order; non-trivial: an angle off the axis",
)
def table(c, cx):
    pd = pds.build(c)
    before = pds.describe(pd)
    for a in (0.0, 180.0):
        if a in c["wa"]:
            cx.label(f"has {a:g}")
    cx.nontrivial(any(a not in (0.0, 180.0) for a in c["wa"]))
    sym = pd.symmetrize()
    expect(isinstance(sym, hp.PolarDiagramTable), "not a table")
    check_table(c, pd, sym)
    sym.change_entries(np.full(np.shape(sym.boat_speeds), -5.0).squeeze() if sym.boat_speeds.size > 1 else [-5.0])
    expect(pds.describe(pd) == before, "the original changed")


@st.composite
def clouds(draw):
    left = draw(st.booleans())
    n = draw(st.integers(0, 8))
    pts = []
    for _ in range(n):
        a = draw(st.one_of(gen.grid(1 / 64, 180 - 1 / 64), st.sampled_from([0.0, 180.0, 90.0])))
        if left:
            a = mirror(a)
        pts.append([draw(gen.nice(0, 30)), a, draw(gen.nice(0, 20))])
    return {"kind": "cloud", "pts": pts}


def check_cloud(c, sym):
    got = sorted(map(tuple, np.asarray(sym.points, float).tolist()))
    orig = [tuple(p) for p in c["pts"]]
    want = orig + [(w, mirror(a), b) for w, a, b in orig]
    expect(
        set(got) == set(want),
        f"symmetrised cloud {got}, expected {sorted(want)}",
    )
    for p in set(orig):
        on_axis = p[1] in (0.0, 180.0)
        n, k = orig.count(p), got.count(p)
        expect(
            n <= k <= (2 * n if on_axis else want.count(p)),
            f"point {p} given {n} times is there {k} times",
        )


@REG.facet(
    clouds(),
    quick=1500,
    rule="point clouds on one closed side; non-trivial: a point off the axis",
)
def cloud(c, cx):
    pd = pds.build(c)
    before = pds.describe(pd)
    cx.nontrivial(any(p[1] not in (0.0, 180.0) for p in c["pts"]))
    sym = pd.symmetrize()
    expect(isinstance(sym, hp.PolarDiagramPointcloud), "not a cloud")
    check_cloud(c, sym)
    for w, a, b in c["pts"]:
        if w > 0:
            expect(sym(w, mirror(a)) == pd(w, a) == sym(w, a), f"at {w}, {a}")
    sym.add_points([[5.0, 10.0, 3.0]])
    expect(pds.describe(pd) == before, "the original changed")


@st.composite
def curves(draw):
    f = draw(st.sampled_from(sorted(NPARAMS) + ["user"]))
    n = NPARAMS.get(f, (3,))[0]
    return {
        "kind": "curve",
        "f": f,
        "params": pds.defined(f, draw(st.lists(gen.nice(-2, 2), min_size=n, max_size=n))),
        "radians": draw(st.booleans()),
        "winds": draw(
            st.lists(
                st.tuples(gen.nice(0, 20), gen.grid(0, 360)).map(list),
                min_size=1,
                max_size=4,
            )
        ),
        "array": draw(st.booleans()),
    }


def user(ws, wa, a, b, c):
    return a * ws + b * np.sin(wa / 50) + c * wa


@REG.facet(
    curves(),
    quick=1500,
    rule="built-in and user functions, random parameters, degrees and radians;"
    " non-trivial: the function is not symmetric at some probed wind",
)
def curve(c, cx):
    f = user if c["f"] == "user" else getattr(mf, c["f"])
    pd = hp.PolarDiagramCurve(f, *c["params"], radians=c["radians"])
    before = frozen([list(pd.parameters), pd.radians, pd.curve.__name__])
    cx.label("radians" if c["radians"] else "degrees")
    sym = pd.symmetrize()
    expect(isinstance(sym, hp.PolarDiagramCurve), "not a curve")
    expect(bool(sym.radians) == c["radians"], "the angle unit changed")
    unit = math.pi / 180 if c["radians"] else 1.0
    full = 360.0 * unit
    for ws, a in c["winds"]:
        wa = a * unit
        y, ym = f(ws, wa % full, *c["params"]), f(ws, full - wa % full, *c["params"])
        want = 0.5 * (y + ym)
        tol = 1e-7 * (abs(y) + abs(ym) + 1)
        if not np.isfinite(want):
            continue
        if c["array"]:
            got = sym(np.array([ws, ws]), np.array([wa, full - wa]))
        else:
            got = [sym(ws, wa), sym(ws, full - wa)]
        cx.nontrivial(abs(y - ym) > 1e-3)
        # the unwrapped mirror of 0 is a full turn: both ends of the range
        for g, at in zip(got, (wa, full - wa)):
            expect(
                abs(g - want) <= tol,
                f"{c['f']} symmetrised at ({ws}, {at}) gives {g}, the average"
                f" of {y} and {ym} is {want}",
            )
    expect(
        frozen([list(pd.parameters), pd.radians, pd.curve.__name__]) == before,
        "the original changed",
    )
    ws, wa = c["winds"][0][0], c["winds"][0][1] * unit
    r = pd(ws, wa)
    w = f(ws, wa % full, *c["params"])
    expect(r == w or not np.isfinite(w) or abs(r - w) <= 1e-7 * (1 + abs(w)), "the original evaluates differently")


@REG.facet(
    st.fixed_dictionaries(
        {
            "kind": st.just("multi"),
            "pds": st.lists(st.one_of(tables(), tables(), clouds()), min_size=1, max_size=3),
            "sails": st.one_of(
                st.none(),
                st.lists(st.sampled_from(["Jib", "Spi", "G0", "Sail 0"]), min_size=1, max_size=4),
            ),
        }
    ),
    quick=600,
    rule="multi-sail diagrams of one-sided tables and clouds; non-trivial: at"
    " least two sails",
)
def multisails(c, cx):
    pd = pds.build(c)
    before = pds.describe(pd)
    cx.nontrivial(len(c["pds"]) > 1)
    sym = pd.symmetrize()
    expect(isinstance(sym, hp.PolarDiagramMultiSails), "not multi-sail")
    expect(
        list(sym.sails) == list(pd.sails)
        and len(sym.diagrams) == len(c["pds"]),
        f"sails {pd.sails} became {sym.sails}",
    )
    for p, s in zip(c["pds"], sym.diagrams):
        (check_table(p, None, s) if p["kind"] == "table" else check_cloud(p, s))
    expect(pds.describe(pd) == before, "the original changed")


# ---- large ----
def big_side_table(r, n):
    nwa, nws = r.shape(n)
    wa = r.uniq(nwa, lambda: r.grid(1 / 64, 180 - 1 / 64))
    if r.random() < 0.5:
        wa = [360 - a for a in wa]
    wa += r.choice([[], [0.0], [180.0], [0.0, 180.0]])
    r.shuffle(wa)
    ws = r.uniq(nws, lambda: r.num(0, 60))
    return {"kind": "table", "ws": ws, "wa": wa, "bsp": [r.times(len(ws), lambda: r.num(0, 20)) for _ in wa]}


def big_side_cloud(r, n):
    left = r.random() < 0.5
    pts = []
    for _ in range(n):
        a = r.choice([r.grid(1 / 64, 180 - 1 / 64), r.grid(1 / 64, 180 - 1 / 64), 0.0, 180.0, 90.0])
        pts.append([r.num(0, 30), mirror(a) if left else a, r.num(0, 20)])
    return {"kind": "cloud", "pts": pts}


def big_sails(r, n):
    return {"kind": "multi", "pds": [r.choice([big_side_table, big_side_cloud])(r, 4) for _ in range(n)], "sails": None}


big.large(REG, table, big_side_table, hi=800, quick=40, what="wind speeds or angles")
big.large(REG, cloud, big_side_cloud, hi=600, quick=40, what="points")
big.large(REG, multisails, big_sails, lo=4, hi=30, quick=20, what="sails")
