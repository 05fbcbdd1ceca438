"""C35: nothing the caller passes in or gets handed out is shared."""
import os
import tempfile
import warnings
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

import hrosailing.core.modelfunctions as mf
import hrosailing.processing as pc
from checks.c21 import seeded
from scipy.spatial import QhullError

from harness import big, gen, pds
from harness.core import Registry, Violation, expect
from hrosailing import cruising, models, pipeline as pl
from hrosailing import polardiagram as hp
from hrosailing.core import computing
from hrosailing.core.data import Data, WeightedPoints

REG = Registry(
    "C35",
    [
        "arrays, lists and dictionaries handed to or by the library; not the"
        " diagrams a multi-sail diagram consists of, the columns of Data"
        " objects, the data of WeightedPoints and functions",
        "random numbers are seeded per call",
    ],
)
T0 = datetime(2022, 5, 1, 8)


# ---- snapshots of and damage to values ----
def snap(x):
    """plain, comparable data"""
    if isinstance(x, hp.PolarDiagramTable):
        return ("table", snap([x.wind_speeds, x.wind_angles, x.boat_speeds]))
    if isinstance(x, hp.PolarDiagramPointcloud):
        return ("cloud", snap(x.points))
    if isinstance(x, hp.PolarDiagramCurve):
        return ("curve", x.curve.__name__, snap(x.parameters), bool(x.radians))
    if isinstance(x, hp.PolarDiagramMultiSails):
        return ("multi sails", snap(x.sails), snap(x.diagrams))
    if isinstance(x, Data):
        return ("Data", tuple((k, snap(list(x[k])), x.type(k)) for k in x.keys()), x.n_rows)
    if isinstance(x, WeightedPoints):
        return ("WeightedPoints", snap(x.data), snap(x.weights))
    if isinstance(x, cruising.Direction):
        return ("Direction", float(x.angle), float(x.proportion), x.sail)
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, tuple(snap(v) for v in x.ravel().tolist()))
    if isinstance(x, np.generic):
        return snap(np.asarray(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((k, snap(v)) for k, v in x.items()))
    if isinstance(x, float):
        return "nan" if x != x else x
    if callable(x) or not isinstance(x, (int, str, bool, type(None), datetime, timedelta)):
        return ("object", type(x).__name__)
    return x


def near(a, b):
    """equal snapshots, up to rounding (vectorised functions may round
    differently depending on where arrays are placed in memory)"""
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * (1 + abs(a))
    return type(a) is type(b) and a == b


def scribble(x):
    """overwrites everything the holder of x could overwrite"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            if x.dtype == bool:
                x[...] = ~x
            elif x.dtype.kind in "fiu":
                x[...] = 77
            elif x.dtype == object:
                for v in x.ravel():
                    scribble(v)
                x[...] = "scribbled"
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x[:] = ["scribbled"] * (len(x) + 1) if x and isinstance(x[0], str) else [77.0] * (len(x) + 1)
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, hp.PolarDiagramTable):
        x.change_entries(whole_table(x, 66.0))
    elif isinstance(x, hp.PolarDiagramPointcloud):
        x.add_points([[66.0, 6.0, 6.0]])


def whole_table(pd, v):
    """a new value for every entry, in the shape change_entries asks for"""
    shape = [n for n in pd.boat_speeds.shape if n > 1]
    return np.full(shape or [1], v)


# ---- histories on diagrams ----
@st.composite
def diagrams(draw, multi=True):
    kind = draw(st.sampled_from(["table", "table", "cloud", "cloud", "curve"] + ["multi"] * multi))
    if kind == "table":
        sym = draw(st.booleans())
        t = draw(gen.table(ws=(1, 4), wa=(2, 5), wa_high=180.0 if sym else 360.0))
        return dict(t, kind=kind, arrays=draw(st.booleans()), sorted=draw(st.booleans()))
    if kind == "cloud":
        return {"kind": kind, "pts": draw(gen.points(4, 9)), "arrays": draw(st.booleans()), "apparent": draw(st.booleans())}
    if kind == "curve":
        return {"kind": kind, "params": [draw(gen.nice(0.1, 2)) for _ in range(3)], "radians": draw(st.booleans())}
    return {
        "kind": kind,
        "pds": draw(st.lists(diagrams(multi=False), min_size=1, max_size=3)),
        "sails": draw(st.permutations(["Jib", "Spi", "G0"])),
    }


def sine(ws, wa, a, b, c):
    r = np.deg2rad(wa)
    return ws * (a + b * np.sin(r / 2) ** 2 + c * np.cos(r - 1.0) ** 2)


def sine_rad(ws, r, a, b, c):
    return sine(ws, np.rad2deg(r), a, b, c)


def construct(c):
    """-> diagram, what the caller handed over"""
    if c["kind"] == "table":
        args = [list(c["ws"]), list(c["wa"]), [list(r) for r in c["bsp"]]]
        if c["sorted"]:
            args[0].sort()
            args[1].sort()
        if c["arrays"]:
            args = [np.array(a, float) for a in args]
        return hp.PolarDiagramTable(*args), args
    if c["kind"] == "cloud":
        args = np.array(c["pts"], float) if c["arrays"] else [list(p) for p in c["pts"]]
        return hp.PolarDiagramPointcloud(args, apparent_wind=c["apparent"]), args
    if c["kind"] == "curve":
        args = list(c["params"])
        return hp.PolarDiagramCurve(sine_rad if c["radians"] else sine, *args, radians=c["radians"]), args
    parts = [construct(d)[0] for d in c["pds"]]
    sails = list(c["sails"][: len(parts)])
    args = [list(parts), sails]
    return hp.PolarDiagramMultiSails(*args), args


READS = [
    "accessors", "points", "slices", "slices", "info", "text", "csv", "wind points", "wind points", "slice points",
    "convex", "evaluate", "call", "call",
]
DERIVE = ["symmetrize", "from accessors", "table as cloud", "multi"]


@st.composite
def histories(draw):
    ops = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "op": st.one_of(
                        st.sampled_from(READS),
                        st.sampled_from(DERIVE),
                        st.sampled_from(["edit", "edit", "scribble", "scribble args"]),
                    ),
                    "on": st.integers(0, 5),
                    "ws": gen.uniq(gen.nice(1, 25), 1, 4),
                    "wa": gen.uniq(gen.nice(0, 359), 1, 4),
                    "arrays": st.booleans(),
                    "steps": st.sampled_from([None, None, 1, 2]),
                    "turn": gen.turn(),
                }
            ),
            min_size=1,
            max_size=8,
        )
    )
    return {"pd": draw(diagrams()), "ops": ops}


def turned(wa, turn):
    """the same angles, full turns away where that is exact"""
    wa = np.asarray(wa, float)
    return np.where((wa + turn) % 360 == wa, wa + turn, wa)


def wind(o, form):
    ws, wa = list(o["ws"]), turned(o["wa"], o["turn"]).tolist()
    if form == "grid":
        return (np.array(ws), np.array(wa)) if o["arrays"] else (ws, wa)
    n = min(len(ws), len(wa))
    pts = [[ws[i], wa[i]] for i in range(n)]
    return np.array(pts) if o["arrays"] else pts


def attempt(fn, *args, **kw):
    """the result, None where the input is refused"""
    try:
        return fn(*args, **kw)
    except (ValueError, TypeError, IndexError, KeyError, AttributeError, NotImplementedError, QhullError) as e:
        if isinstance(e, Violation):
            raise
        return None


def read(pd, o):
    """-> results of a reading operation, arguments it was given"""
    op = o["op"]
    if op == "accessors":
        names = ["wind_speeds", "wind_angles", "boat_speeds", "points", "parameters", "sails", "diagrams", "default_slices"]
        return [getattr(pd, n) for n in names if hasattr(pd, n)], None
    if op == "points":
        return [pd.default_points, pd.get_points()], None
    if op in ("slices", "info"):
        ws = np.array(o["ws"]) if o["arrays"] else list(o["ws"])
        if isinstance(pd, hp.PolarDiagramTable):
            have = [float(x) for x in pd.wind_speeds]
            ws = sorted({have[int(w) % len(have)] for w in o["ws"]})
            ws = np.array(ws) if o["arrays"] else ws
        before = snap(ws)
        out = attempt(pd.get_slices, ws, o["steps"], full_info=op == "info")
        expect(snap(ws) == before, "the wind speeds passed to get_slices were changed to %s", ws)
        if out is None:
            out = pd.get_slices()
        return list(out), ws
    if op == "text":
        return [str(pd), repr(pd)], None
    if op == "csv":
        with tempfile.TemporaryDirectory() as d:
            pd.to_csv(os.path.join(d, "x.csv"))
        return None, None
    if op in ("wind points", "evaluate"):
        w = wind(o, "grid" if o["steps"] else "list")
        if op == "evaluate" and isinstance(pd, hp.PolarDiagramTable):
            w = (np.asarray(pd.wind_speeds), np.asarray(pd.wind_angles))
        before = snap(w)
        out = attempt(pd.get_points, w)
        expect(snap(w) == before, "the winds passed to get_points were changed to %s", w)
        return out, w
    if op == "call":
        return call(pd, o)
    if op == "slice points":
        ws = float(o["ws"][0])
        if isinstance(pd, hp.PolarDiagramTable):
            ws = float(pd.wind_speeds[0])
        return attempt(pd.ws_to_slices, [ws]), None
    if isinstance(pd, (hp.PolarDiagramMultiSails, hp.PolarDiagramPointcloud)):
        return None, None
    ws = float(pd.wind_speeds[0]) if isinstance(pd, hp.PolarDiagramTable) else float(o["ws"][0])
    return attempt(cruising.convex_direction, pd, ws, float(o["wa"][0])), None


def call(pd, o):
    """evaluates the diagram at arrays, or at a number as array"""
    ws, wa = wind(o, "grid")
    if isinstance(pd, hp.PolarDiagramCurve):
        n = min(len(ws), len(wa))
        if not o["arrays"]:
            ws, wa = [ws[0]], [wa[0]]
        w = [np.array(ws[:n]), np.array(wa[:n])]
        if o["steps"] and len(w[0]) == 1:
            w = [float(ws[0]), w[1]]
    elif isinstance(pd, hp.PolarDiagramTable):
        w = [np.array(pd.wind_speeds[-1]), turned(pd.wind_angles[0], o["turn"])]
        if o["arrays"]:
            w = [x.reshape(1) for x in w]
    else:
        w = [np.array(ws[0]), np.array(wa[0])]
    before = snap(w)
    out = attempt(pd, *w)
    expect(snap(w) == before, "the winds at which the diagram was evaluated were changed to %s", w)
    return out, w


def derive(pd, o):
    if o["op"] == "symmetrize":
        return attempt(pd.symmetrize)
    if o["op"] == "from accessors":
        if isinstance(pd, hp.PolarDiagramTable):
            return hp.PolarDiagramTable(pd.wind_speeds, pd.wind_angles, pd.boat_speeds)
        if isinstance(pd, hp.PolarDiagramPointcloud):
            return hp.PolarDiagramPointcloud(pd.points)
    if o["op"] == "table as cloud" and not isinstance(pd, hp.PolarDiagramMultiSails):
        return hp.PolarDiagramPointcloud(pd.default_points)
    if o["op"] == "multi" and isinstance(pd, hp.PolarDiagramMultiSails):
        return hp.PolarDiagramMultiSails([d.symmetrize() for d in pd.diagrams], pd.sails)
    return None


def full(pd):
    """all a diagram tells about itself"""
    return snap(pd)


@REG.facet(
    histories(),
    quick=2000,
    rule="1-8 operations on a diagram and on those derived from it: reading"
    " (results are overwritten afterwards), deriving, editing, overwriting what"
    " was passed in; non-trivial: two diagrams, one of them edited",
)
def diagrams_(c, cx):
    pd, given = construct(c["pd"])
    fresh = snap(construct(c["pd"])[1]) if c["pd"]["kind"] != "multi" else None
    if fresh is not None:
        expect(snap(given) == fresh, "constructing a %s changed its arguments to %s", c["pd"]["kind"], given)
    family, state = [pd], [full(pd)]
    edited = set()

    def check(what, but=None):
        for i, d in enumerate(family):
            if i == but:
                state[i] = full(d)
            else:
                expect(full(d) == state[i], "%s changed diagram %s", what, i)

    for o in c["ops"]:
        i = o["on"] % len(family)
        d = family[i]
        if o["op"] in READS:
            out, args = read(d, o)
            check(f"reading ({o['op']})")
            again, _ = read(d, o)
            expect(near(snap(again), snap(out)), "%s: first %s, then %s", o["op"], out, again)
            if o["op"] != "accessors" or not isinstance(d, hp.PolarDiagramMultiSails):
                scribble(again)
            elif again:
                for x in again:
                    if isinstance(x, list):
                        x.clear()
            check(f"overwriting a result ({o['op']})")
            if args is not None and out is not None:
                before = snap(out)
                scribble(args)
                expect(snap(out) == before, "overwriting the arguments of %s changed its result", o["op"])
                check(f"overwriting the arguments ({o['op']})")
        elif o["op"] in DERIVE:
            new = derive(d, o)
            check(f"deriving ({o['op']})")
            if new is not None:
                family.append(new)
                state.append(full(new))
                cx.label(o["op"])
        elif o["op"] == "edit":
            if isinstance(d, hp.PolarDiagramTable):
                new = whole_table(d, 5.5)
                new = new if o["arrays"] else new.tolist()
                before = snap(new)
                if o["steps"]:
                    at = [np.array(d.wind_speeds), turned(d.wind_angles, o["turn"])]
                    where = snap(at)
                    d.change_entries(new, *at)
                    expect(snap(at) == where, "editing changed the winds passed in to %s", at)
                else:
                    d.change_entries(new)
            elif isinstance(d, hp.PolarDiagramPointcloud):
                new = [[w, a, 5.5] for w, a in zip(o["ws"], o["wa"])]
                new = np.array(new) if o["arrays"] else new
                before = snap(new)
                d.add_points(new)
            else:
                continue
            expect(snap(new) == before, "editing changed what was passed in to %s", new)
            check("editing another diagram", i)
            edited.add(i)
            scribble(new)
            check("overwriting what a diagram was edited with")
        elif o["op"] == "scribble":
            if isinstance(d, (hp.PolarDiagramTable, hp.PolarDiagramPointcloud)):
                scribble(d)
                edited.add(i)
                check("editing another diagram", i)
        elif given is not None:
            if c["pd"]["kind"] == "multi":
                given[0].clear()
                given[1].clear()
            else:
                scribble(given)
            given = None
            check("overwriting the arguments of the constructor")
    cx.nontrivial(len(family) > 1 and bool(edited))
    cx.label(c["pd"]["kind"])


# ---- components and functions ----
@st.composite
def pools(draw):
    n = draw(st.integers(4, 8))
    pts = draw(gen.uniq(st.tuples(gen.grid(1, 20, 4), gen.grid(0, 359, 4)).map(list), n, n, key=tuple))
    # spread, so that every component can work with them
    pts = [[2.0, 10.0], [18.0, 40.0], [7.0, 300.0], [14.0, 200.0]] + pts
    m = len(pts)
    return {
        "name": draw(st.sampled_from(sorted(ENTRIES))),
        "pts": [[*p, draw(gen.nice(0.5, 15))] for p in pts],
        "w": [draw(gen.grid(0, 1)) for _ in range(m)],
        "table": draw(gen.table(ws=(2, 3), wa=(4, 6), elem=gen.nice(1, 15), ws_low=1, sort=True)),
        "x": draw(gen.grid(0, 1, 8)),
        "n": draw(st.integers(2, 5)),
        "lists": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
        "extra": [draw(gen.nice(0.1, 2)) for _ in range(3)],
    }


def arr(c, rows):
    return [list(r) for r in rows] if c["lists"] else np.array(rows, float)


def cols(c, data=False):
    out = {
        "TWS": [p[0] for p in c["pts"]],
        "TWA": [p[1] for p in c["pts"]],
        "BSP": [p[2] for p in c["pts"]],
    }
    if data:
        out["datetime"] = [T0 + timedelta(seconds=10 * i) for i in range(len(c["pts"]))]
        return Data.from_dict(out)
    return out


def weighted(c, rows=None):
    rows = c["pts"] if rows is None else rows
    return WeightedPoints(np.array(rows, float), np.array(c["w"][: len(rows)], float))


def query(c):
    return np.array([2.0 + 10 * c["x"], 30.0 + 200 * c["x"]])


def entry(make, args, call):
    """make(c) -> (constructor arguments, constructor), args(c) -> arguments"""
    return make, args, call


def simple(cls, *cargs, **kw):
    return lambda c: ([], lambda: cls(*cargs, **kw))


def interpolation(make):
    return entry(make, lambda c: [weighted(c), query(c)], lambda o, w, q: o.interpolate(w, q))


def neighbourhood(make):
    return entry(
        make,
        lambda c: [np.array([[p[0] / 100, p[1] / 1000] for p in c["pts"]])],
        lambda o, p: o.is_contained_in(p),
    )


def weighing(make):
    return entry(make, lambda c: [np.array(c["pts"], float)], lambda o, p: o.weigh(p))


def weighing_data(make):
    return entry(make, lambda c: [cols(c, True)], lambda o, p: o.weigh(p))


def fuzzy():
    x = pc.FuzzyVariable()
    return ((x["TWS"] < 8) | (x["BSP"] > 4)) & ~(x["TWA"] > 100)


def line(ws, wa, a, b):
    return a * ws + b * wa


def fitted(o, p):
    o.fit(p)
    return np.array(o.optimal_params, float)


def run_pipeline(c):
    pipe = pl.PolarPipeline(
        data_handler=pc.ArrayHandler(),
        imputator=pc.RemoveOnlyImputator(),
        smoother=pc.LazySmoother(),
        pre_weigher=pc.AllOneWeigher(),
        weigher=pc.CylindricMeanWeigher(radius=2.0, norm=computing.scaled_norm(computing.euclidean_norm, [1, 0.1])),
        filter=pc.QuantileFilter(20),
        influence_model=models.IdentityInfluenceModel(),
        extension=pl.TableExtension(neighbourhood=pc.ScalingBall(3)),
    )
    return pipe


def execute(pipe, source, keys):
    out = pipe.execute([(source, keys)])
    return [out.polardiagram, stats(out.training_statistics)]


def stats(s):
    return {k: dict(getattr(s, k)) for k in ("data_handler", "imputator", "post_weigher", "post_filter") if "execution_time" not in k}


def globe(make, call, args):
    return entry(make, args, call)


def grid_model(c):
    data = np.arange(2 * 3 * 3 * 2, dtype=float).reshape(2, 3, 3, 2) + c["x"]
    args = [
        data.tolist() if c["lists"] else data,
        [T0, T0 + timedelta(hours=5)],
        [50.0, 51.0, 52.0] if c["lists"] else np.array([50.0, 51.0, 52.0]),
        [0.0, 1.0, 2.0] if c["lists"] else np.array([0.0, 1.0, 2.0]),
        ["TWS", "TWA"],
    ]
    return args, models.GriddedWeatherModel


def weather_seen(m, point):
    m.grid  # noqa: B018
    scribble(list(m.grid))
    scribble(m.data)
    scribble(m.attrs)
    return m.get_weather(point)


class Wind(models.WeatherModel):
    def get_weather(self, point):
        return {"TWS": 10.0, "TWA": 45.0}


def sailing_curve(c):
    return hp.PolarDiagramCurve(sine, *c["extra"])


def corners(c):
    return [[50.0, 1.0 + c["x"]], [50.5 + c["x"], 2.0]]


def places(c):
    a, b = corners(c)
    return [list(a), list(b)] if c["lists"] else [np.array(a), np.array(b)]


NORM = computing.scaled_norm(computing.euclidean_norm, [1 / 20, 1 / 360])
ENTRIES = {
    "true to apparent": entry(
        lambda c: ([], lambda: None), lambda c: [arr(c, c["pts"])], lambda o, a: computing.convert_true_wind_to_apparent(a)
    ),
    "apparent to true": entry(
        lambda c: ([], lambda: None), lambda c: [arr(c, c["pts"])], lambda o, a: computing.convert_apparent_wind_to_true(a)
    ),
    "euclidean norm": entry(
        lambda c: ([], lambda: None), lambda c: [np.array(c["pts"])[:, :2]], lambda o, a: computing.euclidean_norm(a)
    ),
    "scaled euclidean norm": entry(
        lambda c: ([], lambda: None), lambda c: [np.array(c["pts"])[:, :2]], lambda o, a: computing.scaled_euclidean_norm(a)
    ),
    "scaled norm": entry(
        lambda c: ([[0.5, 0.25] if c["lists"] else np.array([0.5, 0.25])], lambda s: computing.scaled_norm(computing.euclidean_norm, s)),
        lambda c: [np.array(c["pts"])[:, :2]],
        lambda o, a: o(a),
    ),
    "data to numpy": entry(
        lambda c: ([], lambda: None), lambda c: [cols(c), ["BSP", "TWS"]], lambda o, a, k: computing.data_dict_to_numpy(a, k)
    ),
    "idw": interpolation(simple(pc.IDWInterpolator)),
    "idw norm": interpolation(lambda c: ([], lambda: pc.IDWInterpolator(3, norm=NORM))),
    "mean": interpolation(simple(pc.ArithmeticMeanInterpolator, 1)),
    "mean params": interpolation(simple(pc.ArithmeticMeanInterpolator, 10.0)),
    "improved idw": interpolation(simple(pc.ImprovedIDWInterpolator)),
    "bilinear": entry(
        simple(pc.BilinearGridInterpolator),
        lambda c: [
            WeightedPoints(np.array([[4.0, 20.0, 1.5], [4.0, 60.0, 2.5], [8.0, 20.0, c["extra"][0]], [8.0, 60.0, 3.0]]), 1),
            np.array([4.0 + 4 * c["x"], 20.0 + 40 * c["x"]]),
        ],
        lambda o, w, q: o.interpolate(w, q),
    ),
    "ball": neighbourhood(simple(pc.Ball, 0.3)),
    "scaling ball": neighbourhood(lambda c: ([], lambda: pc.ScalingBall(c["n"]))),
    "ellipsoid": neighbourhood(
        lambda c: (
            [[[2.0, 0.5], [0.25, 1.0]] if c["lists"] else np.array([[2.0, 0.5], [0.25, 1.0]])],
            lambda m: pc.Ellipsoid(m, radius=0.4),
        )
    ),
    "cuboid": neighbourhood(
        lambda c: ([[0.2, 0.3] if c["lists"] else np.array([0.2, 0.3])], lambda d: pc.Cuboid(dimensions=d))
    ),
    "polytope": neighbourhood(
        lambda c: (
            [arr(c, [[1, 0], [0, 1], [-1, -0.5], [0.5, -1]]), [0.2, 0.3, 0.25, 0.1] if c["lists"] else np.array([0.2, 0.3, 0.25, 0.1])],
            pc.Polytope,
        )
    ),
    "polytope default": neighbourhood(simple(pc.Polytope)),
    "cylindric mean": weighing(
        lambda c: ([[1.0, 0.1] if c["lists"] else np.array([1.0, 0.1])], lambda s: pc.CylindricMeanWeigher(3.0, norm=computing.scaled_norm(computing.euclidean_norm, s)))
    ),
    "cylindric mean default": weighing(simple(pc.CylindricMeanWeigher, 0.4)),
    "cylindric member": weighing(simple(pc.CylindricMemberWeigher, 0.4, 0.4)),
    "cylindric mean data": weighing_data(
        lambda c: ([["TWS", "TWA", "BSP"]], lambda d: pc.CylindricMeanWeigher(0.5, dimensions=d))
    ),
    "cylindric member data": weighing_data(
        lambda c: ([["TWS", "TWA"]], lambda d: pc.CylindricMemberWeigher(0.5, 0.5, dimensions=d))
    ),
    "all one": weighing(simple(pc.AllOneWeigher)),
    "fluctuation": weighing_data(
        lambda c: ([["TWS", "BSP"], [timedelta(seconds=20)] * 2, [3.0, 5.0]], pc.FluctuationWeigher)
    ),
    "fuzzy": weighing_data(lambda c: ([], lambda: pc.FuzzyWeigher(fuzzy()))),
    "quantile": entry(
        lambda c: ([], lambda: pc.QuantileFilter(30)), lambda c: [np.array(c["w"], float)], lambda o, w: o.filter(w)
    ),
    "bound": entry(
        lambda c: ([], lambda: pc.BoundFilter(0.25, 0.75)), lambda c: [np.array(c["w"], float)], lambda o, w: o.filter(w)
    ),
    "uniform": entry(simple(pc.UniformRandomSampler, 6), lambda c: [np.array(c["pts"])[:, :2]], lambda o, p: o.sample(p)),
    "fibonacci": entry(simple(pc.FibonacciSampler, 6), lambda c: [np.array(c["pts"])[:, :2]], lambda o, p: o.sample(p)),
    "archimedean": entry(simple(pc.ArchimedeanSampler, 6), lambda c: [np.array(c["pts"])[:, :2]], lambda o, p: o.sample(p)),
    "least squares": entry(
        lambda c: ([[1.0, 0.0] if c["lists"] else np.array([1.0, 0.0])], lambda v: pc.LeastSquareRegressor(line, v)),
        lambda c: [np.array(c["pts"])],
        fitted,
    ),
    "odr": entry(
        lambda c: ([[1.0, 0.0] if c["lists"] else np.array([1.0, 0.0])], lambda v: pc.ODRegressor(line, v)),
        lambda c: [np.array(c["pts"])],
        fitted,
    ),
    "zeros": entry(simple(pc.injector.ZeroInjector, 3), lambda c: [weighted(c)], lambda o, w: o.inject(w)),
    "cloud extension": entry(
        lambda c: ([], lambda: pl.PointcloudExtension(pc.FibonacciSampler(5), pc.ScalingBall(3), pc.IDWInterpolator())),
        lambda c: [weighted(c)],
        lambda o, w: o.process(w),
    ),
    "table extension": entry(
        lambda c: (
            [([4.0, 8.0, 12.0], [20.0, 100.0, 200.0]) if c["lists"] else (np.array([4.0, 8.0, 12.0]), np.array([20.0, 100.0, 200.0]))],
            lambda r: pl.TableExtension(r, pc.ScalingBall(3), pc.IDWInterpolator()),
        ),
        lambda c: [weighted(c)],
        lambda o, w: o.process(w),
    ),
    "table extension steps": entry(
        lambda c: ([], lambda r=(4.0, 60.0): pl.TableExtension(r, pc.ScalingBall(3), pc.IDWInterpolator())),
        lambda c: [weighted(c)],
        lambda o, w: o.process(w),
    ),
    "curve extension": entry(
        lambda c: ([], lambda: pl.CurveExtension(pc.LeastSquareRegressor(line, [1.0, 0.0]), radians=c["lists"])),
        lambda c: [weighted(c)],
        lambda o, w: np.array(o.process(w).parameters, float),
    ),
    "identity influence": entry(
        simple(models.IdentityInfluenceModel), lambda c: [cols(c, c["lists"])], lambda o, d: o.remove_influence(d)
    ),
    "angle influence": entry(
        simple(models.WindAngleCorrectingInfluenceModel, wa_shift=7),
        lambda c: [cols(c, c["lists"])],
        lambda o, d: o.remove_influence(d),
    ),
    "angle influence, apparent": entry(
        simple(models.WindAngleCorrectingInfluenceModel, wa_shift=7),
        lambda c: [{k.replace("TW", "AW"): v for k, v in cols(c).items()}],
        lambda o, d: o.remove_influence(d),
    ),
    "adding influence": entry(
        simple(models.WindAngleCorrectingInfluenceModel, wa_shift=7),
        lambda c: [
            sailing_curve(c),
            {"TWS": np.array(cols(c)["TWS"]), "TWA": np.array(cols(c)["TWA"])},
        ],
        lambda o, pd, d: o.add_influence(pd, d),
    ),
    "sphere": entry(
        simple(models.SphericalGlobe),
        lambda c: places(c),
        lambda o, a, b: [o.distance(a, b), o.project(a), o.lat_lon(o.project(b)), o.shortest_path(a, b, res=c_res)],
    ),
    "mercator": entry(
        lambda c: ([(90, 0), (0, 0)], models.FlatMercatorProjection),
        lambda c: places(c),
        lambda o, a, b: [o.distance(a, b), o.project(a), o.lat_lon(o.project(b)), o.shortest_path(a, b, res=c_res)],
    ),
    "sphere projected": entry(
        simple(models.SphericalGlobe),
        lambda c: [np.array([0.0, 0.6, 0.8]) * 3437.7467707849396, np.array([0.8, 0.0, 0.6]) * 3437.7467707849396],
        lambda o, a, b: [o.lat_lon(a), o.shortest_projected_path(a, b, res=c_res)],
    ),
    "gridded weather": entry(
        grid_model,
        lambda c: [[T0 + timedelta(hours=2.5 * c["x"]), 50.0 + c["x"], 1.5]],
        weather_seen,
    ),
    "multi weather": entry(
        lambda c: ([], lambda: models.MultiWeatherModel(grid_model(c)[1](*grid_model(c)[0]), Wind())),
        lambda c: [[T0 + timedelta(hours=2.5 * c["x"]), 50.0 + c["x"], 1.5]],
        lambda o, p: o.get_weather(p),
    ),
    "convex direction": entry(
        lambda c: ([], lambda: None),
        lambda c: [pds.table(c["table"]), {"TWS": [1.0]}],
        lambda o, pd, d: cruising.convex_direction(pd, float(pd.wind_speeds[0]), float(pd.wind_angles[1]), influence_data=d),
    ),
    "cruise": entry(
        lambda c: ([], lambda: None),
        lambda c: [sailing_curve(c), *places(c), (8.0, 45.0), {"x": [1.0]}],
        lambda o, pd, a, b, w, d: cruising.cruise(pd, a, b, w, wind_fmt="ws_wan", influence_data=d),
    ),
    "cruise hdt": entry(
        lambda c: ([], lambda: None),
        lambda c: [sailing_curve(c), *places(c), (8.0, 45.0, 10.0)],
        lambda o, pd, a, b, w: cruising.cruise(pd, a, b, w, wind_fmt="ws_wa_hdt"),
    ),
    "isochrone": entry(
        lambda c: ([], lambda: Wind()),
        lambda c: [sailing_curve(c), places(c)[0]],
        lambda o, pd, a: cruising.isochrone(pd, a, T0, 40.0, o, total_time=1, min_nodes=5),
    ),
    "array handler": entry(
        simple(pc.ArrayHandler), lambda c: [(arr(c, c["pts"]), ["TWS", "TWA", "BSP"])], lambda o, d: o.handle(d)
    ),
    "data from lists": entry(
        lambda c: ([], lambda: None), lambda c: [cols(c)], lambda o, d: Data.from_dict(d)
    ),
    "data concatenated": entry(
        lambda c: ([], lambda: None), lambda c: [cols(c, True), cols(c, True)], lambda o, a, b: Data.concatenate([a, b])
    ),
    "data rows": entry(
        lambda c: ([], lambda: None),
        lambda c: [cols(c, True)],
        lambda o, a: [list(a.rows()), list(a), a.numerical[1], a.keys(), a[["TWS"]], a[[True, False] * (a.n_rows // 2) + [False] * (a.n_rows % 2)]],
    ),
    "weather of numbers": entry(
        lambda c: ([], lambda: pl.WeatherExpander(Wind())),
        lambda c: [],
        lambda o: o.expand(Data.from_dict({"datetime": [T0], "lat": [50.0], "lon": [1.0]})),
    ),
    "pipeline": entry(
        lambda c: ([], lambda: run_pipeline(c)),
        lambda c: [arr(c, c["pts"]), ["TWS", "TWA", "BSP"]],
        execute,
    ),
}
c_res = 5
OWNERS = ["gridded weather"]


@REG.facet(
    pools(),
    quick=2500,
    rule="one of %s functions and components (wind conversion, norms,"
    " interpolators, neighbourhoods, weighers, filters, samplers, regressors,"
    " injector, extensions, influence, globe and weather models, cruising, data,"
    " pipeline) with generated arguments, as arrays and lists: called three"
    " times, another instance on other arguments in between, results and"
    " arguments overwritten; non-trivial: always" % len(ENTRIES),
)
def components(c, cx):
    name = c["name"]
    make, args, call = ENTRIES[name]
    cx.label(name)
    cx.nontrivial()
    cargs, build = make(c)
    want_cargs = snap(make(c)[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        obj = build(*cargs)
        expect(snap(cargs) == want_cargs, "%s: constructing changed the arguments to %s", name, cargs)

        def run(o, a):
            with seeded(c["seed"]):
                return call(o, *a)

        a = args(c)
        want_args = snap(a)
        first = run(obj, a)
        s = snap(first)
        expect(snap(a) == want_args, "%s changed its arguments to %s", name, a)
        expect(snap(cargs) == want_cargs, "%s changed the arguments of its constructor to %s", name, cargs)
        second = run(obj, a)
        expect(near(snap(second), s), "%s: first %s, then %s", name, first, second)
        expect(snap(first) == s, "%s: the next call changed the earlier result to %s", name, first)
        expect(snap(a) == want_args, "%s changed its arguments to %s", name, a)
        if not isinstance(second, Data):
            scribble(second)
        expect(snap(a) == want_args, "%s: overwriting the result changed the arguments to %s", name, a)
        expect(snap(first) == s, "%s: overwriting a result changed an earlier one", name)
        expect(near(snap(run(obj, args(c))), s), "%s: overwriting a result changed the next one", name)
        # another instance, other data
        other = dict(c, pts=[[p[0] + 1.5, (p[1] + 77) % 360, p[2] + 1] for p in c["pts"]], x=1 - c["x"], w=c["w"][::-1])
        cargs2, build2 = make(other)
        obj2 = build2(*cargs2)
        try:
            run(obj2, args(other))
        except ValueError:
            cx.label("other data refused")
        expect(near(snap(run(obj, args(c))), s), "%s: another instance changed the result", name)
        for x in a:
            if not isinstance(x, hp.PolarDiagram):
                scribble(x)
        expect(snap(first) == s, "%s: overwriting the arguments changed the result to %s", name, first)
        if name not in OWNERS:
            return  # may keep its configuration
        scribble(cargs)
        third = run(obj, args(c))
        expect(
            near(snap(third), s),
            "%s: overwriting the arguments of the constructor changed the result from %s to %s",
            name,
            first,
            third,
        )


@REG.facet(
    st.fixed_dictionaries({"pd": diagrams(multi=False), "fmt": st.just("hro")}),
    quick=150,
    rule="diagrams saved and read twice; non-trivial: always",
)
def reading(c, cx):
    if c["pd"]["kind"] == "curve":
        pd = hp.PolarDiagramCurve(mf.ws_times_wa, c["pd"]["params"][0])
    else:
        pd = construct(c["pd"])[0]
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "pd.csv")
        pd.to_csv(p)
        raw = open(p, "rb").read()
        a, b = hp.from_csv(p), hp.from_csv(p)
        before = full(b)
        expect(full(a) == before, "read as %s and %s", a, b)
        scribble(a)
        expect(full(b) == before, "editing one diagram changed another one read from the same file")
        expect(open(p, "rb").read() == raw, "reading changed the file")
    cx.nontrivial()


# ---- large ----
def big_pool(only):
    def expand(r, n):
        pts = [[2.0, 10.0], [18.0, 40.0], [7.0, 300.0], [14.0, 200.0]] + [list(p) for p in r.uniq(n, lambda: (r.grid(1, 20, 4), r.grid(0, 359, 4)))]
        ws, wa = sorted(r.uniq(5, lambda: r.num(1, 30))), sorted(r.uniq(n, lambda: r.num(0, 359)))
        return {
            "name": r.choice(only), "pts": [[*p, r.num(0.5, 15)] for p in pts], "w": [r.grid(0, 1) for _ in pts],
            "table": {"ws": ws, "wa": wa, "bsp": [[r.num(1, 15) for _ in ws] for _ in wa]}, "x": r.grid(0, 1, 8), "n": r.randint(2, 5),
            "lists": r.random() < 0.5, "seed": r.randrange(10**6), "extra": [r.num(0.1, 2) for _ in range(3)],
        }
    return expand


big.large(REG, components, big_pool(sorted(ENTRIES)), lo=12, hi=150, quick=150, what="points")
