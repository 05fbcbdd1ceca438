"""C38: results depend on the numbers given, not on their type or memory layout."""
import copy
import warnings
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import QhullError

import hrosailing.processing as pc
from checks import c35
from checks.c21 import seeded
from checks.c35 import entry, sailing_curve, simple
from harness import gen
from harness.core import Registry, Violation, expect
from hrosailing import cruising, models
from hrosailing import polardiagram as hp
from hrosailing.core.data import Data, WeightedPoints

REG = Registry(
    "C38",
    [
        "whole numbers given as int, float64, big-endian or NumPy scalars, in"
        " contiguous, Fortran-ordered, strided, reversed and read-only arrays"
        " (not single precision); rounding differences of 1e-7 are allowed",
        "functions that ask for numpy.ndarray are given arrays, those that ask"
        " for array_like also lists and tuples; columns of Data objects keep"
        " their type by design and stay as they are",
    ],
)


def cols(c, keys=("TWS", "TWA", "BSP")):
    return {k: [p[i] for p in c["pts"]] for i, k in enumerate(keys)}


# components with a configuration that is not made of whole numbers
OWN = {
    "angle influence": entry(
        simple(models.WindAngleCorrectingInfluenceModel, wa_shift=7.25),
        lambda c: [cols(c)],
        lambda o, d: o.remove_influence(d),
    ),
    "angle influence, apparent": entry(
        simple(models.WindAngleCorrectingInfluenceModel, wa_shift=-0.5),
        lambda c: [cols(c, ("AWS", "AWA", "SOG"))],
        lambda o, d: o.remove_influence(d),
    ),
    "adding influence": entry(
        simple(models.WindAngleCorrectingInfluenceModel, wa_shift=7.25),
        lambda c: [sailing_curve(c), {k: np.array(v) for k, v in cols(c).items()}],
        lambda o, pd, d: o.add_influence(pd, d),
    ),
    "fitting the wind angle": entry(
        simple(models.WindAngleCorrectingInfluenceModel, interval_size=40),
        lambda c: [cols(dict(c, pts=c["pts"][:5]))],
        lambda o, d: (o.fit(d), o.remove_influence(d))[1],
    ),
    "interpolation with weights": entry(
        simple(pc.IDWInterpolator, 1),
        lambda c: [np.array(c["pts"], float), np.array(c["w"], float) + 1, np.array([2.0 + c["x"], 30.0])],
        lambda o, p, w, q: o.interpolate(WeightedPoints(p, w), q),
    ),
    "extending weighted points": entry(
        lambda c: ([], lambda: None),
        lambda c: [np.array(c["pts"], float), np.array(c["w"], float), np.array([[1.5, 2.25, 3.125]]), np.array([0.5])],
        lambda o, p, w, q, v: extended(p, w, q, v),
    ),
    "multilinear weather": entry(
        lambda c: (
            [np.array(c["grid"], float), [c35.T0, c35.T0 + timedelta(hours=5)], np.array([50.0, 51.0]), np.array([1.0, 3.0]), ["a", "b"]],
            models.GriddedWeatherModel,
        ),
        lambda c: [[c35.T0 + timedelta(hours=1.25), 50.25, 1.5]],
        lambda o, p: o.get_weather(p),
    ),
    "weights for the quantile": entry(
        lambda c: ([], lambda: pc.QuantileFilter(30)), lambda c: [np.array(c["w"], float)], lambda o, w: o.filter(w)
    ),
    "array handler": entry(
        simple(pc.ArrayHandler),
        lambda c: [c35.arr(c, c["pts"])],
        lambda o, d: {k: list(v) for k, v in o.handle((d, ["TWS", "TWA", "BSP"])).data.items()},
    ),
    "cruise": entry(
        lambda c: ([], lambda: None),
        lambda c: [sailing_curve(c), [1.0 + c["x"], 50.0], [2.0, 51.0 + c["x"]], (8.0, 45.0)],
        lambda o, pd, a, b, w: cruising.cruise(pd, a, b, w, wind_fmt="ws_wan"),
    ),
    "cruise grib": entry(
        lambda c: ([], lambda: None),
        lambda c: [sailing_curve(c), [1.0 + c["x"], 50.0], [2.0, 51.0 + c["x"]], (3.0, -4.0)],
        lambda o, pd, a, b, w: cruising.cruise(pd, a, b, w, wind_fmt="uv_grd"),
    ),
    "isochrone": entry(
        lambda c: ([], lambda: c35.Wind()),
        lambda c: [sailing_curve(c), [50.0, 1.0 + c["x"]], 40.0],
        lambda o, pd, a, b: cruising.isochrone(pd, a, c35.T0, b, o, total_time=2, min_nodes=5),
    ),
    "sphere": entry(
        simple(models.SphericalGlobe),
        lambda c: [np.array([50.0, 1.0 + c["x"]]), np.array([51.0 + c["x"], 2.0])],
        lambda o, a, b: [o.distance(a, b), o.project(a), o.lat_lon(o.project(b)), o.shortest_path(a, b, res=5)],
    ),
    "mercator": entry(
        lambda c: ([(90.0, 0.0), (0.0, 0.0)], models.FlatMercatorProjection),
        lambda c: [np.array([[50.0, 1.0 + c["x"]], [2.0, 3.0]]), np.array([51.0 + c["x"], 2.0])],
        lambda o, a, b: [o.project(a), o.distance(a[0], b), o.shortest_path(a[0], b, res=5)],
    ),
}
# results that are no numbers, random or documented for Data only
LEFT_OUT = {
    "data from lists", "data concatenated", "data rows", "pipeline", "multi weather", "gridded weather",
    "weather of numbers", "fuzzy", "fluctuation", "cylindric mean data", "cylindric member data",
    "sphere projected", "convex direction", "cruise hdt", "identity influence",
}
ENTRIES = {k: v for k, v in c35.ENTRIES.items() if k not in LEFT_OUT}
ENTRIES.update(OWN)
# documented as array_like, or as sequences
ANY = {
    "true to apparent", "apparent to true", "sphere", "mercator", "cruise", "cruise grib", "isochrone",
    "array handler", "multilinear weather",
}
LAYOUTS = ["plain", "fortran", "strided", "reversed", "read-only", "big-endian"]


def extended(p, w, q, v):
    a = WeightedPoints(p, w)
    a.extend(WeightedPoints(q, v))
    return [a.data, a.weights]


def lay(a, layout):
    if layout == "fortran":
        return np.asfortranarray(a)
    if layout == "strided":
        big = np.full([2 * n for n in a.shape], 99, a.dtype)
        at = tuple(slice(0, 2 * n, 2) for n in a.shape)
        big[at] = a
        return big[at]
    if layout == "reversed":
        at = (slice(None, None, -1),) * a.ndim
        return np.ascontiguousarray(a[at])[at]
    if layout == "read-only":
        a = a.copy()
        a.flags.writeable = False
        return a
    if layout == "big-endian":
        return a.astype(a.dtype.newbyteorder(">"))
    return a.copy()


def whole(x):
    return float(x).is_integer()


def recast(x, form):
    """the same numbers in another form"""
    if isinstance(x, (hp.PolarDiagram, Data, str, datetime, timedelta, bool)) or x is None or callable(x):
        return x
    if isinstance(x, WeightedPoints):
        return WeightedPoints(recast(np.asarray(x.data), dict(form, seq=None)), recast(np.asarray(x.weights), dict(form, seq=None)))
    if isinstance(x, np.ndarray):
        if form["int"] and x.dtype.kind == "f" and np.all(x == np.round(x)):
            x = x.astype(form["int"])
        if form["seq"]:
            return sequence(x.tolist(), form["seq"])
        return lay(x, form["layout"])
    if isinstance(x, dict):
        return {k: recast(v, form) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(recast(v, form) for v in x)
    if isinstance(x, (int, float)):
        if form["int"] and whole(x):
            return np.dtype(form["int"]).type(x) if form["scalars"] else int(x)
        return np.float64(x) if form["scalars"] else x
    return x


def sequence(x, seq):
    return seq(sequence(v, seq) for v in x) if isinstance(x, list) else x


def numbers(x):
    """plain, comparable results"""
    if isinstance(x, WeightedPoints):
        return [numbers(x.data), numbers(x.weights)]
    if isinstance(x, hp.PolarDiagramTable):
        return numbers([x.wind_speeds, x.wind_angles, x.boat_speeds])
    if isinstance(x, hp.PolarDiagramPointcloud):
        return numbers(x.points)
    if isinstance(x, hp.PolarDiagramMultiSails):
        return [list(x.sails), numbers(list(x.diagrams))]
    if isinstance(x, np.ndarray):
        return numbers(x.tolist())
    if isinstance(x, np.generic):
        return numbers(x.item())
    if isinstance(x, (list, tuple)):
        return [numbers(v) for v in x]
    if isinstance(x, dict):
        return {str(k): numbers(v) for k, v in x.items()}
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return float(x)
    return type(x).__name__


def near(a, b, tol=1e-7):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * (1 + abs(a))
    return a == b


@st.composite
def forms(draw, seq=False):
    f = {
        "int": draw(st.sampled_from(["int64", "int64", "int32", None])),
        "layout": draw(st.sampled_from(LAYOUTS)),
        "scalars": draw(st.booleans()),
        "seq": draw(st.sampled_from([None, "list", "tuple"])) if seq else None,
    }
    return f


def used(form):
    return dict(form, seq={"list": list, "tuple": tuple}.get(form["seq"]))


@st.composite
def pools(draw):
    name = draw(st.sampled_from(sorted(ENTRIES)))
    n = draw(st.integers(3, 7))
    num = st.tuples(st.integers(1, 20), st.integers(0, 359)).map(list)
    pts = [[2, 10], [18, 40], [7, 300], [14, 200]] + draw(gen.uniq(num, n, n, key=tuple))
    return {
        "name": name,
        "pts": [[float(v) for v in p] + [float(draw(st.integers(1, 15)))] for p in pts],
        "w": [float(draw(st.integers(0, 3))) for _ in pts],
        "x": draw(st.sampled_from([0.0, 1.0])),
        "n": draw(st.integers(2, 5)),
        "grid": np.array([draw(st.integers(-9, 9)) for _ in range(16)], float).reshape(2, 2, 2, 2).tolist(),
        "lists": False,
        "seed": draw(st.integers(0, 10**6)),
        "extra": [draw(st.sampled_from([0.5, 1.0, 2.0])) for _ in range(3)],
        "form": draw(forms(name in ANY)),
        "ctor": draw(st.booleans()),
    }


def outcome(fn):
    """-> result as plain numbers, or the class of the refusal"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return numbers(fn())
        except (ValueError, TypeError, RuntimeError, ZeroDivisionError, IndexError, AttributeError, QhullError) as e:
            if isinstance(e, Violation):
                raise
            return f"{type(e).__name__}: {str(e)[:80]}"


@REG.facet(
    pools(),
    quick=2500,
    rule="one of %s functions and components with generated whole numbers, once as"
    " contiguous float64 arrays and once in another form; non-trivial: the"
    " reference run gave a result" % len(ENTRIES),
)
def components(c, cx):
    name = c["name"]
    make, args, call = ENTRIES[name]
    cx.label(name)
    form = used(c["form"])

    def run(form):
        def go():
            cargs, build = make(copy.deepcopy(c))
            a = args(copy.deepcopy(c))
            if form:
                if c["ctor"]:
                    cargs = recast(cargs, form)
                a = recast(a, form)
            o = build(*cargs)
            with seeded(c["seed"]):
                return call(o, *a)

        return outcome(go)

    want, got = run(None), run(form)
    cx.nontrivial(not isinstance(want, str))
    if isinstance(want, str) and isinstance(got, str):
        return
    expect(near(want, got), "%s as %s: %s, as float64 arrays: %s", name, c["form"], got, want)


# ---- polar diagrams ----
@st.composite
def diagram_cases(draw):
    kind = draw(st.sampled_from(["table", "table", "cloud", "cloud", "curve", "multi"]))
    ws = sorted(draw(gen.uniq(st.integers(1, 30), 2, 4)))
    wa = sorted(draw(gen.uniq(st.integers(0, 180), 2, 5)))
    rows = [[draw(st.integers(0, 15)) for _ in ws] for _ in wa]
    pts = draw(gen.uniq(st.tuples(st.integers(1, 20), st.integers(-360, 720), st.integers(0, 12)).map(list), 4, 8, key=tuple))
    return {
        "kind": kind,
        "ws": ws,
        "wa": wa,
        "rows": rows,
        "pts": pts,
        "apparent": draw(st.booleans()),
        "more": [[draw(st.integers(1, 20)), draw(st.integers(-360, 720)), draw(st.sampled_from([0.5, 3.25, 4]))]],
        "value": draw(st.sampled_from([5, 0.5, 7.75])),
        "at": [draw(st.integers(0, 3)), draw(st.integers(0, 4))],
        "wind": [[draw(st.integers(1, 20)), draw(st.integers(0, 359))] for _ in range(3)],
        "steps": draw(st.sampled_from([None, 1, 2])),
        "form": draw(forms(True)),
        "query": draw(forms(True)),
    }


def floats(x):
    return np.array(x, float)


def whole_run(c, form, query):
    """-> everything seen of the diagrams, as plain numbers"""
    f = (lambda x: recast(floats(x), form)) if form else floats
    q = (lambda x: recast(floats(x), dict(query, seq=None))) if query else floats
    s = (lambda x: recast(float(x), query)) if query else float

    def table():
        return hp.PolarDiagramTable(f(c["ws"]), f(c["wa"]), f(c["rows"]))

    def cloud():
        return hp.PolarDiagramPointcloud(f(c["pts"]), apparent_wind=c["apparent"])

    def curve():
        return hp.PolarDiagramCurve(c35.sine, 0.5, 1, 2)

    def multi():
        rows = [[v + 1 for v in r] for r in c["rows"]]
        return hp.PolarDiagramMultiSails([table(), hp.PolarDiagramTable(f(c["ws"]), f(c["wa"]), f(rows))], ["A", "B"])

    out = []

    def see(what, fn):
        out.append([what, outcome(fn)])

    make = {"table": table, "cloud": cloud, "curve": curve, "multi": multi}[c["kind"]]
    see("construction", make)
    pd = make()
    see("slices", lambda: pd.get_slices(q(c["ws"]), c["steps"] if c["kind"] != "table" else None))
    see("one slice", lambda: pd.get_slices(s(c["ws"][0])))
    see("points", lambda: pd.get_points(q(c["wind"])))
    see("grid", lambda: pd.get_points((q(c["ws"]), q(c["wa"]))))
    if c["kind"] != "multi":
        near_ws, near_wa = (c["ws"][0], c["wa"][-1]) if c["kind"] == "table" else c["wind"][0]
        kw = {}
        if c["kind"] == "cloud":
            kw = {"interpolator": pc.IDWInterpolator(), "neighbourhood": pc.ScalingBall(3)}
        see("value", lambda: pd(s(near_ws), s(near_wa), **kw))
    if c["kind"] == "curve":
        see("values", lambda: pd(q([w[0] for w in c["wind"]]), q([w[1] for w in c["wind"]])))
    if c["kind"] == "table":
        i, j = c["at"][0] % len(c["ws"]), c["at"][1] % len(c["wa"])
        pd.change_entries(c["value"], ws=s(c["ws"][i]), wa=s(c["wa"][j]))
        see("changed entry", lambda: pd)
        pd.change_entries(f([c["value"]] * len(c["ws"])), wa=s(c["wa"][j]))
        see("changed row", lambda: pd)
        pd.change_entries(f([[v + 0.5 for v in r] for r in c["rows"]]))
        see("changed table", lambda: pd)
        see("entry", lambda: pd[s(c["ws"][i]), s(c["wa"][j])])
    if c["kind"] == "cloud":
        pd.add_points(f(c["more"]))
        see("added points", lambda: pd)
    if c["kind"] != "curve":
        see("symmetrised", pd.symmetrize)
    if c["kind"] in ("table", "multi"):
        see("convex direction", lambda: [[d.angle, d.proportion] for d in cruising.convex_direction(pd, s(c["ws"][0]), s(c["wa"][-1]))])
    return out


@REG.facet(
    diagram_cases(),
    quick=2000,
    rule="tables, clouds, curves and multi-sail diagrams of whole numbers, built,"
    " read, edited (also with fractions) and evaluated from float64 arrays and"
    " from another form; non-trivial: whole numbers given as integers",
)
def diagrams(c, cx):
    form, query = used(c["form"]), used(c["query"])
    cx.label(c["kind"], str(c["form"]["int"]), c["form"]["seq"] or c["form"]["layout"])
    cx.nontrivial(bool(form["int"] or query["int"]))
    want = whole_run(c, None, None)
    got = whole_run(c, form, query)
    for (what, a), (_, b) in zip(want, got):
        if isinstance(a, str) and isinstance(b, str):
            continue
        expect(near(a, b), "%s of a %s as %s: %s, as float64 arrays: %s", what, c["kind"], c["form"], b, a)
