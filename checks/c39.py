"""C39: operations that are refused leave everything as it was."""
import copy
import functools
import math
import os
import tempfile
import warnings
from datetime import datetime

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import QhullError

import hrosailing.processing as pc
from checks import c35
from checks.c21 import seeded
from checks.c35 import near, snap
from harness import gen
from harness.core import Registry, Violation, expect
from hrosailing import cruising, models, pipeline as pl
from hrosailing import polardiagram as hp
from hrosailing.core.data import Data, WeightedPoints

REG = Registry(
    "C39",
    [
        "refused means that an exception is raised; which inputs are refused is"
        " only fixed where another property says so",
        "errors of the operating system in the middle of writing a file are not"
        " injected",
        "samplers are not given NaN or nested points (scipy crashes)",
    ],
)


def refused(fn):
    """-> the exception, None if the call went through"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn()
        except Violation:
            raise
        except Exception as e:
            return e
    return None


# ---- Data ----
VALUES = {
    "float": lambda i: 0.5 + i,
    "int": lambda i: i,
    "str": lambda i: f"t{i}",
    "date": lambda i: datetime(2022, 1, 1 + i % 28),
}


@st.composite
def columns(draw, names, n):
    return {
        k: [draw(st.sampled_from(sorted(VALUES))), [draw(st.one_of(st.none(), st.integers(0, 9))) for _ in range(n)]]
        for k in names
    }


@st.composite
def data_cases(draw):
    names = draw(st.lists(st.sampled_from(["TWS", "TWA", "BSP", "time of day", "x"]), min_size=1, max_size=4, unique=True))
    n = draw(st.integers(0, 4))
    more = draw(st.lists(st.sampled_from(names + ["new", "other"]), min_size=1, max_size=5, unique=True))
    ops = st.fixed_dictionaries(
        {
            "op": st.sampled_from(["update", "update", "update data", "compress", "compress", "append", "extend", "rename", "delete", "delete many"]),
            "cols": columns(more, draw(st.integers(1, 3))),
            "bad": st.integers(0, 9),
            "scalar": st.booleans(),
            "mixed": st.booleans(),
        }
    )
    return {"cols": draw(columns(names, n)), "ops": draw(st.lists(ops, min_size=1, max_size=5))}


def values(col):
    return [None if i is None else VALUES[col[0]](i) for i in col[1]]


def data_op(d, o):
    new = {k: values(c) for k, c in o["cols"].items()}
    keys = list(new)
    k = keys[o["bad"] % len(keys)]
    if o["mixed"]:
        # a column of several types
        new[k] = [1.5, "mixed"] + new[k]
    op = o["op"]
    if op in ("update", "compress"):
        if o["scalar"] and not o["mixed"]:
            new = {x: c[0] for x, c in new.items()}
        return lambda: d.update(new, op == "compress")
    if op == "update data":
        if o["mixed"]:
            new[k] = new[k][2:]
        other = Data.from_dict(new)
        return lambda: d.update(other)
    if op == "append":
        return lambda: d.append(k, new[k][0])
    if op == "extend":
        return lambda: d.extend(k, new[k])
    if op == "rename":
        return lambda: d.rename(k, keys[-1] if o["scalar"] else "TWS")
    if op == "delete":
        return lambda: d.delete(k)
    return lambda: d.delete(keys)


def content(d):
    return {k: list(d[k]) for k in d.keys()}, {k: d.type(k) for k in d.keys()}, d.n_rows, d.n_cols


@REG.facet(
    data_cases(),
    quick=3000,
    rule="1-5 operations on data of 1-4 columns, updates of several columns of"
    " which one may not fit in; non-trivial: an operation on several columns was"
    " refused",
)
def data(c, cx):
    d = Data.from_dict({k: values(v) for k, v in c["cols"].items()})
    for o in c["ops"]:
        before = content(d)
        e = refused(data_op(d, o))
        if e is None:
            # appending to single columns leaves short ones
            d.fill()
            continue
        cx.label("refused " + o["op"])
        cx.nontrivial(len(o["cols"]) > 1 and d.n_cols > 1)
        got = content(d)
        expect(got == before and list(got[0]) == list(before[0]), "%s %s was refused (%s), but the data is now %s, before %s",
               o["op"], {k: values(v) for k, v in o["cols"].items()}, repr(e)[:80], got, before)
        expect(len(list(d.rows())) == d.n_rows, "rows")


# ---- polar diagrams ----
JUNK = {
    "none": None,
    "text": "x",
    "nan": math.nan,
    "infinite": math.inf,
    "negative": -1.0,
    "empty": [],
    "list of text": ["a", "b"],
    "nan list": [math.nan, 1.0],
    "row": [5.0, 6.0, 7.0],
    "rows": [[5.0, 6.0, 7.0], [8.0, 9.0, math.nan]],
    "good and bad rows": [[5.0, 6.0, 7.0], [-8.0, 9.0, 1.0]],
    "ragged": [[5.0, 6.0, 7.0], [8.0]],
    "text in rows": [[5.0, 6.0, 7.0], [8.0, 9.0, "x"]],
    "four columns": [[5.0, 6.0, 7.0, 8.0]],
    "cube": [[[5.0]]],
    "object": {},
}


@st.composite
def diagram_cases(draw):
    return {
        "pd": draw(c35.diagrams()),
        "ops": draw(
            st.lists(
                st.fixed_dictionaries(
                    {
                        "op": st.sampled_from(["edit", "edit", "edit at", "add", "add", "call", "index", "slices", "points", "write", "symmetrize", "convex", "cruise"]),
                        "junk": st.sampled_from(sorted(JUNK)),
                        "more": st.sampled_from(sorted(JUNK)),
                        "k": st.integers(0, 5),
                        "array": st.booleans(),
                    }
                ),
                min_size=1,
                max_size=6,
            )
        ),
    }


def junk(o, key="junk"):
    x = copy.deepcopy(JUNK[o[key]])
    if o["array"] and isinstance(x, list):
        try:
            return np.array(x)
        except ValueError:
            return np.array(x, dtype=object)
    return x


def diagram_op(pd, o):
    x, y = junk(o), junk(o, "more")
    op = o["op"]
    args = [x, y]
    table = isinstance(pd, hp.PolarDiagramTable)
    if op == "edit":
        if table:
            # too many or too few values, or values that are no numbers
            block = [list(map(float, r)) for r in pd.boat_speeds]
            if o["k"] == 1:
                block = block[:-1] or [[]]
            elif o["k"] == 2:
                block[-1] = block[-1][:-1]
            elif o["k"] == 3:
                block[-1][-1] = "x"
            elif o["k"] == 4:
                block[-1][-1] = math.nan
            elif o["k"] == 5:
                block = [r + [1.0] for r in block]
            block = [[7.25 if isinstance(v, float) and v == v else v for v in r] for r in block] if o["k"] else x
            args = [block]
            return args, lambda: pd.change_entries(block)
        return args, lambda: pd.change_entries(x, y)
    if op == "edit at":
        ws, wa = (list(pd.wind_speeds), list(pd.wind_angles)) if table else ([1.0], [1.0])
        # a known wind and one that is not in the table
        at = ([ws[0], 999.0], [wa[0]]) if o["k"] % 2 else ([ws[0]], [wa[0], 500.25])
        args = [x, *at]
        new = [1.5, 2.5] if o["k"] < 4 else x
        return args, lambda: pd.change_entries(new, ws=at[0], wa=at[1])
    if op == "add":
        return args, lambda: pd.add_points(x, o["k"] == 1)
    if op == "call":
        good = 5.0 if o["k"] % 2 else x
        return args, lambda: pd(good, y)
    if op == "index":
        return args, lambda: pd[x, y]
    if op == "slices":
        return args, lambda: pd.get_slices(x, y if o["k"] % 2 else None)
    if op == "points":
        return args, lambda: pd.get_points((x, y) if o["k"] % 2 else x)
    if op == "symmetrize":
        return args, lambda: pd.symmetrize()
    if op == "convex":
        return args, lambda: cruising.convex_direction(pd, x, y)
    if op == "cruise":
        return args, lambda: cruising.cruise(pd, x, y, (5.0, 10.0))
    return args, None


@REG.facet(
    diagram_cases(),
    quick=2500,
    rule="1-6 operations on diagrams of all kinds with arguments that are no"
    " winds, no boat speeds, of other shapes or partly wrong; non-trivial: an"
    " edit was refused",
)
def diagrams(c, cx):
    pd = c35.construct(c["pd"])[0]
    for o in c["ops"]:
        args, fn = diagram_op(pd, o)
        if fn is None:
            with tempfile.TemporaryDirectory() as tmp:
                path = os.path.join(tmp, "missing", "x.csv") if o["k"] % 2 else tmp
                fn = functools.partial(pd.to_csv, path)
                before = snap(pd)
                e = refused(fn)
                expect(e is not None, "writing to %s went through", path)
                expect(snap(pd) == before, "refused writing changed the diagram")
                continue
        before, given = snap(pd), snap(args)
        e = refused(fn)
        expect(snap(args) == given, "%s changed its arguments", o["op"])
        if e is None:
            cx.label("accepted " + o["op"])
            if o["op"] in ("edit", "edit at", "add"):
                return
            continue
        if not isinstance(e, AttributeError):
            cx.label("refused " + o["op"])
            cx.nontrivial(o["op"] in ("edit", "edit at", "add"))
        expect(snap(pd) == before, "%s with %s was refused (%s), but changed the diagram", o["op"], args, repr(e)[:80])


# ---- components ----
BREAK = [
    "none", "text", "nan", "fewer columns", "more columns", "no rows", "flat", "strings", "missing key",
    "short column", "text in column", "none in column", "number", "three deep",
]


def broken(x, how, k):
    """x, but not quite"""
    if how == "none":
        return None
    if how == "text":
        return "text"
    if how == "number":
        return -3.5
    if isinstance(x, WeightedPoints):
        if k % 2:
            return WeightedPoints(x.data, broken(np.asarray(x.weights, float), how, k))
        return WeightedPoints(broken(x.data, how, k), x.weights)
    if isinstance(x, (dict, Data)):
        d = {key: list(x[key]) for key in x.keys()}
        key = sorted(d)[k % len(d)] if d else None
        if key is not None:
            if how == "missing key":
                del d[key]
            elif how == "short column":
                d[key] = d[key][:-1]
            elif how == "text in column":
                d[key] = ["text"] * len(d[key])
            elif how == "none in column":
                d[key] = [None] * len(d[key])
            elif how == "no rows":
                d = {q: [] for q in d}
        return Data.from_dict(d) if isinstance(x, Data) else d
    if isinstance(x, (list, np.ndarray)) and not any(isinstance(v, (str, datetime)) for v in x):
        try:
            a = np.array(x, float)
        except (TypeError, ValueError):
            return None
        if how == "nan" and a.size:
            a.flat[k % a.size] = math.nan
        elif how == "fewer columns":
            a = a[..., :-1]
        elif how == "more columns" and a.ndim:
            a = np.concatenate([a, a], axis=-1)
        elif how == "no rows":
            a = a[:0]
        elif how == "flat":
            a = a.ravel()
        elif how == "strings":
            a = a.astype(str)
        elif how == "three deep":
            a = a[None]
        return a.tolist() if isinstance(x, list) else a
    if isinstance(x, (list, tuple)) and len(x):
        i = k % len(x)
        return type(x)(broken(v, how, k) if j == i else v for j, v in enumerate(x))
    return None


@st.composite
def component_cases(draw):
    return dict(
        draw(c35.pools()),
        tries=draw(
            st.lists(
                st.tuples(st.sampled_from(BREAK), st.integers(0, 9), st.integers(0, 3)).map(list), min_size=1, max_size=5
            )
        ),
    )


@REG.facet(
    component_cases(),
    quick=1500,
    rule="%s components and functions called with 1-5 broken arguments between"
    " two calls with correct ones; non-trivial: a broken call was refused" % len(c35.ENTRIES),
)
def components(c, cx):
    name = c["name"]
    make, args, call = c35.ENTRIES[name]
    cargs, build = make(copy.deepcopy(c))

    def good():
        with seeded(c["seed"]), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return snap(call(o, *args(copy.deepcopy(c))))

    try:
        o = build(*cargs)
        first = good()
    except (ValueError, TypeError, RuntimeError, ZeroDivisionError, IndexError, AttributeError, QhullError) as e:
        if isinstance(e, Violation):
            raise
        cx.label("the correct call is refused")
        return
    conf = snap(cargs)
    for how, k, i in c["tries"]:
        a = args(copy.deepcopy(c))
        if not a:
            break
        if how in ("nan", "three deep") and name in ("uniform", "fibonacci", "archimedean", "cloud extension"):
            # no end of the search for a circle; scipy's ConvexHull crashes on nested points
            continue
        i %= len(a)
        if isinstance(a[i], hp.PolarDiagram) or callable(a[i]):
            i = (i + 1) % len(a)
        a[i] = broken(a[i], how, k)
        given = snap(a)
        with seeded(c["seed"]):
            e = refused(lambda: call(o, *a))
        if e is None:
            continue
        cx.label("refused")
        cx.nontrivial(True)
        expect(near(snap(a), given), "%s was refused (%s), but changed its arguments", name, repr(e)[:80])
        expect(snap(cargs) == conf, "%s was refused, but changed what it was constructed from", name)
        then = good()
        expect(near(then, first), "%s gives %s after a refused call (%s of argument %s: %s), before %s", name, then, how, i, repr(e)[:80], first)
    cx.label(name)


# ---- fitting ----
def line(ws, wa, a, b):
    return a * ws + b * wa


FITTED = {
    "least squares": lambda: pc.LeastSquareRegressor(line, [1.0, 0.5]),
    "odr": lambda: pc.ODRegressor(line, [1.0, 0.5]),
    "angles": lambda: models.WindAngleCorrectingInfluenceModel(interval_size=40),
}


@st.composite
def fit_cases(draw):
    n = draw(st.integers(4, 7))
    return {
        "name": draw(st.sampled_from(sorted(FITTED))),
        "pts": [[draw(gen.grid(1, 20, 4)), draw(gen.grid(0, 359, 4)), draw(gen.nice(0.5, 15))] for _ in range(n)],
        "how": draw(st.sampled_from(BREAK)),
        "k": draw(st.integers(0, 9)),
    }


@REG.facet(
    fit_cases(),
    quick=400,
    rule="regressors and the angle-correcting influence model, fitted to data and"
    " then to broken data; non-trivial: the broken data was refused",
)
def fits(c, cx):
    o = FITTED[c["name"]]()
    model = c["name"] == "angles"
    pts = np.array(c["pts"])
    table = {k: pts[:, i].tolist() for i, k in enumerate(("TWS", "TWA", "BSP"))}
    good = table if model else pts

    def state():
        if model:
            return snap(o.remove_influence(table))
        return snap([list(map(float, o.optimal_params)), [float(o.model_func(w, a, *o.optimal_params)) for w, a, _ in c["pts"]]])

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o.fit(copy.deepcopy(good))
    before = state()
    bad = broken(good, c["how"], c["k"])
    given = snap(bad)
    e = refused(lambda: o.fit(bad))
    if e is None:
        cx.label("broken data was accepted")
        return
    cx.label(c["name"])
    cx.nontrivial(True)
    expect(near(snap(bad), given), "refused fit changed its data")
    expect(near(state(), before), "%s: a refused fit (%s: %s) changed the fitted %s to %s", c["name"], c["how"], repr(e)[:80], before, state())


# ---- weighted points ----
@st.composite
def joins(draw):
    kinds = ["array", "data", "dict"]
    return {
        "a": draw(st.sampled_from(kinds)),
        "b": draw(st.sampled_from(kinds)),
        "n": draw(st.integers(1, 3)),
        "m": draw(st.integers(1, 3)),
        "cols": draw(st.integers(2, 4)),
        "text": draw(st.booleans()),
        "weights": draw(st.sampled_from(["fine", "fine", "deep", "text"])),
    }


def weighted(kind, n, cols, text):
    if kind == "array":
        return np.arange(float(n * cols)).reshape(n, cols)
    d = {"ABCD"[j]: [f"t{i}" if text and j == cols - 1 else float(i + j) for i in range(n)] for j in range(cols)}
    return Data.from_dict(d) if kind == "data" else d


@REG.facet(
    joins(),
    quick=400,
    rule="weighted points extended by others of another kind, width, type or with"
    " unfit weights; non-trivial: refused",
)
def joined(c, cx):
    p = WeightedPoints(weighted(c["a"], c["n"], 3, False), np.ones(c["n"]))
    w = {"fine": np.ones(c["m"]), "deep": np.ones((c["m"], 2)), "text": np.array(["x"] * c["m"])}[c["weights"]]
    q = WeightedPoints(weighted(c["b"], c["m"], c["cols"], c["text"]), w)
    before, other = snap(p), snap([q.data, q.weights])
    e = refused(lambda: p.extend(q))
    if e is None:
        return
    cx.label(f"{c['a']} {c['b']}")
    cx.nontrivial(True)
    expect(snap([q.data, q.weights]) == other, "a refused extension changed the other points")
    expect(snap(p) == before, "extending by %s with weights %s was refused (%s), but changed the points", q.data, q.weights, repr(e)[:80])


# ---- files ----
class Boat:
    """a boat speed that can be called, but has no name"""

    def __call__(self, ws, wa, a, b):
        return a * ws + b * np.cos(np.deg2rad(wa)) ** 2


@st.composite
def file_cases(draw):
    return {
        "pd": draw(c35.diagrams()),
        "old": draw(st.sampled_from(["", "precious\n", "PolarDiagramTable\nTWS:\n"])),
        "fmt": draw(st.sampled_from(["HRO", "xyz", "", None, 3])),
        "way": draw(st.sampled_from(["fmt", "nameless", "partial", "read", "weather"])),
        "extra": draw(gen.nice(0.1, 3)),
    }


@REG.facet(
    file_cases(),
    quick=400,
    rule="writing into existing files in formats that do not exist, writing"
    " curves whose function has no name, reading files that are no diagrams;"
    " non-trivial: refused",
)
def files(c, cx):
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "x.csv")
        with open(path, "w", encoding="utf-8") as f:
            f.write(c["old"])
        pd = c35.construct(c["pd"])[0]
        if c["way"] == "fmt":
            fn = functools.partial(pd.to_csv, path, c["fmt"])
        elif c["way"] == "nameless":
            pd = hp.PolarDiagramCurve(Boat(), 1.0, c["extra"])
            fn = functools.partial(pd.to_csv, path)
        elif c["way"] == "partial":
            pd = hp.PolarDiagramCurve(functools.partial(Boat(), b=c["extra"]), 1.0)
            fn = functools.partial(pd.to_csv, path)
        elif c["way"] == "read":
            fn = functools.partial(hp.from_csv, path)
        else:
            fn = functools.partial(models.GriddedWeatherModel.from_file, path)
        e = refused(fn)
        with open(path, encoding="utf-8") as f:
            now = f.read()
        if e is None:
            cx.label("accepted " + c["way"])
            return
        cx.label("refused " + c["way"])
        cx.nontrivial(bool(c["old"]))
        expect(now == c["old"], "%s was refused (%s), but the file holds %r, before %r", c["way"], repr(e)[:80], now[:60], c["old"])
        expect(os.listdir(tmp) == ["x.csv"], "left behind %s", os.listdir(tmp))
