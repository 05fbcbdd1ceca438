"""C24: gridded weather is multilinear interpolation in time and space."""
import itertools
import os
import tempfile
from datetime import datetime, timedelta, timezone

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import close, frozen, must_raise, same
from hrosailing.models import (
    GriddedWeatherModel,
    MultiWeatherModel,
    NetCDFWeatherModel,
)
from hrosailing.models import weather_model as module
from hrosailing.models.weather_model import WeatherModel

REG = Registry(
    "C24",
    [
        "netCDF4 and meteostat are not installed: stand-ins with the same"
        " interface deliver generated data",
        "times written to files lie between the years 1950 and 2100",
    ],
)
START = datetime(2021, 12, 30, 18)
NAMES = ["TWS", "TWA", "wave_height", "t2m", "a"]


@st.composite
def axis(draw, lo, hi, n):
    """n increasing values, unevenly spaced, sometimes tiny gaps"""
    vals = sorted(
        draw(gen.uniq(gen.nice(lo, hi).map(lambda x: x + 0.0), n, n))
    )
    return vals


@st.composite
def grids(draw, max_n=4, value=None):
    n, m, r = (draw(st.integers(1, max_n)) for _ in range(3))
    s = draw(st.integers(1, 3))
    secs = sorted(draw(gen.uniq(st.one_of(
        st.integers(0, 200).map(lambda h: h * 3600),
        st.integers(0, 10**6)), n, n)))
    names = list(draw(st.permutations(NAMES)))[:s]
    elem = value or gen.nice(-30, 40)
    return {
        "secs": secs,
        "lats": draw(axis(-90, 90, m)),
        "lons": draw(axis(-180, 180, r)),
        "names": names,
        "data": [
            [[[draw(elem) for _ in range(s)] for _ in range(r)] for _ in range(m)]
            for _ in range(n)
        ],
    }


@st.composite
def coordinate(draw, ax):
    """index, plus fraction of the following gap (0: on the grid)"""
    i = draw(st.integers(0, len(ax) - 1))
    f = draw(st.sampled_from([0, 0, None, None, 0.5]))
    if f is None:
        f = draw(st.integers(1, 63)) / 64
    if i == len(ax) - 1:
        return [i, 0]
    return [i, f]


@st.composite
def queries(draw, g, lo=1, hi=6):
    return [
        [draw(coordinate(g[k])) for k in ("secs", "lats", "lons")]
        for _ in range(draw(st.integers(lo, hi)))
    ]


@st.composite
def cases(draw):
    g = draw(grids())
    return {"g": g, "q": draw(queries(g)),
            "form": draw(st.sampled_from(["list", "array", "stamps"])),
            "tuple": draw(st.booleans())}


def moment(secs):
    return START + timedelta(seconds=secs)


def build(g, form="list", cls=GriddedWeatherModel, at=lambda t: t):
    times = [at(moment(s)) for s in g["secs"]]
    if form == "stamps":
        times = [pd.Timestamp(t) for t in times]
    if form == "array":
        return cls(np.array(g["data"], float), times, np.array(g["lats"]),
                   np.array(g["lons"]), list(g["names"]))
    return cls(g["data"], times, list(g["lats"]), list(g["lons"]), list(g["names"]))


def value_at(ax, pos):
    i, f = pos
    if not f:
        return ax[i]
    v = ax[i] + f * (ax[i + 1] - ax[i])
    return min(max(v, ax[i]), ax[i + 1])


def point_at(g, q, form="list"):
    t = moment(value_at(g["secs"], q[0]))
    if form == "stamps":
        t = pd.Timestamp(t)
    return (t, value_at(g["lats"], q[1]), value_at(g["lons"], q[2]))


def weights_1d(ax, x):
    """indices and weights of linear interpolation on a sorted axis"""
    for i, a in enumerate(ax):
        if a == x:
            return [(i, 1.0)]
    i = max(j for j, a in enumerate(ax) if a < x)
    w = float((x - ax[i]) / (ax[i + 1] - ax[i]))
    return [(i, 1 - w), (i + 1, w)]


def multilinear(g, data, point):
    """Tensor-product interpolation, written independently."""
    times = [moment(s) for s in g["secs"]]
    axes = [weights_1d(ax, x) for ax, x in zip((times, g["lats"], g["lons"]), point)]
    out = np.zeros(len(g["names"]))
    for (i, a), (j, b), (k, c) in itertools.product(*axes):
        out = out + a * b * c * np.asarray(data[i][j][k], float)
    return out


def on_grid(q):
    return all(f == 0 for _, f in q)


def same_weather(got, names, want, exact, what):
    expect(isinstance(got, dict), "%s: weather is no dictionary", what)
    expect(list(got) == list(names), "%s: attributes %s, not %s", what, list(got), names)
    vals = [float(got[n]) for n in names]
    ok = same(vals, want) if exact else close(vals, want, 1e-8, 1e-8)
    expect(ok, "%s: weather %s, expected %s", what, vals, list(map(float, want)))


def verify(wm, g, queries_, form, what, as_tuple=True):
    for q in queries_:
        p = point_at(g, q, form)
        got = wm.get_weather(p if as_tuple else list(p))
        same_weather(got, g["names"], multilinear(g, g["data"], p), on_grid(q),
                     f"{what} at {q}")


@REG.facet(
    cases(),
    quick=3000,
    rule="grids of 1-4 uneven values per axis, 1-3 attributes, queries at"
    " corners, on edges, faces and inside; non-trivial: a query that shares"
    " some but not all coordinates with the grid, beyond the first cell",
)
def interpolation(case, cx):
    g = case["g"]
    wm = build(g, case["form"])
    verify(wm, g, case["q"], case["form"], "gridded model", case["tuple"])
    # exactly the stored weather at every grid point
    for i, j, k in itertools.product(*(range(len(g[a])) for a in ("secs", "lats", "lons"))):
        q = [[i, 0], [j, 0], [k, 0]]
        same_weather(wm.get_weather(point_at(g, q, case["form"])), g["names"],
                     g["data"][i][j][k], True, f"grid point {i, j, k}")
    expect(list(wm.attrs) == g["names"], "attributes %s", wm.attrs)
    expect(same(wm.data, g["data"]), "data differ from those given")
    for q in case["q"]:
        k = sum(1 for _, f in q if f)
        cx.label(f"{k} open coordinates")
        cx.nontrivial(0 < k < 3 and any(i > 0 and not f for i, f in q))


@st.composite
def outside(draw):
    g = draw(grids(3))
    q = draw(queries(g, 1, 1))[0]
    return {"g": g, "q": q,
            "axes": draw(gen.uniq(st.integers(0, 2), 1, 3)),
            "up": [draw(st.booleans()) for _ in range(3)],
            "by": [draw(st.sampled_from([1e-6, 0.5, 1.0, 30.0, 500.0])) for _ in range(3)]}


@REG.facet(
    outside(),
    quick=1000,
    rule="points outside the grid on one or several axes, in either"
    " direction, by little or much; non-trivial: exactly one axis outside",
)
def outside_is_rejected(case, cx):
    g = case["g"]
    wm = build(g)
    p = list(point_at(g, case["q"]))
    for a in case["axes"]:
        ax = g[("secs", "lats", "lons")[a]]
        edge = ax[-1] if case["up"][a] else ax[0]
        d = case["by"][a] if case["up"][a] else -case["by"][a]
        p[a] = moment(edge) + timedelta(seconds=d) if a == 0 else edge + d
    must_raise(f"point {p} outside of the grid", lambda: wm.get_weather(tuple(p)), ValueError)
    expect(MultiWeatherModel(wm).get_weather(tuple(p)) == {}, "combined model invented weather")
    must_raise("uncovered point (exception sensitive)",
               lambda: MultiWeatherModel(wm, exception_sensitive=True).get_weather(tuple(p)),
               ValueError)
    cx.nontrivial(len(case["axes"]) == 1)


@st.composite
def stored(draw):
    g = draw(grids(3, gen.wild()))
    h = draw(grids(2))
    return {"g": g, "h": h, "q": draw(queries(g, 1, 4)),
            "form": draw(st.sampled_from(["list", "array", "stamps"])),
            "scale": draw(st.sampled_from([1, 1, 0.001])),
            "zone": draw(st.sampled_from([None, None, 0, -7.5])),
            "name": draw(st.sampled_from(["w.json", "weather", "ä b.json"]))}


@REG.facet(
    stored(),
    quick=800,
    rule="models with arbitrary finite values and times in seconds or"
    " milliseconds, with and without time zone, saved over another model and"
    " loaded; non-trivial: several times and off-grid queries",
)
def file_round_trip(case, cx):
    g = case["g"]

    def at(t):
        t = START + (t - START) * case["scale"]
        return t if case["zone"] is None else t.replace(tzinfo=timezone(timedelta(hours=case["zone"])))

    wm = build(g, case["form"], at=at)
    if case["zone"] is not None:
        cx.label("time zone")
    if case["scale"] < 1:
        cx.label("milliseconds")
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, case["name"])
        build(case["h"]).to_file(path)
        wm.to_file(path)
        back = GriddedWeatherModel.from_file(path)
    expect(same(back.data, wm.data), "stored data changed")
    for a, b, what in zip(back.grid, wm.grid, ("times", "latitudes", "longitudes")):
        expect(list(a) == list(b), "%s changed: %s -> %s", what, b, a)
    expect(list(back.attrs) == list(wm.attrs), "attributes changed")
    for q in case["q"]:
        p = point_at(g, q)
        p = type(p)([at(p[0]), *p[1:]])
        a, b = wm.get_weather(p), back.get_weather(p)
        expect(list(a) == list(b) and np.array_equal(
            [float(a[n]) for n in a], [float(b[n]) for n in b], equal_nan=True),
            "weather at %s: %s before, %s after saving", p, a, b)
    cx.nontrivial(len(g["secs"]) > 1 and any(not on_grid(q) for q in case["q"]))


class Failing(WeatherModel):
    def __init__(self, exc):
        self.exc = exc

    def get_weather(self, point):
        raise self.exc("not available")


ERRORS = {"ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError,
          "NotImplementedError": NotImplementedError}


@st.composite
def combined(draw):
    models = [draw(grids(2)) for _ in range(draw(st.integers(1, 4)))]
    # neighbouring regions, some of which overlap
    for g in models[1:]:
        if draw(st.booleans()):
            for k in ("secs", "lats", "lons"):
                n = len(g[k])
                g[k] = sorted(models[0][k] + g[k])[:n] if n > 1 else g[k]
                if len(set(g[k])) < n:
                    g[k] = [g[k][0] + i for i in range(n)]
    which = draw(st.integers(0, len(models) - 1))
    return {
        "models": models,
        "failing": [draw(st.sampled_from([None, None] + sorted(ERRORS)))
                    for _ in models],
        "which": which,
        "q": draw(queries(models[which], 1, 3)),
    }


def covers(g, p):
    t = [moment(s) for s in g["secs"]]
    return all(ax[0] <= x <= ax[-1] for ax, x in zip((t, g["lats"], g["lons"]), p))


@REG.facet(
    combined(),
    quick=1200,
    rule="1-4 models over different regions with overlapping attributes and"
    " models that raise each of the documented errors; non-trivial: some"
    " models cover the point and others do not",
)
def combined_models(case, cx):
    models = []
    for g, f in zip(case["models"], case["failing"]):
        if f:
            models.append((None, Failing(ERRORS[f])))
        models.append((g, build(g)))
    multi = MultiWeatherModel(*[m for _, m in models])
    for q in case["q"]:
        p = point_at(case["models"][case["which"]], q)
        want = {}
        n = 0
        for g, _ in models:
            if g is not None and covers(g, p):
                want.update(zip(g["names"], multilinear(g, g["data"], p)))
                n += 1
        got = multi.get_weather(p)
        expect(set(got) == set(want), "attributes %s, expected %s", sorted(got), sorted(want))
        expect(close([got[k] for k in want], list(want.values()), 1e-8, 1e-8),
               "combined weather %s, expected %s", got, want)
        cx.nontrivial(0 < n < len(models))
        strict = MultiWeatherModel(*[m for _, m in models], exception_sensitive=True)
        if n < len(models):
            must_raise("failing submodel (exception sensitive)",
                       lambda p=p: strict.get_weather(p), tuple(ERRORS.values()))
        else:
            expect(frozen(strict.get_weather(p)) == frozen(got), "strict model differs")


class FakeVariable:
    def __init__(self, name, dims, values, units=None):
        self.name, self.dims = name, dims
        self.values = np.asarray(values, float)
        self.dimensions = tuple(dims)
        self.shape, self.ndim = self.values.shape, self.values.ndim
        if units:
            self.units = units

    def __array__(self, dtype=None):
        return np.array(self.values, dtype)

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        return np.ma.asarray(self.values[i])

    def __str__(self):
        d = ", ".join(self.dims)
        return (
            "<class 'netCDF4._netCDF4.Variable'>\n"
            f"float64 {self.name}({d})\nunlimited dimensions: \n"
            f"current shape = {self.values.shape}\nfilling on"
        )

    __repr__ = __str__


class FakeDataset:
    content = {}

    def __init__(self, path, *_a, **_k):
        self.variables = self.content[path]

    def __getitem__(self, key):
        return self.variables[key]


class FakeNetCDF:
    Dataset = FakeDataset


@st.composite
def netcdf(draw):
    g = draw(grids(3))
    kind = draw(st.sampled_from(["hours", "seconds"]))
    if kind == "hours" and draw(st.booleans()):
        # quarters of hours
        g["secs"] = [900 * i for i in sorted(draw(gen.uniq(
            st.integers(0, 500), len(g["secs"]), len(g["secs"]))))]
    elif kind == "hours":
        g["secs"] = [3600 * i for i in sorted(draw(gen.uniq(
            st.integers(0, 500), len(g["secs"]), len(g["secs"]))))]
    # dimensions of each attribute: order, and possibly a further index
    dims = [
        {"order": list(draw(st.permutations([0, 1, 2]))),
         "drop": draw(st.sampled_from([None, None, None, 0, 1, 2])),
         "extra": draw(st.booleans())}
        for _ in g["names"]
    ]
    return {
        "g": g, "kind": kind, "dims": dims,
        "flip": [draw(st.booleans()), draw(st.booleans())],
        "aliases": draw(st.booleans()),
        "fmt": draw(st.sampled_from(["%Y-%m-%d %H:%M", "%Y-%m-%d %H:%M:%S"])),
        "at": draw(st.integers(0, 1)),
        "q": draw(queries(g, 1, 4)),
    }


@REG.facet(
    netcdf(),
    quick=1000,
    rule="NetCDF datasets (stand-in) with ascending and descending axes, time"
    " units, renamed axes, dimensions in any order, constant along an axis"
    " or with a further index; non-trivial: a descending axis with several"
    " values",
)
def netcdf_files(case, cx):
    g = case["g"]
    al = {"lat": "latitude", "lon": "longitude", "datetime": "time"}
    if case["aliases"]:
        al = {"lat": "y", "lon": "x", "datetime": "valid"}
    unit = {"hours": 3600, "seconds": 1}[case["kind"]]
    lats = g["lats"][::-1] if case["flip"][0] else g["lats"]
    lons = g["lons"][::-1] if case["flip"][1] else g["lons"]
    full = np.array(g["data"], float)
    expected = full.copy()
    axis_names = [al["datetime"], al["lat"], al["lon"]]
    variables = {
        al["datetime"]: FakeVariable(
            al["datetime"], [al["datetime"]], np.array(g["secs"]) / unit,
            f"{case['kind']} since {START.strftime(case['fmt'])}"),
        al["lat"]: FakeVariable(al["lat"], [al["lat"]], lats),
        al["lon"]: FakeVariable(al["lon"], [al["lon"]], lons),
    }
    for s, (name, d) in enumerate(zip(g["names"], case["dims"])):
        vals = full[..., s]
        order = list(d["order"])
        if d["drop"] is not None:
            vals = np.take(vals, [0], axis=d["drop"])
            expected[..., s] = np.broadcast_to(vals, full.shape[:3])
        if case["flip"][0]:
            vals = vals[:, ::-1]
        if case["flip"][1]:
            vals = vals[:, :, ::-1]
        vals = np.transpose(vals, order)
        names = [axis_names[o] for o in order]
        if d["drop"] is not None:
            k = order.index(d["drop"])
            vals = np.take(vals, 0, axis=k)
            names.pop(k)
        if d["extra"]:
            vals = np.stack([vals - 100, vals], axis=-1)
            if case["at"] == 0:
                vals = vals[..., ::-1]
            names.append("expver")
        variables[name] = FakeVariable(name, names, vals)
    module.nc, module.installed_netcdf = FakeNetCDF, True
    FakeDataset.content = {"w.nc": variables}
    try:
        kw = {"further_indices": {"expver": case["at"]}} if any(
            d["extra"] for d in case["dims"]) else {}
        wm = NetCDFWeatherModel("w.nc", aliases=al if case["aliases"] else None, **kw)
        for q in case["q"]:
            p = point_at(g, q)
            same_weather(wm.get_weather(p), g["names"], multilinear(g, expected, p),
                         on_grid(q), f"NetCDF model at {q}")
        far = (moment(g["secs"][-1]) + timedelta(seconds=1), g["lats"][0], g["lons"][0])
        must_raise("point outside the file's grid", lambda: wm.get_weather(far), ValueError)
        if kw:
            bare = NetCDFWeatherModel("w.nc", aliases=al if case["aliases"] else None)
            must_raise("an unspecified further index", lambda: bare.get_weather(
                point_at(g, case["q"][0])), NotImplementedError)
        good = variables[al["datetime"]].units
        for units in (f"{case['kind']} since {START.strftime('%d.%m.%Y')}",
                      "days" + good[good.index(" since"):], "fortnights"):
            variables[al["datetime"]].units = units
            must_raise(f"time unit {units!r}", lambda: NetCDFWeatherModel(
                "w.nc", aliases=al if case["aliases"] else None), NotImplementedError)
    finally:
        module.installed_netcdf = False
        del module.nc
        FakeDataset.content = {}
    cx.nontrivial(any(f and len(g[k]) > 1 for f, k in zip(case["flip"], ("lats", "lons"))))
    for d in case["dims"]:
        cx.label("extra" if d["extra"] else "plain", f"drop {d['drop']}")


class FakeMeteostat:
    """stand-in for the weather service: hourly data at each place"""

    tables = {}
    asked = []

    class Point:
        def __init__(self, lat, lon, alt=None):
            self.at = (lat, lon)

    class Hourly:
        def __init__(self, loc, start, end):
            self.loc, self.start, self.end = loc, start, end

        def fetch(self):
            FakeMeteostat.asked.append((self.loc.at, self.start, self.end))
            return FakeMeteostat.tables[self.loc.at].copy()


@st.composite
def service(draw):
    g = draw(grids(3))
    g["secs"] = [3600 * i for i in range(len(g["secs"]))]
    places = [[j, k] for j in range(len(g["lats"])) for k in range(len(g["lons"]))]
    # in every latitude some place has data
    none = draw(st.lists(st.sampled_from(places), max_size=4, unique_by=tuple))
    none = [p for p in none if draw(st.booleans())]
    for j in range(len(g["lats"])):
        row = [p for p in none if p[0] == j]
        if len(row) == len(g["lons"]):
            none.remove(row[0])
    return {"g": g, "q": draw(queries(g, 1, 4)), "none": none,
            "keys": list(draw(st.permutations(range(len(g["names"])))))}


@REG.facet(
    service(),
    quick=500,
    rule="weather service (stand-in) with hourly data for the places of the"
    " grid, some without any, keys in any order; non-trivial: latitudes, longitudes and times"
    " of different numbers",
)
def weather_service(case, cx):
    g = case["g"]
    full = np.array(g["data"], float)
    index = pd.DatetimeIndex([moment(s) for s in g["secs"]])
    FakeMeteostat.tables = {
        (lat, lon): pd.DataFrame(full[:, j, k, :], index=index, columns=g["names"])
        for j, lat in enumerate(g["lats"])
        for k, lon in enumerate(g["lons"])
    }
    for j, k in case.get("none", []):
        at = (g["lats"][j], g["lons"][k])
        FakeMeteostat.tables[at] = FakeMeteostat.tables[at].iloc[:0]
        full[:, j, k, :] = np.nan
        cx.label("place without data")
    FakeMeteostat.asked = []
    module.meteostat, module.installed_meteostat = FakeMeteostat, True
    try:
        keys = [g["names"][i] for i in case["keys"]]
        wm = GriddedWeatherModel.from_meteostat(
            list(g["lats"]), list(g["lons"]), index[0].to_pydatetime(),
            index[-1].to_pydatetime(), keys)
    finally:
        module.installed_meteostat = False
        del module.meteostat
        FakeMeteostat.tables = {}
    for q in case["q"]:
        p = point_at(g, q)
        want = multilinear(g, full, p)[case["keys"]]
        if np.isnan(want).any():
            # next to a place without data: only known to be answered
            expect(list(wm.get_weather(p)) == keys, f"service model at {q}: other attributes")
            continue
        same_weather(wm.get_weather(p), keys, want, on_grid(q), f"service model at {q}")
    expect(all(s == index[0] and e == index[-1] for _, s, e in FakeMeteostat.asked),
           "asked for another period")
    cx.nontrivial(len({len(g[k]) for k in ("secs", "lats", "lons")}) == 3)


# ---- large ----
def big_axis(r, n, lo, hi):
    return sorted(r.uniq(n, lambda: r.num(lo, hi)))


def big_grid(r, n, cells=1200):
    m = [n, 1 if n > cells // 2 else r.randint(1, min(4, cells // n)), 1]
    m[2] = r.randint(1, max(1, min(4, cells // (m[0] * m[1]))))
    if n <= 10 and r.random() < 0.5:
        m = [n, n, n]
    r.shuffle(m)
    secs = sorted(r.uniq(m[0], lambda: r.choice([r.randint(0, 2000) * 3600, r.randint(0, 10**7)])))
    s = r.randint(1, 3)
    return {
        "secs": secs, "lats": big_axis(r, m[1], -90, 90), "lons": big_axis(r, m[2], -180, 180), "names": r.sample(NAMES, s),
        "data": [[[[r.num(-30, 40) for _ in range(s)] for _ in range(m[2])] for _ in range(m[1])] for _ in range(m[0])],
    }


def big_queries(r, g, n=10):
    def pos(ax):
        i = r.randrange(len(ax))
        return [i, 0 if i == len(ax) - 1 else r.choice([0, 0, 0.5, r.randint(1, 63) / 64])]

    return [[pos(g[k]) for k in ("secs", "lats", "lons")] for _ in range(n)]


def big_case(r, n):
    g = big_grid(r, n)
    return {"g": g, "q": big_queries(r, g), "form": r.choice(["list", "array", "stamps"]), "tuple": r.random() < 0.5}


def big_outside(r, n):
    g = big_grid(r, n)
    return {
        "g": g, "q": big_queries(r, g, 1)[0], "axes": r.sample(range(3), r.randint(1, 3)),
        "up": [r.random() < 0.5 for _ in range(3)], "by": [r.choice([1e-6, 0.5, 1.0, 30.0, 500.0]) for _ in range(3)],
    }


def big_stored(r, n):
    g = big_grid(r, n)
    return {
        "g": g, "h": big_grid(r, 3), "q": big_queries(r, g, 4), "form": r.choice(["list", "array", "stamps"]),
        "scale": r.choice([1, 1, 0.001]), "zone": r.choice([None, None, 0, -7.5]), "name": "w.json",
    }


def big_combined(r, n):
    """many models, or large ones"""
    k, m = r.choice([(n, 2), (2, n)])
    models = [big_grid(r, m, 50 if k > 2 else 600) for _ in range(k)]
    which = r.randrange(k)
    for g in models:
        for a in ("secs", "lats", "lons"):
            ax = models[which][a]
            if r.random() < 0.8 and len(g[a]) > 1:
                g[a] = sorted(r.uniq(len(g[a]) - 1, lambda: r.num(ax[0] - 1, ax[-1]))) + [ax[-1] + r.randint(0, 2)]
                g[a] = sorted(set(g[a]) | {ax[0] - i - 2 for i in range(len(g[a]) - len(set(g[a])))})
                if a == "secs":
                    g[a] = [int(x) + i for i, x in enumerate(g[a])]
    return {
        "models": models, "failing": [r.choice([None, None, None] + sorted(ERRORS)) for _ in models], "which": which,
        "q": big_queries(r, models[which], 3),
    }


def big_netcdf(r, n):
    g = big_grid(r, n, 600)
    g["secs"] = [r.choice([900, 3600]) * i for i in sorted(r.sample(range(5000), len(g["secs"])))]
    g["secs"] = sorted({s for s in g["secs"]})
    while len(g["secs"]) < len(g["data"]):
        g["secs"].append(g["secs"][-1] + 900)
    return {
        "g": g, "kind": r.choice(["hours", "seconds"]),
        "dims": [{"order": r.sample(range(3), 3), "drop": r.choice([None, None, 0, 1, 2]), "extra": r.random() < 0.5} for _ in g["names"]],
        "flip": [r.random() < 0.5, r.random() < 0.5], "aliases": r.random() < 0.5,
        "fmt": r.choice(["%Y-%m-%d %H:%M", "%Y-%m-%d %H:%M:%S"]), "at": r.randint(0, 1), "q": big_queries(r, g),
    }


def big_service(r, n):
    g = big_grid(r, n, 300)
    g["secs"] = [3600 * i for i in range(len(g["secs"]))]
    return {"g": g, "q": big_queries(r, g), "keys": r.sample(range(len(g["names"])), len(g["names"]))}


big.large(REG, interpolation, big_case, lo=5, hi=1000, quick=40, what="values of an axis")
big.large(REG, outside_is_rejected, big_outside, lo=5, hi=1000, quick=40, what="values of an axis")
big.large(REG, file_round_trip, big_stored, lo=5, hi=1000, quick=40, what="values of an axis")
big.large(REG, combined_models, big_combined, lo=5, hi=60, quick=40, what="models or values of an axis")
big.large(REG, netcdf_files, big_netcdf, lo=5, hi=400, quick=40, what="values of an axis")
big.large(REG, weather_service, big_service, lo=5, hi=200, quick=30, what="values of an axis")
