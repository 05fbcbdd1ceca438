"""C34: weather expansion adds each record's own weather."""
import builtins
import copy
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import close, frozen, must_raise
from hrosailing.core.data import Data
from hrosailing.models import GriddedWeatherModel, MultiWeatherModel, WeatherModel
from hrosailing.pipeline import LazyExpander, WeatherExpander

REG = Registry(
    "C34",
    [
        "weather affine in time, latitude and longitude, so that every model"
        " has to give it exactly (up to rounding) within its area",
        "every record has a time and a position",
    ],
)
T0 = datetime(2022, 3, 27, 1, 30)
# name in the model -> standard name
ATTRS = {
    "temp": "temp", "Temperature": "temp", "wspd": "TWS", "TWS": "TWS", "wdir": "WD", "pres": "air pressure",
    "waves": "waves", "rhum": "humidity", "current speed": "current speed",
}
# columns the measurements may have
OWN = ["TWS", "TWA", "BSP", "temp", "sail", "note", "WD", "waves", "temp(duplicate)"]


@st.composite
def area(draw):
    lat0, lon0 = draw(st.integers(-60, 50)), draw(st.integers(-170, 160))
    return {
        "times": sorted(draw(gen.uniq(st.integers(0, 48), 1, 4))),
        "lats": sorted(draw(gen.uniq(gen.grid(lat0, lat0 + 8, 4), 1, 4))),
        "lons": sorted(draw(gen.uniq(gen.grid(lon0, lon0 + 8, 4), 1, 4))),
    }


@st.composite
def models_(draw, base=None):
    a = draw(area())
    if base is not None and draw(st.booleans()):
        # overlapping or neighbouring areas
        a = dict(a, lats=[x + draw(st.sampled_from([0, 2, 5])) for x in base["lats"]], lons=base["lons"], times=base["times"])
        a["lats"] = sorted(set(a["lats"]))
    names = {}
    for n in draw(st.lists(st.sampled_from(sorted(ATTRS)), min_size=1, max_size=3, unique_by=lambda x: ATTRS[x])):
        names[n] = [draw(st.integers(-3, 3)) for _ in range(3)] + [draw(st.integers(-50, 50))]
    return dict(a, attrs=names, whole=draw(st.booleans()), custom=draw(st.integers(0, 3)) == 0)


@st.composite
def cases(draw):
    first = draw(models_())
    models = [first]
    multi = draw(st.sampled_from([False, False, True]))
    if multi:
        models += [draw(models_(base=first)) for _ in range(draw(st.integers(0, 2)))]
    n = draw(st.integers(0, 6))
    rows = []
    for _ in range(n):
        m = draw(st.sampled_from(models))
        pos = []
        for k in ("times", "lats", "lons"):
            lo, hi = m[k][0], m[k][-1]
            how = draw(st.sampled_from(["in", "in", "in", "in", "node", "node", "out"]))
            if how == "in":
                v = lo + (hi - lo) * draw(gen.grid(0, 1, 8))
            elif how == "node":
                v = draw(st.sampled_from(m[k]))
            else:
                v = draw(st.sampled_from([lo - 0.25, hi + 0.25, lo - 30, hi + 30]))
            pos.append(float(v))
        rows.append(pos)
    own = draw(st.lists(st.sampled_from(OWN), min_size=0, max_size=4, unique=True))
    cols = {}
    for k in own:
        elem = st.sampled_from(["Jib", "Spi", "G0"]) if k in ("sail", "note") else gen.nice(0, 30)
        if draw(st.booleans()):
            elem = st.one_of(st.none(), elem)
        cols[k] = [draw(elem) for _ in range(n)]
    return {
        "models": models,
        "multi": multi,
        "rows": rows,
        "cols": cols,
        "front": draw(st.integers(0, 4)),
        "mode": draw(st.sampled_from(["delete", "delete", "ignore", None])),
        "again": draw(st.booleans()),
    }


def weather(m, pos):
    """the weather of one model, None where there is none"""
    for k, v in zip(("times", "lats", "lons"), pos):
        if not m[k][0] <= v <= m[k][-1]:
            return None
    w = {n: a * pos[0] + b * pos[1] + c * pos[2] + d for n, (a, b, c, d) in m["attrs"].items()}
    # nothing below zero (precipitation, wave heights)
    return {n: max(v, 0) for n, v in w.items()} if m["custom"] else w


class Custom(WeatherModel):
    def __init__(self, m):
        self._m = m

    def get_weather(self, point):
        t, lat, lon = point
        w = weather(self._m, [(t - T0) / timedelta(hours=1), lat, lon])
        if w is None:
            raise ValueError("outside")
        if self._m["whole"]:
            w = {k: int(v) if v == int(v) else v for k, v in w.items()}
        return w


class Unplugged(Custom):
    """fails at some records"""

    def __init__(self, m, at, error):
        super().__init__(m)
        self._at, self._error = at, error

    def get_weather(self, point):
        self._at -= 1
        if self._at < 0:
            raise self._error("no connection")
        return super().get_weather(point)


def build(m):
    if m["custom"]:
        return Custom(m)
    kind = int if m["whole"] else float
    data = [
        [[[kind(a * t + b * la + c * lo + d) for a, b, c, d in m["attrs"].values()] for lo in m["lons"]] for la in m["lats"]]
        for t in m["times"]
    ]
    times = [T0 + timedelta(hours=t) for t in m["times"]]
    return GriddedWeatherModel(data, times, m["lats"], m["lons"], list(m["attrs"]))


def whole(m):
    """whole numbers in a grid of whole numbers"""
    return m["whole"] and not m["custom"]


def put(c):
    """the columns of the measurements, in some order"""
    n = c["front"]
    rest = {k: list(v) for k, v in c["cols"].items()}
    rest["nr"] = [float(i) for i in range(len(c["rows"]))]
    place = {
        "datetime": [T0 + timedelta(hours=r[0]) for r in c["rows"]],
        "lat": [r[1] for r in c["rows"]],
        "lon": [r[2] for r in c["rows"]],
    }
    names = list(rest)
    names[n:n] = ["lon", "datetime", "lat"]
    return {k: (place[k] if k in place else rest[k]) for k in names}


def fix(m):
    """grids of whole numbers have whole coordinates"""
    if not whole(m):
        return m
    return dict(m, **{k: sorted({float(int(v)) for v in m[k]}) for k in ("lats", "lons")})


@REG.facet(
    cases(),
    quick=1500,
    rule="0-6 records with 0-4 further columns (missing values, names that the"
    " weather also has), grids of floats and whole numbers, custom models and"
    " combinations of several, records within, at grid points of and outside"
    " the covered areas, both modes and the default, one or two expansions;"
    " non-trivial: several records with weather",
)
def expanding(c, cx):
    models = [fix(m) for m in c["models"]]
    built = [build(m) for m in models]
    model = MultiWeatherModel(*built) if c["multi"] else built[0]
    cols = put(c)
    want_cols = copy.deepcopy(cols)
    keep, found = [], []
    for i, pos in enumerate(c["rows"]):
        got = [w for w in (weather(m, pos) for m in models) if w is not None]
        w = {}
        for g in got:
            w.update(g)
        if not c["multi"] and not got:
            if c["mode"] != "ignore":
                continue
        keep.append(i)
        found.append(w)
    data = Data.from_dict(cols)
    kw = {} if c["mode"] is None else {"exception_handling_mode": c["mode"]}
    expander = WeatherExpander(model, **kw)
    names = dict.fromkeys(k for w in found for k in w)
    standard = [ATTRS[k] for k in names]
    if len(set(standard)) < len(standard):
        cx.label("two names for the same weather: skipped")
        return
    expect_types(data, want_cols)
    out = expander.expand(data)
    expected = {k: [v[i] for i in keep] for k, v in want_cols.items()}
    new = {}
    for k in names:
        key = ATTRS[k] + ("(duplicate)" if ATTRS[k] in expected else "")
        while key in expected:
            key += "(duplicate)"
        new[key] = [w.get(k) for w in found]
    compare(out, expected, new, expander)
    cx.label(c["mode"] or "default", "some not covered" if len(keep) < len(c["rows"]) else "all kept")
    if c["again"] and keep:
        # the weather at the same places, once more
        expected = {k: list(out[k]) for k in out.keys()}
        new = {}
        for k in names:
            key = ATTRS[k]
            while key in expected:
                key += "(duplicate)"
            new[key] = [w.get(k) for w in found]
        if all(found):
            compare(expander.expand(out), expected, new, expander)
            cx.label("twice")
    cx.nontrivial(sum(1 for w in found if w) > 1)


def expect_types(data, cols):
    expect(list(data.keys()) == list(cols), "columns %s", list(data.keys()))


def compare(out, expected, new, expander):
    n = len(next(iter(expected.values())))
    expect(out.n_rows == n, "%s rows, expected %s", out.n_rows, n)
    expect(
        set(out.keys()) == set(expected) | set(new),
        "columns %s, expected %s",
        list(out.keys()),
        [*expected, *new],
    )
    for k, v in expected.items():
        expect(frozen(list(out[k])) == frozen(v), "%s is %s after the expansion, was %s", k, out[k], v)
    for k, v in new.items():
        got = list(out[k])
        expect(len(got) == n, "%s values of %s for %s rows", len(got), k, n)
        for i, (a, b) in enumerate(zip(got, v)):
            ok = a is None if b is None else isinstance(a, float) and close([a], [b], 1e-9, 1e-6)
            expect(ok, "%s of row %s is %s, expected %s", k, i, a, b)
    s = expander.get_latest_statistics()
    expect(
        s["n_rows"] == n and s["n_cols"] == len(expected) + len(new),
        "statistics %s for %s rows and %s columns",
        s,
        n,
        len(expected) + len(new),
    )


@REG.facet(
    st.tuples(cases(), st.integers(0, 5), st.sampled_from(["OSError", "KeyError", "RuntimeError", "TypeError", "ZeroDivisionError"])),
    quick=150,
    rule="a weather model that fails otherwise than with a ValueError at one of"
    " the records; non-trivial: at one after the first",
)
def failing(arg, cx):
    c, at, error = arg
    error = getattr(builtins, error)
    if at >= len(c["rows"]):
        return
    data = Data.from_dict(put(c))
    kw = {} if c["mode"] is None else {"exception_handling_mode": c["mode"]}
    expander = WeatherExpander(Unplugged(c["models"][0], at, error), **kw)
    must_raise("a failing weather model", lambda: expander.expand(data), error)
    cx.nontrivial(at > 0)


@REG.facet(
    cases(),
    quick=150,
    rule="the lazy expander on the same records; non-trivial: several records",
)
def lazy(c, cx):
    cols = put(c)
    before = copy.deepcopy(cols)
    data = Data.from_dict(cols)
    e = LazyExpander()
    out = e.expand(data)
    expect({k: frozen(list(out[k])) for k in out.keys()} == {k: frozen(v) for k, v in before.items()}, "the data was changed")
    expect(out.n_rows == len(c["rows"]), "%s rows", out.n_rows)
    s = e.get_latest_statistics()
    expect(s["n_rows"] == len(c["rows"]) and s["n_cols"] == len(cols), "statistics %s", s)
    cx.nontrivial(len(c["rows"]) > 1)


# ---- large ----
def big_case(r, n):
    models, lat0, lon0 = [], r.randint(-60, 50), r.randint(-170, 160)
    for _ in range(r.choice([1, 2, 3])):
        k = r.choice([2, 4, min(n, 60)])
        names = r.sample(sorted(ATTRS), r.randint(1, 3))
        models.append({
            "times": sorted(r.sample(range(200), k)), "lats": sorted(r.uniq(r.randint(2, 4), lambda: r.grid(lat0, lat0 + 8, 4))),
            "lons": sorted(r.uniq(r.randint(2, 4), lambda: r.grid(lon0, lon0 + 8, 4))), "whole": r.random() < 0.3, "custom": r.random() < 0.25,
            "attrs": {m: [r.randint(-3, 3) for _ in range(3)] + [r.randint(-50, 50)] for m in names},
        })
    multi = len(models) > 1
    rows, out = [], r.choice([0, 0.05, 0.5])
    for _ in range(n):
        m = r.choice(models)
        pos = []
        for k in ("times", "lats", "lons"):
            lo, hi = m[k][0], m[k][-1]
            v = r.choice([lo + (hi - lo) * r.randint(0, 8) / 8, r.choice(m[k])])
            pos.append(float(v if r.random() > out else r.choice([lo - 0.25, hi + 30])))
        rows.append(pos)
    cols = {}
    for k in r.sample(OWN, r.randint(0, 4)):
        elem = (lambda: r.choice(["Jib", "Spi", "G0"])) if k in ("sail", "note") else (lambda: r.num(0, 30))
        cols[k] = [elem() if r.random() < 0.9 else None for _ in range(n)]
    return {
        "models": models, "multi": multi, "rows": rows, "cols": cols, "front": r.randint(0, 4),
        "mode": r.choice(["delete", "delete", "ignore", None]), "again": r.random() < 0.5,
    }


big.large(REG, expanding, big_case, hi=300, quick=50, what="records")
