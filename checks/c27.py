"""C27: sailing times and reachable positions agree with the boat's speed."""
import math
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from checks.c26 import build, cases as plans, courses, flat, neighbours, optimum, vec
from harness import big, gen
from harness.core import Registry, expect
from harness.util import angdiff, close, finite, frozen, must_raise, raises
from hrosailing.cruising import cost_cruise, cruise, isochrone
from hrosailing.models import (
    GriddedWeatherModel,
    IdentityInfluenceModel,
    InfluenceModel,
    WeatherModel,
)
from hrosailing.polardiagram import PolarDiagramCurve, PolarDiagramTable

REG = Registry(
    "C27",
    [
        "isochrones and cost integrals: latitudes within 60 degrees, legs up"
        " to 60 nautical miles not crossing the date line; positions compared"
        " with dead reckoning up to 4 percent of the leg (projection error)",
        "changing weather: within 4 percent of a fine integration",
        "cruise distances: Vincenty's inverse on the WGS84 ellipsoid, 2e-4",
    ],
)
START = datetime(2022, 5, 1, 12)
NM = 60.0


def smooth(ws, wa, a, b, c):
    r = np.deg2rad(wa)
    return ws * (a + b * np.sin(r / 2) ** 2 + c * np.cos(r - 1.0) ** 2)


def smooth_rad(ws, r, a, b, c):
    return smooth(ws, np.rad2deg(r), a, b, c)


@st.composite
def boats(draw):
    """a boat given by a formula, moving on every course"""
    return [draw(gen.nice(0.25, 1)), draw(gen.nice(0, 1)), draw(gen.nice(0, 1))]


def speed_of(boat, ws, wa):
    r = math.radians(wa)
    return ws * (boat[0] + boat[1] * math.sin(r / 2) ** 2 + boat[2] * math.cos(r - 1.0) ** 2)


def grib(ws, wdir):
    """components of wind blowing from wdir"""
    r = math.radians(wdir)
    return -ws * math.sin(r), -ws * math.cos(r)


class Weather(WeatherModel):
    """wind speed linear in time and place, constant direction"""

    def __init__(self, c, course=None, form="grib"):
        self.c, self.form, self.course = c, form, course
        self.asked = 0

    def speed(self, hours, lat, lon):
        g = self.c.get("grad", [0, 0, 0])
        w = self.c["ws"] + g[0] * hours + g[1] * (lat - self.c["start"][0]) + g[2] * (lon - self.c["start"][1])
        return max(w, 0.5 * self.c["ws"])

    def get_weather(self, point):
        time, lat, lon = point
        self.asked += 1
        w = self.speed((time - START) / timedelta(hours=1), lat, lon)
        if self.form == "grib":
            u, v = grib(w, self.c["wdir"])
            return {"UGRID": u, "VGRID": v}
        if self.c["turn"]:  # as recorded by somebody else
            return {"TWS": w, "TWA": (self.course - self.c["wdir"]) % 360, "HDT": 7.0, "waves": 1.0}
        return {"TWS": w, "TWA": (self.course - self.c["wdir"]) % 360}


@st.composite
def legs(draw, changing=False):
    c = {
        "boat": draw(boats()),
        "radians": draw(st.booleans()),
        "start": [draw(gen.nice(-60, 60)), draw(gen.nice(-178, 178))],
        "ws": draw(gen.nice(2, 20)),
        "wdir": draw(gen.nice(0, 359)),
        "course": draw(st.one_of(st.sampled_from([0, 90, 180, 270]), gen.nice(0, 359.9))),
        "time": draw(st.sampled_from([0.125, 0.5, 1, 1, 1.5])),
        "split": draw(st.integers(1, 7)) / 8,
        "nodes": draw(st.sampled_from([100, 100, 20, 250])),
        "form": draw(st.sampled_from(["grib", "tw", "influence", "gridded"])),
        "turn": draw(st.sampled_from([0, 0, 360, -360])),
    }
    if not changing and draw(st.integers(0, 7)) == 0:  # light airs
        c["ws"] = draw(st.sampled_from([0.008, 0.02, 0.1]))
        c["form"] = draw(st.sampled_from(["grib", "tw", "influence"]))
    if changing:
        c["form"] = draw(st.sampled_from(["grib", "tw", "influence"]))
        c["grad"] = [draw(gen.grid(-2, 4)), draw(gen.grid(-4, 4)), draw(gen.grid(-4, 4))]
        c["nodes"] = draw(st.sampled_from([100, 200]))
    return c


class Own(InfluenceModel):
    """boat speed from the wind, but slowed down; remembers the headings"""

    def __init__(self):
        self.headings = set()

    def remove_influence(self, data):
        raise NotImplementedError

    def add_influence(self, pd, influence_data):
        self.headings |= set(influence_data["HDT"])
        return [0.5 * pd(ws, wa) for ws, wa in zip(influence_data["TWS"], influence_data["TWA"])]


def setting(case, course):
    form = case["form"]
    pd = PolarDiagramCurve(smooth, *case["boat"])
    if case["radians"] and form != "influence":
        pd = PolarDiagramCurve(smooth_rad, *case["boat"], radians=True)
    im, factor = None, 1.0
    if form == "influence":
        im, factor = Own(), 0.5
    if form == "gridded":
        lat, lon = case["start"]
        u, v = grib(case["ws"], case["wdir"])
        wm = GriddedWeatherModel(
            np.tile([u, v], (2, 2, 2, 1)), [START, START + timedelta(days=60)],
            [lat - 5, lat + 5], [lon - 9, lon + 9], ["UGRID", "VGRID"])
    else:
        wm = Weather(case, course, "grib" if form == "grib" else "tw")
    return pd, wm, im, factor


def reckon(start, course, s):
    """dead reckoning"""
    r = math.radians(course)
    dlat = s * math.cos(r) / NM
    mid = start[0] + dlat / 2
    return start[0] + dlat, start[1] + s * math.sin(r) / NM / math.cos(math.radians(mid))


def apart(p, q):
    """distance of close places in nautical miles"""
    mid = math.radians((p[0] + q[0]) / 2)
    return NM * math.hypot(p[0] - q[0], (p[1] - q[1]) * math.cos(mid))


def sail(case, start, hours, at=0.0, **kw):
    course = case["course"]
    pd, wm, im, factor = setting(case, course)
    end, s = isochrone(pd, tuple(start), START + timedelta(hours=at), course + case["turn"],
                       wm, total_time=hours, min_nodes=case["nodes"], im=im, **kw)
    end = [float(x) for x in end]
    expect(len(end) == 2 and finite(end) and finite(s), "isochrone %s, %s", end, s)
    if isinstance(wm, Weather):
        expect(wm.asked >= case["nodes"], "%s sample points, at least %s wanted", wm.asked, case["nodes"])
    if im is not None:
        expect(im.headings == {course + case["turn"]}, "headings %s for course %s", im.headings, course)
    return end, float(s)


@REG.facet(
    legs(),
    quick=700,
    rule="boats, constant winds (as components, wind angles, with influences"
    " and from a grid), courses, durations and numbers of nodes; non-trivial:"
    " a course that is not one of the four quarters away from the equator",
)
def isochrone_constant(case, cx):
    v = speed_of(case["boat"], case["ws"], (case["course"] - case["wdir"]) % 360)
    if case["form"] == "influence":
        v *= 0.5
    T = min(case["time"], 60 / v)
    end, s = sail(case, case["start"], T)
    expect(close(s, v * T, 1e-6, 1e-9), "%s nautical miles in %s h at %s knots", s, T, v)
    want = reckon(case["start"], case["course"], v * T)
    expect(apart(end, want) <= 0.04 * s + 1e-6, "%s nautical miles on course %s from %s lead to %s, not %s",
           s, case["course"], case["start"], end, want)
    # splitting the duration
    t1 = T * case["split"]
    mid, s1 = sail(case, case["start"], t1)
    end2, s2 = sail(case, mid, T - t1, t1)
    expect(close(s1 + s2, s, 1e-6, 1e-9), "split leg of length %s + %s, not %s", s1, s2, s)
    expect(apart(end2, end) <= 0.04 * s + 1e-6, "split leg ends at %s, not %s", end2, end)
    expect(s1 <= s and apart(mid, case["start"]) <= apart(end, case["start"]) * (1 + 1e-6),
           "less time leads farther")
    cx.label(case["form"])
    cx.nontrivial(case["course"] % 90 != 0 and abs(case["start"][0]) > 10)


def steps_reference(case, hours):
    """distance covered, by a fine midpoint integration"""
    wm = Weather(case)
    twa = (case["course"] - case["wdir"]) % 360
    unit = speed_of(case["boat"], 1.0, twa) * (0.5 if case["form"] == "influence" else 1.0)
    n = 2000
    s = 0.0
    h = hours / n
    for i in range(n):
        v = unit * wm.speed((i + 0.0) * h, *reckon(case["start"], case["course"], s))
        v = unit * wm.speed((i + 0.5) * h, *reckon(case["start"], case["course"], s + v * h / 2))
        s += v * h
    return s


@REG.facet(
    legs(True),
    quick=250,
    rule="wind speeds changing with time and place along the leg;"
    " non-trivial: the distance differs by more than 5 percent from the one"
    " under the wind at the start",
)
def isochrone_changing(case, cx):
    v = speed_of(case["boat"], case["ws"], (case["course"] - case["wdir"]) % 360)
    if case["form"] == "influence":
        v *= 0.5
    T = min(case["time"], 40 / v)
    want = steps_reference(case, T)
    end, s = sail(case, case["start"], T)
    expect(close(s, want, 0.04, 1e-6), "%s nautical miles in changing wind, expected %s", s, want)
    expect(apart(end, reckon(case["start"], case["course"], want)) <= 0.08 * want + 1e-6,
           "changing wind: end at %s", end)
    cx.nontrivial(abs(want - v * T) > 0.05 * v * T)


@REG.facet(
    legs(),
    quick=100,
    rule="courses on which the boat does not move; non-trivial: every case",
)
def isochrone_calm(case, cx):
    wa = (case["course"] - case["wdir"]) % 360
    pd = PolarDiagramTable([case["ws"]], [(wa + k) % 360 for k in (0, 90, 180, 270)],
                           [[0.0]] * 4)
    wm = Weather(case, case["course"], "tw")
    end, s = isochrone(pd, tuple(case["start"]), START, case["course"], wm, total_time=case["time"])
    expect(0 <= s <= 0.01 * case["time"] and apart(end, case["start"]) <= 0.02 * case["time"],
           "calm: %s nautical miles to %s", s, end)
    cost = cost_cruise(pd, tuple(case["start"]), (case["start"][0] + 0.5, case["start"][1]), START,
                       Weather({**case, "wdir": -wa}, 0, "tw"))
    expect(cost >= 1000, "calm: 30 nautical miles in %s h", cost)
    # no wind at all
    calm = {**case, "ws": 0.0}
    course = case["course"]
    pd, wm, im, _ = setting(calm, course)
    _, s = isochrone(pd, tuple(case["start"]), START, course, wm, total_time=case["time"], im=im)
    expect(0 <= s <= 0.01 * case["time"], "no wind: %s nautical miles", s)
    cx.nontrivial()


@st.composite
def routes(draw, changing=False):
    c = draw(legs(changing))
    d = draw(gen.nice(1, 50))
    c["length"] = d
    c["end"] = list(reckon(c["start"], c["course"], d))
    c["dens"] = draw(st.sampled_from(["none", "constant", "hours", "lat", "wm"]))
    c["k"] = draw(gen.nice(0, 5))
    c["abs"] = draw(st.sampled_from(["default", "both"]))
    return c


def rhumb(p, q):
    """course of the straight line on a Mercator map"""
    y = [math.asinh(math.tan(math.radians(x[0]))) for x in (p, q)]
    return math.degrees(math.atan2(math.radians(q[1] - p[1]), y[1] - y[0])) % 360


def haversine(p, q):
    a, b = math.radians(p[0]), math.radians(q[0])
    h = math.sin((b - a) / 2) ** 2 + math.cos(a) * math.cos(b) * math.sin(math.radians(q[1] - p[1]) / 2) ** 2
    return 2 * math.degrees(math.asin(math.sqrt(h))) * NM


@REG.facet(
    routes(),
    quick=600,
    rule="legs of 1-50 nautical miles in constant wind, absolute costs of time"
    " and distance, cost densities that are constant, grow with time, depend"
    " on the place or use the weather; non-trivial: with a density",
)
def cost_constant(case, cx):
    course = rhumb(case["start"], case["end"])
    pd, wm, im, factor = setting(case, course)
    v = factor * speed_of(case["boat"], case["ws"], (course - case["wdir"]) % 360)
    seen = []

    def total(t, s):
        seen.append((t, s))
        return 3 * t + 2 * s

    kw = {}
    if case["abs"] == "both":
        kw["cost_fun_abs"] = total
    times = []

    def density(t, lat, lon, model):
        expect(model is wm, "density function is given another weather model")
        times.append((t, lat, lon))
        hours = (t - START) / timedelta(hours=1)
        return {"constant": case["k"], "hours": hours, "lat": lat - case["start"][0],
                "wm": float(next(iter(model.get_weather((t, lat, lon)).values())))}[case["dens"]]

    if case["dens"] != "none":
        kw["cost_fun_dens"] = density
    cost = cost_cruise(pd, tuple(case["start"]), tuple(case["end"]), START, wm, im=im, **kw)
    expect(np.ndim(cost) == 0 and finite(cost), "cost %s", cost)
    S = haversine(case["start"], case["end"])
    T = S / v
    first = 3 * T + 2 * S if case["abs"] == "both" else T
    w0 = float(next(iter(wm.get_weather((START, *case["start"])).values())))
    second = {"none": 0.0, "constant": case["k"] * S, "hours": T * S / 2,
              "lat": (case["end"][0] - case["start"][0]) * S / 2, "wm": w0 * S}[case["dens"]]
    expect(abs(cost - first - second) <= 5e-3 * (abs(first) + abs(second)) + 1e-6,
           "cost %s of %s nautical miles in %s h, expected %s + %s", cost, S, T, first, second)
    for t, s in seen:
        expect(close(t * v, s, 1e-6), "%s h for %s nautical miles at %s knots", t, s, v)
    if times:
        for (t, lat, lon), p in ((times[0], case["start"]), (times[-1], case["end"])):
            expect(apart((lat, lon), p) <= 1e-3 * S + 1e-6, "the leg passes %s, not %s", (lat, lon), p)
        expect(abs((times[-1][0] - START) / timedelta(hours=1) - T) <= 5e-3 * T + 1e-6, "arrival at %s", times[-1][0])
    cx.label(case["dens"], case["form"])
    cx.nontrivial(case["dens"] != "none")


@REG.facet(
    routes(True),
    quick=300,
    rule="legs in wind changing with time and place: the time of travel;"
    " non-trivial: it differs by more than 5 percent from the one under the"
    " wind at the start",
)
def cost_changing(case, cx):
    course = rhumb(case["start"], case["end"])
    pd, wm, im, factor = setting(case, course)
    unit = factor * speed_of(case["boat"], 1.0, (course - case["wdir"]) % 360)
    S = haversine(case["start"], case["end"])
    if S / unit / case["ws"] > 12:
        cx.label("too slow: skipped")
        return
    n = 2000
    t = 0.0
    for i in range(n):
        f = (i + 0.5) / n
        place = [a + f * (b - a) for a, b in zip(case["start"], case["end"])]
        t += S / n / (unit * wm.speed(t, *place))
    got = cost_cruise(pd, tuple(case["start"]), tuple(case["end"]), START, wm, im=im)
    expect(close(got, t, 0.04), "%s h in changing wind, expected %s", got, t)
    cx.nontrivial(abs(t - S / unit / case["ws"]) > 0.05 * t)


@REG.facet(
    legs(),
    quick=60,
    rule="legs that leave the grid of the weather; non-trivial: every case",
)
def off_the_grid(case, cx):
    lat, lon = case["start"]
    wind = np.tile(grib(case["ws"], case["wdir"]), (2, 2, 2, 1))
    wm = GriddedWeatherModel(wind, [START, START + timedelta(days=999)], [lat - 0.1, lat + 0.1], [lon - 9, lon + 9], ["UGRID", "VGRID"])
    pd = PolarDiagramCurve(smooth, *case["boat"])
    sign = 1 if case["course"] < 180 else -1
    cost = cost_cruise(pd, (lat, lon), (lat + sign * 0.5, lon), START, wm)
    expect(finite(cost) and cost >= 1000, "%s h across 24 nautical miles without weather", cost)
    _, s = isochrone(pd, (lat + sign * 0.2, lon), START, 90, wm, total_time=case["time"])
    expect(0 <= s <= 0.01 * case["time"], "%s nautical miles in %s h without weather", s, case["time"])
    cx.nontrivial()


# --- cruise -----------------------------------------------------------------
def vincenty(p, q):
    """distance in nautical miles and initial great circle course"""
    f, a = 1 / 298.257223563, 6378.137
    b = a * (1 - f)
    u1, u2 = (math.atan((1 - f) * math.tan(math.radians(x[1]))) for x in (p, q))
    L = math.radians((q[0] - p[0] + 180) % 360 - 180)
    lam = L
    for _ in range(200):
        s = math.hypot(math.cos(u2) * math.sin(lam),
                       math.cos(u1) * math.sin(u2) - math.sin(u1) * math.cos(u2) * math.cos(lam))
        if s == 0:
            return 0.0
        c = math.sin(u1) * math.sin(u2) + math.cos(u1) * math.cos(u2) * math.cos(lam)
        sig = math.atan2(s, c)
        sa = math.cos(u1) * math.cos(u2) * math.sin(lam) / s
        ca = 1 - sa * sa
        m = c - 2 * math.sin(u1) * math.sin(u2) / ca if ca > 1e-12 else 0.0
        C = f / 16 * ca * (4 + f * (4 - 3 * ca))
        new = L + (1 - C) * f * sa * (sig + C * s * (m + C * c * (2 * m * m - 1)))
        if abs(new - lam) < 1e-13:
            break
        lam = new
    u = ca * (a * a - b * b) / (b * b)
    A = 1 + u / 16384 * (4096 + u * (-768 + u * (320 - 175 * u)))
    B = u / 1024 * (256 + u * (-128 + u * (74 - 47 * u)))
    ds = B * s * (m + B / 4 * (c * (2 * m * m - 1) - B / 6 * m * (4 * s * s - 3) * (4 * m * m - 3)))
    return b * A * (sig - ds) / 1.852


def bearing(p, q):
    a, b = math.radians(p[1]), math.radians(q[1])
    d = math.radians(q[0] - p[0])
    return math.degrees(math.atan2(
        math.sin(d) * math.cos(b),
        math.cos(a) * math.sin(b) - math.sin(a) * math.cos(b) * math.cos(d))) % 360


@st.composite
def voyages(draw, kinds=("table", "table", "cloud", "multi", "curve")):
    c = draw(plans(kinds))
    lats = st.one_of(gen.nice(-75, 75), gen.nice(-75, 75), gen.nice(-89, 89))
    c["from"] = [draw(gen.nice(-180, 180)), draw(lats)]
    k = draw(st.integers(0, 7))
    if k < 4:
        c["to"] = [c["from"][0] + draw(gen.nice(-3, 3)), c["from"][1] + draw(gen.nice(-3, 3)) * (1 if abs(c["from"][1]) < 86 else 0.3)]
    elif k == 4:  # in the harbour
        d = draw(st.sampled_from([2**-8, 2**-10, 2**-13, 2**-16]))
        c["to"] = [c["from"][0] + d * draw(gen.grid(-2, 2)), c["from"][1] + d * draw(gen.grid(-2, 2)) * (c["from"][1] != 89)]
    else:
        c["to"] = [draw(gen.nice(-180, 180)), draw(lats)]
    if draw(st.integers(0, 19)) == 0:
        c["to"] = list(c["from"])
    c["wdir"] = draw(gen.nice(0, 359))
    c["fmt"] = draw(st.sampled_from(["default", "ws_wan", "ws_wa_hdt", "uv_grd"]))
    c["hdt"] = draw(gen.nice(0, 359))
    c["influence"] = draw(st.booleans())
    return c


@REG.facet(
    voyages(),
    quick=1500,
    rule="voyages between any two places (across the date line, short and"
    " long) with tables, clouds, curves and several sails, the wind in all"
    " three formats; non-trivial: two courses to sail",
)
def itineraries(case, cx):
    pd = build(case["pd"])
    ws, wdir = case["ws"], case["wdir"]
    p, q = case["from"], case["to"]
    D = vincenty(p, q)
    if D > 9000 or (D < 1e-5 and p != q):
        cx.label("too far: skipped")
        return
    fmt = case["fmt"]
    wind, kw = (ws, wdir), {"wind_fmt": fmt}
    if fmt == "default":
        kw = {}
    elif fmt == "ws_wa_hdt":
        wind = (ws, (case["hdt"] - wdir) % 360, case["hdt"])
    elif fmt == "uv_grd":
        # speeds that are exact whatever the rounding of the components
        wind = grib(ws, wdir)
        if float(np.linalg.norm(wind)) != ws and case["pd"]["kind"] != "curve":
            cx.label("inexact wind speed: skipped")
            return
    cs = courses(pd, ws)
    if flat(cs):
        cx.label("flat slice: skipped")
        return
    course = bearing(p, q)
    head = (course - wdir) % 360
    influence = None
    if case["influence"] and case["pd"]["kind"] in ("table", "curve"):
        influence = {"waves": 1.0}
        kw.update(im=IdentityInfluenceModel(), influence_data=influence)
        cs = [(a, pd(ws, a), s) for a, _, s in cs]
        if flat(cs):
            return
    lo, hi = optimum(cs, head, 1e-9), optimum(cs, head, -1e-6)
    top = max(c[1] for c in cs)
    res = []
    if p == q:
        if raises(lambda: res.append(cruise(pd, tuple(p), tuple(q), wind, **kw)), ValueError):
            return
        expect(sum(t for _, t in res[0]) == 0, "itinerary %s to the same place", res)
        return
    rejected = raises(lambda: res.append(cruise(pd, tuple(p), tuple(q), wind, **kw)), ValueError)
    expect(influence in (None, {"waves": 1.0}), "influence data changed")
    if rejected:
        expect(lo <= 1e-6 * top, "no itinerary though %s knots can be made good", lo)
        cx.label("rejected")
        return
    plan = [(float(a), float(t)) for a, t in res[0]]
    expect(hi > 1e-9 * top, "itinerary %s in a direction that cannot be reached", plan)
    if lo < 1e-3 * top or hi > lo * (1 + 1e-5):
        cx.label("border: skipped")
        return
    expect(len(plan) in (1, 2) and finite(plan) and min(t for _, t in plan) >= 0, "itinerary %s", plan)
    reach = np.zeros(2)
    for a, t in plan:
        own = [c[1] for c in cs if angdiff(c[0], a) <= 1e-9]
        own += [s for _, s in neighbours(cs, a)] if len(plan) == 1 else []
        expect(own, "course %s is not in the slice", a)
        reach = reach + t * vec(a, max(own))
    want = D * vec(head)
    expect(float(np.linalg.norm(reach - want)) <= 1e-3 * D, "itinerary %s sails %s, the way is %s", plan,
           reach.tolist(), want.tolist())
    total = sum(t for _, t in plan)
    expect(close(total, D / lo, 5e-4), "itinerary takes %s h, possible are %s", total, D / lo)
    straight = max([s for _, s in neighbours(cs, head)], default=0.0)
    if straight > 0:
        expect(total <= D / straight * (1 + 5e-4), "takes %s h, sailing straight %s", total, D / straight)
    cx.label(fmt, case["pd"]["kind"], f"{len(plan)} courses")
    cx.nontrivial(len(plan) == 2)


class Place(InfluenceModel):
    def __init__(self, factors):
        self.factors, self.seen = factors, []

    def remove_influence(self, data):
        raise NotImplementedError

    def add_influence(self, pd, influence_data):
        self.seen.append({k: list(np.ravel(v)) for k, v in influence_data.items()})
        return [pd(ws, wa) * f for ws, wa, f in zip(
            np.ravel(influence_data["TWS"]), influence_data["TWA"], self.factors)]


@REG.facet(
    voyages(("table",)),
    quick=400,
    rule="influence models that change the speeds of single courses;"
    " non-trivial: the itinerary changes",
)
def influenced_itineraries(case, cx):
    pd = build(case["pd"])
    ws, p, q = case["ws"], tuple(case["from"]), tuple(case["to"])
    D = vincenty(p, q)
    if D > 9000 or D < 1e-5:
        return
    cs = courses(pd, ws)
    factors = [case["scale"][i % 4] for i in range(len(cs))]
    new = [(c[0], c[1] * f, c[2]) for c, f in zip(cs, factors)]
    if flat(new) or flat(cs):
        return
    head = (bearing(p, q) - case["wdir"]) % 360
    lo, hi = optimum(new, head, 1e-9), optimum(new, head, -1e-6)
    im, data = Place(factors), {"waves": 2.0, "sea": 1, "calm": 0, "rain": False, "drift": 0.0}
    before = frozen(data)
    res = []
    rejected = raises(lambda: res.append(cruise(pd, p, q, (ws, case["wdir"]), im=im, influence_data=data)),
                      ValueError)
    expect(frozen(data) == before, "influence data changed: %s", data)
    expect(im.seen and all(list(s.get(k, ())) == [v] * len(cs) for s in im.seen for k, v in data.items()),
           "influence data not passed on: %s", im.seen)
    if rejected:
        expect(lo <= 1e-6 * max(c[1] for c in new), "no itinerary")
        return
    if lo < 1e-3 * max(c[1] for c in new) or hi > lo * (1 + 1e-5):
        return
    total = sum(t for _, t in res[0])
    expect(close(total, D / lo, 5e-4), "influenced itinerary takes %s h, possible are %s", total, D / lo)
    plain = optimum(cs, head, 1e-9)
    cx.nontrivial(abs(plain - lo) > 1e-3 * lo)


@REG.facet(
    voyages(),
    quick=200,
    rule="unknown wind formats; non-trivial: every case",
)
def unknown_format(case, cx):
    pd = build(case["pd"])
    for fmt in ("", "ws", "WS_WAN", None):
        must_raise(f"wind format {fmt!r}", lambda fmt=fmt: cruise(
            pd, (0, 0), (1, 1), (case["ws"], case["wdir"]), wind_fmt=fmt), AttributeError)
    cx.nontrivial()


# ---- large ----
from checks.c26 import big_case  # noqa: E402


def big_voyage(kinds):
    def expand(r, n):
        c = big_case(r, n, kinds)
        c["from"] = [r.num(-180, 180), r.num(-75, 75)]
        near = [c["from"][0] + r.num(-3, 3), c["from"][1] + r.num(-3, 3)]
        c["to"] = r.choice([near, [r.num(-180, 180), r.num(-75, 75)]])
        c.update(
            wdir=r.num(0, 359), fmt=r.choice(["default", "ws_wan", "ws_wa_hdt", "uv_grd"]), hdt=r.num(0, 359),
            influence=r.random() < 0.5,
        )
        return c
    return expand


def big_leg(r, n):
    """large numbers of nodes"""
    return {
        "boat": [r.num(0.25, 1), r.num(0, 1), r.num(0, 1)], "radians": r.random() < 0.5,
        "start": [r.num(-60, 60), r.num(-178, 178)], "ws": r.num(2, 20), "wdir": r.num(0, 359), "course": r.num(0, 359.9),
        "time": r.choice([0.125, 0.5, 1, 1.5, 4]), "split": r.randint(1, 7) / 8, "nodes": n,
        "form": r.choice(["grib", "tw", "influence", "gridded"]), "turn": r.choice([0, 0, 360, -360]),
    }


big.large(REG, itineraries, big_voyage(("table", "cloud", "multi")), lo=12, hi=200, quick=120, what="courses")
big.large(REG, influenced_itineraries, big_voyage(("table",)), lo=12, hi=200, quick=60, what="courses")
big.large(REG, isochrone_constant, big_leg, lo=250, hi=2000, quick=15, what="nodes")
