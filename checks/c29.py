"""C29: pipeline extensions build the diagram their components dictate."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from checks.c21 import seeded
from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import close, frozen, same
from hrosailing import pipeline as pl, processing as pc
from hrosailing.core.data import WeightedPoints
from hrosailing.pipeline.extensions import InterpolationWarning
from hrosailing.processing import Interpolator, Neighbourhood, Regressor
from hrosailing.processing.sampler import Sampler

REG = Registry(
    "C29",
    [
        "neighbourhood and interpolator are handed offsets and points as"
        " documented; no wrapping of wind angles inside neighbourhoods",
        "curves: linear models with well conditioned data, compared with the"
        " normal equations to 1e-5",
    ],
)


class Box(Neighbourhood):
    """a shape that is not symmetric in any way"""

    def __init__(self, box):
        self.box = box

    def is_contained_in(self, pts):
        l, r, d, u = self.box
        pts = np.asarray(pts)
        return (-l <= pts[:, 0]) & (pts[:, 0] <= r) & (-d <= pts[:, 1]) & (pts[:, 1] <= u)


class Own(Interpolator):
    """depends on points, their weights, and the place asked for"""

    def interpolate(self, w_pts, grid_pt):
        return formula(w_pts.data, w_pts.weights, *grid_pt)


def formula(data, weights, ws, wa):
    total = sum(float(w) * (float(p[2]) + float(p[0]) / 8 + float(p[1]) / 64) for p, w in zip(data, weights))
    return total + ws / 2 - wa / 4 + len(data)


class Fixed(Sampler):
    def __init__(self, at):
        self.at, self.seen = at, None

    def sample(self, pts):
        self.seen = np.array(pts)
        return np.array(self.at, float).reshape(-1, 2)


@st.composite
def weighted(draw, lo=1, hi=25, zero=1 / 8):
    n = draw(st.integers(lo, hi))
    return [
        [
            draw(gen.grid(0, 20, 4)) + draw(NEAR), draw(gen.grid(0, 359.75, 4)) + draw(NEAR), draw(gen.grid(-4, 15, 4)),
            draw(gen.grid(zero, 1, 8)),
        ]
        for _ in range(n)
    ]


# just off the edges of the neighbourhoods
NEAR = st.sampled_from([0, 0, 0, 0, 0, 2**-22, 2**-18])


@st.composite
def parts(draw):
    return {
        "nb": draw(st.sampled_from(["box", "box", "ball", "scaling", "cuboid"])),
        "box": [draw(gen.grid(0, 4, 2)), draw(gen.grid(0, 4, 2)), draw(gen.grid(0, 60, 2)), draw(gen.grid(0, 60, 2))],
        "ip": draw(st.sampled_from(["own", "own", "idw", "mean", "improved"])),
    }


def neighbourhood(c):
    if c["nb"] == "box":
        return Box(c["box"])
    if c["nb"] == "ball":
        return pc.Ball(radius=c["box"][2] + 1, norm=lambda p: np.hypot(p[:, 0] * 4, p[:, 1]))
    if c["nb"] == "scaling":
        return pc.ScalingBall(1 + int(c["box"][0]))
    return pc.Cuboid(dimensions=(c["box"][0], c["box"][2]))


def interpolator(c):
    return {
        "own": Own,
        "idw": lambda: pc.IDWInterpolator(2),
        "mean": lambda: pc.ArithmeticMeanInterpolator(params=(50,)),
        "improved": pc.ImprovedIDWInterpolator,
    }[c["ip"]]()


def value(c, pts, p):
    """-> boat speed at p, were there points"""
    data, w = np.array(pts)[:, :3], np.array(pts)[:, 3]
    mask = np.asarray(neighbourhood(c).is_contained_in(data[:, :2] - np.array(p)))
    if c["nb"] == "box":
        l, r, d, u = c["box"]
        own = [-l <= q[0] - p[0] <= r and -d <= q[1] - p[1] <= u for q in pts]
        expect(mask.tolist() == own, "neighbourhood stand-in")
    if not mask.any():
        return 0.0, False
    if c["ip"] == "own":
        return formula(data[mask], w[mask], *p), True
    return float(interpolator(c).interpolate(WeightedPoints(data[mask], w[mask]), np.array(p, float))), True


def run(ext, pts, cx):
    """-> diagram, were there warnings; the points stay as they are"""
    given = WeightedPoints(np.array(pts)[:, :3].copy(), np.array(pts)[:, 3].copy())
    before = frozen([given.data, given.weights])
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        pd = ext.process(given)
    expect(frozen([given.data, given.weights]) == before, "the weighted points were changed")
    return pd, any(issubclass(w.category, InterpolationWarning) for w in caught)


@st.composite
def table_cases(draw):
    c = draw(parts())
    c["pts"] = draw(weighted(zero=0 if c["ip"] == "own" else 1 / 8))
    ws = draw(st.one_of(gen.uniq(gen.grid(0, 20, 4), 1, 4), st.sampled_from([5, 7, 10.5, 40 / 3, None])))
    wa = draw(st.one_of(gen.uniq(gen.grid(0, 359.5, 2), 1, 5), st.sampled_from([45, 90, 100, 77.5, None])))
    kind = draw(st.sampled_from(["given", "given", "min_max", "auto", "none"]))
    if ws is None and wa is None:
        wa = 60
    c["res"] = {"given": [ws, wa], "none": None}.get(kind, kind)
    c["turn"] = draw(gen.turn())
    c["array"] = draw(st.booleans())
    if kind == "auto" and draw(st.booleans()):
        # enough points for winds in between
        a, b = draw(gen.grid(0, 10, 4)), draw(gen.grid(11, 20, 4))
        lo, hi = draw(st.sampled_from([[0, 360], [0, 359.75], [0, 359], [12.25, 80], [5, 50], [180, 359.75]]))
        n = draw(st.integers(200, 500))
        c["pts"] = [[a + (b - a) * (i * 37 % n) / (n - 1), lo + (hi - lo) * (i * i * 11 % n) / (n - 1), i % 7, 1.0] for i in range(n)]
    return c


def steps(step, top):
    out, k = [], 1
    while k * step < top - 1e-9:
        out.append(k * step)
        k += 1
    return out


def resolution(c):
    """the winds documented for the table, None if left to the library"""
    res = c["res"]
    if res == "auto":
        return None
    if res is None:
        res = [None, None]
    if res == "min_max":
        lo, hi = (f(p[0] for p in c["pts"]) for f in (min, max))
        return [float(w) for w in range(round(lo), round(hi) + 1, 2)], [float(w) for w in range(5, 356, 5)]
    ws, wa = res
    if ws is None:
        ws = list(range(2, 42, 2))
    elif not isinstance(ws, list):
        ws = steps(ws, 40)
    if wa is None:
        wa = list(range(0, 360, 5))
    elif not isinstance(wa, list):
        wa = steps(wa, 360)
    return sorted(map(float, ws)), sorted(map(float, wa))


@REG.facet(
    table_cases(),
    quick=250,
    rule="1 to 500 weighted points, winds given as lists, step sizes, None,"
    " 'min_max' or 'auto'; non-trivial: two different non-zero speeds",
)
def tables(c, cx):
    res = c["res"]
    if isinstance(res, list):
        res = tuple(
            (np.array(r) if c["array"] else [x + k for x in r]) if isinstance(r, list) else r
            for r, k in zip(res, (0, 0 if c["array"] else c["turn"]))
        )
    nb, ip = neighbourhood(c), interpolator(c)
    ext = pl.TableExtension(res, nb, ip)
    for again in range(2):
        pd, warned = run(ext, c["pts"], cx)
        ws = [float(x) for x in pd.wind_speeds]
        wa = [float(x) for x in pd.wind_angles]
        want = resolution(c)
        if want is not None:
            expect(close(ws, want[0]) and close(wa, want[1]), "winds of the table %s, expected %s", (ws, wa), want)
        else:
            automatic(c, ws, wa)
        got = pds.table_dict(pd)
        missing, ok = False, set()
        for (s, a), bsp in got.items():
            v, there = value(c, c["pts"], (s, a))
            if res == "auto" and a == 0 and any(p[1] > 359.4 for p in c["pts"]):
                continue  # may stand for 360
            missing |= not there
            expect(close(bsp, v, 1e-9, 1e-9), "boat speed %s at %s, expected %s", bsp, (s, a), v)
            ok.add(bsp)
        if res != "auto":
            expect(warned == missing, "warning given: %s, empty neighbourhoods: %s", warned, missing)
    cx.label(str(c["res"]) if not isinstance(c["res"], list) else "given")
    cx.nontrivial(len(ok - {0.0}) > 1)


def automatic(c, ws, wa):
    """distinct winds within the data, from its smallest to its largest"""
    for name, w, col, turn in (("speeds", ws, 0, 0), ("angles", wa, 1, 360)):
        lo, hi = round(min(p[col] for p in c["pts"])), round(max(p[col] for p in c["pts"]))
        expect(len(set(w)) == len(w), "wind %s occur twice: %s", name, w)
        for end in (lo, hi):
            expect((end % turn if turn else end) in w, "%s not among the wind %s %s", end, name, w)
        expect(all(lo <= x <= hi or (turn and x == 0 and hi == turn) for x in w), "wind %s outside of the data: %s", name, w)


@st.composite
def cloud_cases(draw):
    c = draw(parts())
    c["pts"] = draw(weighted(3, zero=0 if c["ip"] == "own" else 1 / 8))
    c["at"] = [[draw(gen.grid(0, 20, 4)), draw(gen.grid(0, 359.5, 2))] for _ in range(draw(st.integers(1, 8)))]
    c["sampler"] = draw(st.sampled_from(["own", "own", "uniform", "fibonacci", "archimedean"]))
    c["n"] = draw(st.integers(1, 12))
    c["seed"] = draw(st.integers(0, 1000))
    return c


@REG.facet(
    cloud_cases(),
    quick=400,
    rule="3 to 25 weighted points, winds from a stand-in or the predefined"
    " samplers; non-trivial: two different non-zero speeds",
)
def clouds(c, cx):
    def sampler():
        return {
            "own": lambda: Fixed(c["at"]),
            "uniform": lambda: pc.UniformRandomSampler(c["n"]),
            "fibonacci": lambda: pc.FibonacciSampler(c["n"]),
            "archimedean": lambda: pc.ArchimedeanSampler(c["n"]),
        }[c["sampler"]]()

    if c["sampler"] != "own":
        # the samplers need a proper hull
        c = dict(c, pts=c["pts"] + [[0.0, 10.0, 3.0, 1.0], [20.0, 20.0, 4.0, 0.5], [3.0, 350.0, 2.0, 0.25]])
    first = sampler()
    with seeded(c["seed"]):
        pd, warned = run(pl.PointcloudExtension(first, neighbourhood(c), interpolator(c)), c["pts"], cx)
    if c["sampler"] == "own":
        at = c["at"]
        expect(same(np.asarray(first.seen)[:, :2], np.array(c["pts"])[:, :2]), "the sampler was given other points")
    else:
        with seeded(c["seed"]):
            at = sampler().sample(np.array(c["pts"])[:, :3]).tolist()
    want, missing = [], False
    for p in at:
        v, there = value(c, c["pts"], p)
        missing |= not there
        want.append([p[0], p[1] % 360, v])
    got = np.asarray(pd.points)
    expect(got.shape == (len(at), 3), "%s points for %s sampled", got.shape, len(at))
    expect(close(sorted(got.tolist()), sorted(want), 1e-9, 1e-9), "points %s, expected %s", got.tolist(), want)
    expect(warned == missing, "warning given: %s, empty neighbourhoods: %s", warned, missing)
    cx.label(c["sampler"])
    cx.nontrivial(len({w[2] for w in want} - {0.0}) > 1)


BASIS = {
    "one": lambda ws, wa: 1 + 0 * ws,
    "ws": lambda ws, wa: ws / 10,
    "wa": lambda ws, wa: wa,
    "sin": lambda ws, wa: np.sin(wa),
    "wswa": lambda ws, wa: ws * wa / 10,
}


def model(ws, wa, a, b, c):
    return a + b * ws / 10 + c * ws * wa / 10


class Recorder(Regressor):
    def __init__(self, func):
        self.func, self.seen, self.popt = func, None, None

    @property
    def model_func(self):
        return self.func

    @property
    def optimal_params(self):
        return self.popt

    def fit(self, data):
        self.seen = np.array(data)
        self.popt = [float(np.sum(data[:, k])) for k in range(3)]


@st.composite
def curve_cases(draw):
    return {
        "runs": [draw(weighted(1, 15, 0)) for _ in range(draw(st.integers(1, 2)))],
        "reg": draw(st.sampled_from(["own", "own", "lsq", "odr"])),
        "radians": draw(st.booleans()),
        "ask": [[draw(gen.nice(0, 30)), draw(gen.nice(-360, 720))] for _ in range(3)],
    }


@REG.facet(
    curve_cases(),
    quick=300,
    rule="1 to 15 points, some of weight 0, one or two fits with the same extension, recording"
    " and predefined regressors; non-trivial: angles in radians or predefined",
)
def curves(c, cx):
    reg = {
        "own": lambda: Recorder(model),
        "lsq": lambda: pc.LeastSquareRegressor(model, (1, 1, 1)),
        "odr": lambda: pc.ODRegressor(model, (1, 1, 1)),
    }[c["reg"]]()
    ext = pl.CurveExtension(reg, radians=c["radians"])
    old = []
    for pts in c["runs"]:
        if c["reg"] != "own":
            pts = pts + [[4.0, 350.0, 3.0, 1.0], [20.0, 20.0, 4.0, 0.5], [3.0, 250.0, 2.0, 0.25], [18.0, 200.0, 7.0, 1.0]]
        data = np.array(pts)[:, :3]
        if c["radians"]:
            data = np.column_stack([data[:, 0], data[:, 1] * math.pi / 180, data[:, 2]])
        pd, _ = run(ext, pts, cx)
        if c["reg"] == "own":
            expect(close(reg.seen, data, 1e-12, 0), "the regressor was given %s, expected %s", reg.seen.tolist(), data.tolist())
            p = [float(np.sum(data[:, k])) for k in range(3)]
            tol = 1e-9
        else:
            cols = np.column_stack([np.ones(len(pts)), data[:, 0] / 10, data[:, 0] * data[:, 1] / 10])
            p = np.linalg.lstsq(cols, data[:, 2], rcond=None)[0].tolist()
            tol = 1e-4
        expect(bool(pd.radians) == c["radians"], "unit of the curve")
        expect(close(pd.parameters, p, tol, tol), "parameters %s, expected %s", pd.parameters, p)
        old.append((pd, p, tol))
    for pd, p, tol in old:
        for ws, wa in c["ask"]:
            a = math.radians(wa % 360) if c["radians"] else wa % 360
            want = model(ws, a, *p)
            got = float(pd(ws, math.radians(wa) if c["radians"] else wa))
            expect(abs(got - want) <= tol * (10 + abs(want) + 30 * abs(a) * 3), "boat speed %s at %s, expected %s", got, (ws, wa), want)
    cx.label(c["reg"])
    cx.nontrivial(c["radians"] or c["reg"] != "own")


@st.composite
def default_cases(draw):
    return {"pts": draw(weighted(3, 15)), "seed": draw(st.integers(0, 1000))}


@REG.facet(default_cases(), quick=10, thorough=200, rule="always")
def defaults(c, cx):
    pts = c["pts"] + [[0.0, 10.0, 3.0, 1.0], [20.0, 20.0, 4.0, 0.5], [3.0, 350.0, 2.0, 0.25]]
    kw = dict(neighbourhood=pc.Ball(radius=1), interpolator=pc.ArithmeticMeanInterpolator(params=(50,)))
    a, _ = run(pl.TableExtension(), pts, cx)
    b, _ = run(pl.TableExtension(wind_resolution="min_max", **kw), pts, cx)
    expect(pds.describe(a) == pds.describe(b), "defaults of the table extension")
    with seeded(c["seed"]):
        a, _ = run(pl.PointcloudExtension(), pts, cx)
    with seeded(c["seed"]):
        b, _ = run(pl.PointcloudExtension(sampler=pc.UniformRandomSampler(2000), **kw), pts, cx)
    expect(pds.describe(a) == pds.describe(b), "defaults of the point cloud extension")
    cx.nontrivial(True)


# ---- large ----
def big_points(r, n):
    return [[r.grid(0, 20, 4), r.grid(0, 360, 4), r.grid(-4, 15, 4), r.grid(1 / 8, 1, 8)] for _ in range(n)]


def big_parts(r):
    return {
        "nb": r.choice(["box", "box", "ball", "scaling", "cuboid"]),
        "box": [r.grid(0, 4, 2), r.grid(0, 4, 2), r.grid(0, 60, 2), r.grid(0, 60, 2)],
        "ip": r.choice(["own", "own", "idw", "mean", "improved"]),
    }


def big_table(r, n):
    c = big_parts(r)
    m, k = r.choice([(n, 5), (5, n), (n, n)])
    c["pts"] = big_points(r, m)
    k = min(k, 600)
    a = r.choice([k, max(1, k // 6), 1])
    ws = r.choice([r.uniq(min(a, 80), lambda: r.grid(0, 20, 4)), 5, 1.25, None])
    wa = r.choice([r.uniq(min(max(1, k // a), 600), lambda: r.grid(0, 359.5, 2)), 45, 3.5, None])
    kind = r.choice(["given", "given", "given", "min_max"])
    c["res"] = [ws, wa] if kind == "given" else kind
    c["turn"] = r.choice([0, 360, -360])
    c["array"] = r.random() < 0.5
    return c


def big_cloud(r, n):
    c = big_parts(r)
    c["pts"] = big_points(r, r.choice([5, n]))
    c["at"] = [[r.grid(0, 20, 4), r.grid(0, 359.5, 2)] for _ in range(n)]
    c.update(sampler=r.choice(["own", "own", "uniform", "fibonacci", "archimedean"]), n=n, seed=r.randrange(1000))
    return c


def big_curve(r, n):
    return {
        "runs": [big_points(r, m) for m in r.choice([[n], [n, 5], [5, n]])], "reg": r.choice(["own", "lsq"]),
        "radians": r.random() < 0.5, "ask": [[r.num(0, 30), r.num(-360, 720)] for _ in range(3)],
    }


big.large(REG, tables, big_table, lo=25, hi=500, quick=30, what="points or winds")
big.large(REG, clouds, big_cloud, lo=25, hi=300, quick=30, what="points or samples")
big.large(REG, curves, big_curve, lo=25, hi=1000, quick=30, what="points")
