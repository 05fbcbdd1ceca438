"""C09: a curve evaluates its function with normalised angles in its unit."""
import math

import numpy as np
from hypothesis import strategies as st

import hrosailing.core.modelfunctions as mf
import hrosailing.core.modelfunctions._models2d as m2
from harness import big, gen
from harness.core import Registry, expect
from harness.util import must_raise
from hrosailing import polardiagram as hp

REG = Registry(
    "C09",
    [
        "parameters are drawn so that no intermediate result overflows and"
        " variances are positive",
    ],
)


def exp(x):
    return math.exp(min(x, 700.0))


def conc(x, a, b, c):
    return a + b * x - c * x * x


def isp(x, a, b, c):
    return a * x + c * (x - b) ** 2


def ssh(x, a, b, c, d=0.0):
    return c / (1 + exp(a - b * x)) - d * x * x


def gau(x, a, b, c):
    return a * exp(-((x - b) ** 2) / (2 * c))


def dt_wa(x, y, p):
    z = 360 - y
    return (
        conc(x, *p[0:3]) + isp(y, *p[3:6]) + p[6] * x * y + isp(z, *p[7:10]) + p[10] * x * z
    )


def s_dt(x, y, p):
    z = 360 - y
    return (
        ssh(x, *p[0:4]) + ssh(y, *p[4:8]) + p[8] * x * y + ssh(z, *p[9:13]) + p[13] * x * z
    )


def s_dt_gauss(x, y, p):
    return ssh(x, *p[0:4]) + gau(y, *p[4:7]) + gau(360 - y, *p[7:10])


def comb(x, y, p):
    z = 360 - y
    return (
        ssh(x, *p[0:4]) + gau(y, *p[4:7]) + p[7] * x * y + gau(z, *p[8:11]) + p[11] * x * z
    )


def s_gauss(x, y, p):
    return ssh(x, *p[0:3]) + gau(y, *p[3:6]) + gau(360 - y, *p[6:9])


def square(x, y, p):
    z = 360 - y
    return (ssh(x, *p[0:4]) + x * (gau(y, *p[4:7]) + gau(z, *p[7:10]))) * y * z


def times(x, y, p):
    return p[0] * x * y


# name: (reference, number of parameters, kinds of the parameters)
# a: amplitude, s: shift of an exponent, r: rate, v: variance, m: mean
MODELS = {
    "ws_times_wa": (times, "a"),
    "ws_concave_dt_wa": (dt_wa, "aaaamaaamaa"),
    "ws_wa_s_dt": (s_dt, "sraasraaasraaa"),
    "ws_s_dt_wa_gauss": (s_dt_gauss, "sraaamvamv"),
    "ws_s_s_dt_wa_gauss_comb": (comb, "sraaamvaamva"),
    "ws_s_wa_gauss": (s_gauss, "sraamvamv"),
    "ws_s_wa_gauss_and_square": (square, "sraaamvamv"),
}
KIND = {
    "a": gen.nice(-3, 3),
    "s": gen.nice(-5, 5),
    "r": gen.nice(-0.5, 0.5),
    "v": gen.nice(0.5, 4000),
    "m": gen.nice(-50, 200),
}


def reference(name, x, y, p):
    """Value and the size of the terms that make it up."""
    f, kinds = MODELS[name]
    val = f(x, y, p)
    amp = sum(abs(v) for k, v in zip(kinds, p) if k == "a")
    # a bound for the terms that are summed up
    if name.endswith("square"):
        size = amp * (1 + x + x * x) * abs(y * (360 - y))
    elif name in ("ws_s_dt_wa_gauss", "ws_s_wa_gauss"):
        size = amp * (1 + x * x)
    else:
        size = amp * (1 + x * x + 420.0**2 + x * 360.0)
    return val, size + 1e-9


@st.composite
def models(draw):
    name = draw(st.sampled_from(sorted(MODELS)))
    kinds = MODELS[name][1]
    p = [draw(KIND[k]) for k in kinds]
    if draw(st.integers(0, 2)) == 0:
        # one term at a time, the others switched off
        keep = draw(st.integers(0, len(kinds) - 1))
        p = [v if k != "a" or abs(i - keep) <= 2 else 0.0 for i, (k, v) in enumerate(zip(kinds, p))]
    return {"name": name, "params": p}


@st.composite
def winds(draw, lo=1, hi=6):
    n = draw(st.integers(lo, hi))
    return [
        [draw(gen.nice(0, 40)), draw(gen.nice(0, 359.9)), draw(gen.turn())]
        for _ in range(n)
    ]


@st.composite
def model_cases(draw):
    c = draw(models())
    c["winds"] = draw(winds())
    c["radians"] = draw(st.booleans())
    c["int"] = draw(st.booleans())
    return c


def near(got, want, size):
    return math.isfinite(got) and abs(got - want) <= 1e-12 * size + 1e-9 * abs(want)


@REG.facet(
    model_cases(),
    quick=2500,
    rule="the seven built-in model functions, parameters of either sign, ws in"
    " [0, 40], wa in [0, 360); function and curve compared with the documented"
    " formula for scalars and arrays; non-trivial: every parameter non-zero",
)
def model_functions(c, cx):
    f = getattr(mf, c["name"])
    p = c["params"]
    cx.nontrivial(all(p))
    cx.label(c["name"])
    pd = hp.PolarDiagramCurve(f, *p)
    ws = np.array([w for w, _, _ in c["winds"]], float)
    wa = np.array([a for _, a, _ in c["winds"]], float)
    tu = np.array([t for _, _, t in c["winds"]], float)
    ref = [reference(c["name"], x, y, p) for x, y in zip(ws, wa)]
    arr = np.asarray(f(ws, wa, *p), float)
    expect(arr.shape == ws.shape, f"array result has shape {arr.shape}")
    for i, (want, size) in enumerate(ref):
        got = float(f(float(ws[i]), float(wa[i]), *p))
        expect(
            near(got, want, size),
            f"{c['name']}({ws[i]}, {wa[i]}) = {got}, documented formula {want}",
        )
        expect(near(float(arr[i]), want, size), f"{c['name']} on arrays: {arr[i]} for {want}")
    got = np.asarray(pd(ws, wa), float)
    expect(got.shape == ws.shape and np.array_equal(got, arr), f"curve gives {got}, function {arr}")
    # one speed, several angles, as used for slices
    got = np.asarray(pd(float(ws[0]), wa), float)
    for i in range(len(wa)):
        want, size = reference(c["name"], float(ws[0]), float(wa[i]), p)
        expect(near(float(got[i]), want, size), "one wind speed with several wind angles")
    if all((a + t) - t == a for a, t in zip(wa, tu)):
        got = np.asarray(pd(ws, wa + tu), float)
        for i, (want, size) in enumerate(ref):
            expect(near(float(got[i]), want, size), f"wa {wa[i]} + {tu[i]}: {got[i]} for {want}")


def probe(ws, wa, *params):
    """Shows what the curve hands to its function."""
    return params[0] * ws + params[1] * wa + params[2] * ws * wa


def trig(ws, wa, amp, off):
    return off + amp * ws * np.cos(wa) + np.sin(2 * wa)


def fixed(ws, wa, a, b, c):
    return a * ws + b * wa + c


FUNCS = {"probe": (probe, 3), "trig": (trig, 2), "fixed": (fixed, 3)}


@st.composite
def user_cases(draw):
    name = draw(st.sampled_from(sorted(FUNCS)))
    return {
        "f": name,
        "params": [draw(gen.nice(-3, 3)) for _ in range(FUNCS[name][1])],
        "radians": draw(st.booleans()),
        "winds": [
            [draw(gen.nice(0, 40)), draw(gen.nice(0, 359.9)), draw(gen.turn())]
            for _ in range(draw(st.integers(1, 5)))
        ],
        "form": draw(st.sampled_from(["array", "array", "int", "scalar"])),
    }


@REG.facet(
    user_cases(),
    quick=2500,
    rule="user functions, both units, angles moved by whole turns, scalars,"
    " integer and float arrays; the function receives the angle reduced to one"
    " turn in its own unit; non-trivial: some angle is outside one turn",
)
def normalised(c, cx):
    f, _ = FUNCS[c["f"]]
    p = c["params"]
    pd = hp.PolarDiagramCurve(f, *p, radians=c["radians"])
    cx.label("radians" if c["radians"] else "degrees")
    expect(pd.radians is c["radians"] and tuple(pd.parameters) == tuple(p), "attributes")
    ws = np.array([w for w, _, _ in c["winds"]], float)
    wa = np.array([a for _, a, _ in c["winds"]], float)
    tu = np.array([t for _, _, t in c["winds"]], float)
    if c["form"] == "int":
        ws, wa = np.floor(ws), np.floor(wa)
    unit = math.pi / 180 if c["radians"] else 1.0
    given = (wa + tu) * unit
    if c["form"] == "int" and not c["radians"]:
        ws, given = ws.astype(int), given.astype(int)
    cx.nontrivial(bool(np.any(tu)))
    copy_ws, copy_wa = ws.copy(), given.copy()
    if c["form"] == "scalar":
        got = np.array([float(pd(float(x), float(y))) for x, y in zip(ws, given)])
    else:
        got = np.asarray(pd(ws, given), float)
    expect(
        np.array_equal(ws, copy_ws) and np.array_equal(given, copy_wa),
        "the given arrays were changed",
    )
    expect(got.shape == (len(wa),), f"result has shape {got.shape}")
    for i in range(len(wa)):
        want = float(f(float(ws[i]), float(wa[i]) * unit, *p))
        size = 1 + sum(map(abs, p)) * (1 + float(ws[i])) * 2000
        ok = abs(got[i] - want) <= 1e-10 * size
        if not ok and min(wa[i], 360 - wa[i]) < 1e-6 and not (wa[i] == 0 and abs(tu[i]) <= 720):
            # rounding may carry the angle across the end of the turn
            for e in (0.0, 360 * unit):
                ok = ok or abs(got[i] - float(f(float(ws[i]), e, *p))) <= 1e-5 * size
        expect(ok, f"f at ({ws[i]}, {wa[i]} + {tu[i]}) gives {got[i]}, expected {want}")


@st.composite
def bad_cases(draw):
    c = draw(models())
    c["winds"] = draw(winds())
    c["at"] = draw(st.integers(0, 9))
    c["neg"] = draw(st.one_of(gen.nice(0.1, 20), st.sampled_from([1e-12, 1e-6, 1e-3, 0.01, 1e4])))
    c["keep"] = draw(st.integers(0, 20))
    return c


@REG.facet(
    bad_cases(),
    quick=500,
    rule="too few parameters, things that are not functions, negative wind"
    " speeds at any position; non-trivial: always",
)
def rejected(c, cx):
    cx.nontrivial()
    f = getattr(mf, c["name"])
    p = c["params"]
    few = p[: c["keep"] % len(p)]
    must_raise(
        f"{c['name']} with {len(few)} of {len(p)} parameters",
        lambda: hp.PolarDiagramCurve(f, *few),
        ValueError,
    )
    must_raise(
        "too many parameters",
        lambda: hp.PolarDiagramCurve(fixed, 1.0, 2.0, 3.0, *p),
        ValueError,
    )
    must_raise("a number as function", lambda: hp.PolarDiagramCurve(p[0], *p), TypeError)
    pd = hp.PolarDiagramCurve(f, *p)
    ws = np.array([w for w, _, _ in c["winds"]])
    wa = np.array([a for _, a, _ in c["winds"]])
    ws[c["at"] % len(ws)] = -c["neg"]
    must_raise(f"wind speeds {ws}", lambda: pd(ws, wa), ValueError)
    must_raise("a negative wind speed", lambda: pd(-c["neg"], wa[0]), ValueError)


@st.composite
def part_cases(draw):
    return {
        "x": [draw(gen.nice(-20, 40)) for _ in range(draw(st.integers(1, 4)))],
        "p": [draw(gen.nice(-3, 3)) for _ in range(5)],
        "v": draw(gen.nice(0.5, 400)),
        "deg": draw(st.integers(0, 4)),
    }


@REG.facet(
    part_cases(),
    quick=800,
    rule="the one-dimensional building blocks with all of their switches;"
    " non-trivial: every parameter non-zero",
)
def building_blocks(c, cx):
    p, deg = c["p"], c["deg"]
    cx.nontrivial(all(p))
    xs = np.array(c["x"])

    def both(what, f, ref, size):
        arr = np.asarray(f(xs), float)
        for i, x in enumerate(c["x"]):
            for got in (float(f(x)), float(arr[i])):
                expect(near(got, ref(x), size(x) if callable(size) else size), f"{what} at {x}: {got}, documented {ref(x)}")

    big = 1e4 * sum(map(abs, p)) + 1e-9
    both("polynomial", lambda x: m2.polynomial_function(x, *p, deg=deg),
         lambda x: sum(p[i] * x**i for i in range(deg + 1)), sum(map(abs, p)) * 40.0**deg + 1e-9)
    both("inverted parabola", lambda x: m2.inverted_parabola(x, *p[:3]),
         lambda x: p[1] + p[2] * (x - p[0]) ** 2, big)
    both("inverted shifted parabola", lambda x: m2.inverted_shifted_parabola(x, *p[:3]),
         lambda x: p[0] * x + p[2] * (x - p[1]) ** 2, big)
    both("concave with downturn", lambda x: m2.concave_function(x, *p[:3]),
         lambda x: conc(x, *p[:3]), big)
    both("concave with limit", lambda x: m2.concave_function(x, *p[:3], downturn=False, sat_limit=True),
         lambda x: p[2] - p[0] * math.exp(p[1] - x), lambda x: big + abs(p[0]) * math.exp(p[1] - x))
    both("concave with limit and downturn",
         lambda x: m2.concave_function(x, *p[:4], sat_limit=True),
         lambda x: p[2] - p[0] * math.exp(p[1] - x) - p[3] * x * x,
         lambda x: big + abs(p[0]) * math.exp(p[1] - x))
    must_raise("a concave function without limit and downturn",
               lambda: m2.concave_function(1.0, *p, downturn=False), ValueError)
    both("s-shape", lambda x: m2.s_shaped(x, *p[:4]), lambda x: ssh(x, *p[:4]), big)
    both("s-shape without downturn", lambda x: m2.s_shaped(x, *p[:4], downturn=False),
         lambda x: ssh(x, *p[:3]), big)
    both("gaussian", lambda x: m2.gaussian_model(x, p[0], p[1], c["v"]),
         lambda x: gau(x, p[0], p[1], c["v"]), big)
    both("gaussian with offset", lambda x: m2.gaussian_model(x, p[0], p[1], c["v"], p[3], offset=True),
         lambda x: gau(x, p[0], p[1], c["v"]) + p[3], big)


# ---- large ----
RANGES = {"a": (-3, 3), "s": (-5, 5), "r": (-0.5, 0.5), "v": (0.5, 4000), "m": (-50, 200)}


def big_winds(r, n):
    return [[r.num(0, 40), r.num(0, 359.9), r.choice([0, 0, 360, -720])] for _ in range(n)]


def big_model(r, n):
    name = r.choice(sorted(MODELS))
    return {
        "name": name, "params": [r.num(*RANGES[k]) for k in MODELS[name][1]], "winds": big_winds(r, n),
        "radians": r.random() < 0.5, "int": r.random() < 0.3,
    }


def big_user(r, n):
    name = r.choice(sorted(FUNCS))
    return {
        "f": name, "params": [r.num(-3, 3) for _ in range(FUNCS[name][1])], "radians": r.random() < 0.5,
        "winds": big_winds(r, n), "form": r.choice(["array", "int", "scalar"]),
    }


big.large(REG, model_functions, big_model, hi=1500, quick=40, what="winds")
big.large(REG, normalised, big_user, hi=1500, quick=40, what="winds")
