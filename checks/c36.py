"""C36: the built-in model functions compute their documented formulas."""
import math

import numpy as np
from hypothesis import strategies as st

import hrosailing.core.modelfunctions as mf
from harness import gen
from harness.core import Registry, expect
from harness.util import frozen, must_raise
from hrosailing.core.modelfunctions import _models2d as m2

REG = Registry(
    "C36",
    [
        "relative accuracy 1e-9 of the sum of the absolute terms",
        "variances of the bell curves are positive, logistic terms may overflow to zero",
    ],
)


def exp(x):
    return math.exp(x) if x < 700 else math.inf


def logistic(x, a, b, c):
    return c / (1 + exp(a - b * x))


def bell(x, a, b, c):
    return a * exp(-((x - b) ** 2) / (2 * c))


# The documented formulas as lists of terms.
def concave_dt(x, y, a):
    z = 360 - y
    return [
        a[0], a[1] * x, -a[2] * x**2, a[3] * y, a[5] * (y - a[4]) ** 2, a[6] * x * y,
        a[7] * z, a[9] * (z - a[8]) ** 2, a[10] * x * z,
    ]


def s_dt(x, y, a):
    z = 360 - y
    return [
        logistic(x, *a[:3]), -a[3] * x**2,
        logistic(y, *a[4:7]), -a[7] * y**2, a[8] * x * y,
        logistic(z, *a[9:12]), -a[12] * z**2, a[13] * x * z,
    ]


def s_dt_gauss(x, y, a):
    return [logistic(x, *a[:3]), -a[3] * x**2, bell(y, *a[4:7]), bell(360 - y, *a[7:10])]


def s_dt_gauss_comb(x, y, a):
    z = 360 - y
    return [
        logistic(x, *a[:3]), -a[3] * x**2, bell(y, *a[4:7]), a[7] * x * y,
        bell(z, *a[8:11]), a[11] * x * z,
    ]


def s_gauss(x, y, a):
    return [logistic(x, *a[:3]), bell(y, *a[3:6]), bell(360 - y, *a[6:9])]


def s_gauss_square(x, y, a):
    f = y * (360 - y)
    return [
        f * logistic(x, *a[:3]), -f * a[3] * x**2,
        f * x * bell(y, *a[4:7]), f * x * bell(360 - y, *a[7:10]),
    ]


def poly(deg):
    return lambda x, a: [a[i] * x**i for i in range(deg + 1)]


# name -> (terms, number of parameters, indices of variances)
TWO = {
    "ws_concave_dt_wa": (concave_dt, 11, ()),
    "ws_wa_s_dt": (s_dt, 14, ()),
    "ws_s_dt_wa_gauss": (s_dt_gauss, 10, (6, 9)),
    "ws_s_s_dt_wa_gauss_comb": (s_dt_gauss_comb, 12, (6, 10)),
    "ws_s_wa_gauss": (s_gauss, 9, (5, 8)),
    "ws_s_wa_gauss_and_square": (s_gauss_square, 10, (6, 9)),
    "ws_times_wa": (lambda x, y, a: [a[0] * x * y], 1, ()),
}
# (name, keywords) -> the same for functions of one variable
ONE = {
    ("polynomial_function", ()): (poly(1), 2, ()),
    ("polynomial_function", (("deg", 0),)): (poly(0), 1, ()),
    ("polynomial_function", (("deg", 2),)): (poly(2), 3, ()),
    ("polynomial_function", (("deg", 4),)): (poly(4), 5, ()),
    ("inverted_parabola", ()): (lambda x, a: [a[1], a[2] * (x - a[0]) ** 2], 3, ()),
    ("inverted_shifted_parabola", ()): (lambda x, a: [a[0] * x, a[2] * (x - a[1]) ** 2], 3, ()),
    ("concave_function", ()): (lambda x, a: [a[0], a[1] * x, -a[2] * x**2], 3, ()),
    ("concave_function", (("downturn", True), ("sat_limit", True))): (
        lambda x, a: [a[2], -a[0] * exp(a[1] - x), -a[3] * x**2], 4, (),
    ),
    ("concave_function", (("downturn", False), ("sat_limit", True))): (
        lambda x, a: [a[2], -a[0] * exp(a[1] - x)], 3, (),
    ),
    ("s_shaped", ()): (lambda x, a: [logistic(x, *a[:3]), -a[3] * x**2], 4, ()),
    ("s_shaped", (("downturn", False),)): (lambda x, a: [logistic(x, *a[:3])], 3, ()),
    ("gaussian_model", ()): (lambda x, a: [bell(x, *a[:3])], 3, (2,)),
    ("gaussian_model", (("offset", True),)): (lambda x, a: [bell(x, *a[:3]), a[3]], 4, (2,)),
    ("gmm_model", ()): (lambda x, a: [bell(x, *a[:3]), bell(x, *a[3:6]), a[6]], 7, (2, 5)),
}


@st.composite
def parameters(draw, n, variances):
    num = st.one_of(st.integers(-5, 5), gen.floats(-3, 3), gen.grid(-3, 3))
    var = st.one_of(st.integers(1, 5000), gen.floats(0.5, 5000))
    return [draw(var if i in variances else num) for i in range(n)]


def values(lo, hi):
    return st.one_of(
        st.lists(st.integers(lo, hi), min_size=1, max_size=5),
        st.lists(gen.nice(lo, hi), min_size=1, max_size=5),
    )


FORMS = ["array", "number and array", "array and number", "column and row", "numbers"]


@st.composite
def two_cases(draw):
    name = draw(st.sampled_from(sorted(TWO)))
    ws, wa = draw(values(0, 40)), draw(values(0, 360))
    return {
        "f": name,
        "params": draw(parameters(TWO[name][1], TWO[name][2])),
        "extra": draw(st.integers(0, 2)) if name != "ws_times_wa" else 0,
        "ws": ws,
        "wa": wa,
        "form": draw(st.sampled_from(FORMS + (["lists"] if name == "ws_times_wa" else []))),
    }


def pairs_of(c):
    """-> (the arguments, the pairs of numbers they stand for in that shape)."""
    ws, wa = c["ws"], c["wa"]
    if c["form"] == "numbers":
        return (ws[0], wa[0]), (ws[0], wa[0])
    if c["form"] == "number and array":
        return (ws[0], np.array(wa)), [(ws[0], y) for y in wa]
    if c["form"] == "array and number":
        return (np.array(ws), wa[0]), [(x, wa[0]) for x in ws]
    if c["form"] == "column and row":
        return (np.array(ws)[:, None], np.array(wa)[None, :]), [[(x, y) for y in wa] for x in ws]
    n = min(len(ws), len(wa))
    a = (ws[:n], wa[:n])
    if c["form"] == "array":
        a = tuple(map(np.array, a))
    return a, list(zip(ws[:n], wa[:n]))


def compare(got, terms, *args):
    """`terms` is the nested list of the terms of every value."""
    if isinstance(terms[0], list):
        got = np.asarray(got)
        expect(got.ndim > 0 and len(got) == len(terms), "wrong shape", got, *args)
        for g, t in zip(got, terms):
            compare(g, t, *args)
        return
    expect(np.ndim(got) == 0, "one value expected", got, *args)
    tol = 1e-9 * (sum(map(abs, terms)) + 1e-300)
    expect(
        abs(float(got) - math.fsum(terms)) <= tol,
        "not the documented formula", float(got), math.fsum(terms), *args,
    )


def nested(f, x):
    return [nested(f, y) for y in x] if isinstance(x, list) else f(x)


@REG.facet(two_cases(), quick=600, rule="a model of wind speed and angle on more than one pair with non-zero parameters")
def test_models(c, cx):
    """Models of wind speed and wind angle"""
    terms, n, _ = TWO[c["f"]]
    args, pts = pairs_of(c)
    params = c["params"] + [7.5] * c["extra"]
    before = frozen(args)
    with np.errstate(all="ignore"):
        got = getattr(mf, c["f"])(*args, *params)
    expect(frozen(args) == before, "arguments changed", args)
    cx.label(c["f"])
    cx.label(c["form"])
    cx.nontrivial(any(c["params"]) and c["form"] != "numbers")
    compare(got, nested(lambda p: terms(float(p[0]), float(p[1]), c["params"]), pts), c["f"], args, params)


@st.composite
def one_cases(draw):
    k = draw(st.integers(0, len(ONE) - 1))
    (_, _), (_, n, var) = list(ONE.items())[k]
    return {
        "k": k,
        "params": draw(parameters(n, var)),
        "x": draw(values(-20, 60)),
        "array": draw(st.booleans()),
    }


@REG.facet(one_cases(), quick=600, rule="an array of several different numbers and a non-zero parameter")
def test_one_variable(c, cx):
    """The functions of one variable the models are made of"""
    (name, kw), (terms, n, _) = list(ONE.items())[c["k"]]
    x = np.array(c["x"]) if c["array"] else c["x"][0]
    before = frozen(x)
    with np.errstate(all="ignore"):
        got = getattr(m2, name)(x, *c["params"], **dict(kw))
    expect(frozen(x) == before, "argument changed", x)
    cx.label(f"{name} {dict(kw) or ''}")
    cx.nontrivial(c["array"] and len(set(c["x"])) > 1 and any(c["params"]))
    # the constant polynomial need not be spread over the array
    if name == "polynomial_function" and c["array"]:
        got = np.broadcast_to(got, x.shape)
    pts = c["x"] if c["array"] else c["x"][0]
    compare(got, nested(lambda v: terms(float(v), c["params"]), pts), name, kw, x, c["params"])


@REG.facet(one_cases(), quick=30, rule="always")
def test_no_concave(c, cx):
    """A concave function without downturn and limit is refused"""
    cx.nontrivial(True)
    must_raise(
        "a function with neither downturn nor limit",
        lambda: mf.concave_function(np.array(c["x"]), *(c["params"] * 4)[:4], downturn=False, sat_limit=False),
        ValueError,
    )
