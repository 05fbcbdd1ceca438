"""Strategies for plain (JSON) data shared by the checks."""
import math

from hypothesis import strategies as st


def grid(lo, hi, den=64):
    """Dyadic rationals: sums, halves and +-360 shifts are exact."""
    return st.integers(math.ceil(lo * den), math.floor(hi * den)).map(
        lambda n: n / den
    )


def floats(lo, hi):
    return st.floats(
        lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False
    )


def nice(lo, hi):
    """Whole numbers, dyadic and arbitrary floats in [lo, hi]."""
    a, b = math.ceil(lo), math.floor(hi)
    opts = [grid(lo, hi), floats(lo, hi)]
    if a <= b:
        opts.insert(0, st.integers(a, b).map(float))
    return st.one_of(*opts)


def wild():
    """Any finite double, incl. -0.0, subnormals and huge values."""
    return st.floats(allow_nan=False, allow_infinity=False)


def uniq(elem, lo, hi, key=None):
    return st.lists(elem, min_size=lo, max_size=hi, unique_by=key or (lambda x: x))


def speeds(lo=1, hi=5, low=0.0, high=40.0):
    return uniq(nice(low, high).map(lambda x: x + 0.0), lo, hi)


def angles(lo=1, hi=7, low=0.0, high=360.0, dyadic=False):
    """Distinct wind angles in [low, high)."""
    top = high - 1 / 64
    e = grid(low, top)
    if not dyadic:
        e = st.one_of(
            st.integers(int(low), int(top)).map(float),
            e,
            floats(low, top),
        )
    return uniq(e.map(lambda x: x + 0.0), lo, hi)


def turn():
    return st.sampled_from([0, 0, 0, 360, -360, 720, -720, 1080])


@st.composite
def matrix(draw, elem, rows, cols):
    return [[draw(elem) for _ in range(cols)] for _ in range(rows)]


@st.composite
def table(
    draw,
    ws=(1, 5),
    wa=(1, 7),
    elem=None,
    wa_low=0.0,
    wa_high=360.0,
    dyadic=False,
    ws_low=0.0,
    sort=False,
):
    w = draw(speeds(*ws, low=ws_low))
    a = draw(angles(*wa, low=wa_low, high=wa_high, dyadic=dyadic))
    if sort:
        w, a = sorted(w), sorted(a)
    b = draw(matrix(elem if elem is not None else nice(0, 20), len(a), len(w)))
    return {"ws": w, "wa": a, "bsp": b}


@st.composite
def points(draw, lo=1, hi=12, ws_low=0.0, bsp=None, dyadic=False):
    n = draw(st.integers(lo, hi))
    ang = grid(0, 360 - 1 / 64) if dyadic else nice(0, 359.9)
    return [
        [
            draw(nice(ws_low, 40)) + 0.0,
            draw(ang) + 0.0,
            draw(bsp if bsp is not None else nice(0, 20)),
        ]
        for _ in range(n)
    ]
