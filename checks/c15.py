"""C15: affine smoothing joins plateaus by lines and changes nothing else."""
import datetime as dt

from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import frozen, must_raise
from hrosailing.core.data import Data
from hrosailing.processing.smoother import AffineSmoother, LazySmoother

REG = Registry(
    "C15",
    [
        "columns are complete (missing entries are the imputator's business)",
        "where several measurements share a time stamp only the invariants"
        " are judged, not the values at that time",
    ],
)
T0 = dt.datetime(2022, 5, 6, 7, 8, 9)


# offset and unit of a column: also steps that are tiny next to the values
FINE = st.sampled_from(
    [(0, 1)] * 6
    + [(1013.25, 1e-3), (54.32, 1e-5), (-12000, 1e-2), (0, 1e-9), (0, 1e6)]
)


@st.composite
def cases(draw, lo=1, strict=True):
    n = draw(st.integers(lo, 14))
    step = st.one_of(
        st.integers(1, 60), st.sampled_from([1, 5, 10, 20, 40]),
        st.sampled_from([0.5, 0.25, 300, 86400]),
    )
    if not strict:
        step = st.one_of(st.just(0), step)
    t, times = 0, []
    for i in range(n):
        t += draw(step) if i else 0
        times.append(t)

    def series():
        out = []
        base, unit = draw(FINE)
        while len(out) < n:
            out += [base + unit * draw(gen.nice(-20, 40))] * draw(
                st.sampled_from([1, 1, 2, 3, 5])
            )
        return out[:n]

    return {
        "times": times,
        "cols": [series() for _ in range(draw(st.integers(1, 2)))],
        "span": draw(st.one_of(st.none(), st.sampled_from([0, 1, 5, 15, 30, 120]), gen.nice(0, 60))),
        "const": draw(gen.nice(-5, 5)),
        "names": draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=2, unique=True)),
        "swap": draw(st.integers(0, 12)),
    }


NAMES = ["TWS", "TWA", "AWS", "AWA", "BSP", "SOG", "WSP", "lat", "lon", "HDG", "HDT", "COG", "temp", "y0"]


def names(c):
    return c.get("names") or NAMES[: len(c["cols"])]


def build(c):
    n = len(c["times"])
    cols = {
        "datetime": [T0 + dt.timedelta(seconds=s) for s in c["times"]],
        "sail": [f"s{i % 3}" for i in range(n)],
        "count": list(range(n)),
        "constant": [c["const"]] * n,
        "flag": [i % 2 == 0 for i in range(n)],
    }
    for i, s in enumerate(c["cols"]):
        cols[names(c)[i]] = [float(v) for v in s]
    return cols


def smoother(c):
    if c["span"] is None:
        return AffineSmoother(), 30.0
    td = dt.timedelta(seconds=c["span"])
    return AffineSmoother(timespan=td), td.total_seconds()


def reference(ts, ys, span):
    """Plateaus reach half way to their neighbours; within span of a border
    the value passes linearly to the mean of the two plateaus."""
    runs = []
    for t, y in zip(ts, ys):
        if runs and runs[-1][2] == y:
            runs[-1][1] = t
        else:
            runs.append([t, t, y])
    borders = [ts[0]] + [(a[1] + b[0]) / 2 for a, b in zip(runs, runs[1:])] + [ts[-1]]
    out = []
    for t in ts:
        k = 0
        while t > borders[k + 1]:
            k += 1
        lo, hi, y = borders[k], borders[k + 1], runs[k][2]
        left = runs[k - 1][2] if k > 0 else y
        right = runs[k + 1][2] if k + 1 < len(runs) else y
        w = min(span, (hi - lo) / 2)
        if t - lo < w:
            mu = (t - lo) / w
            out.append((1 - mu) * (left + y) / 2 + mu * y)
        elif hi - t < w:
            mu = (hi - t) / w
            out.append((1 - mu) * (right + y) / 2 + mu * y)
        else:
            out.append(y)
    return out


@REG.facet(
    cases(),
    quick=3500,
    rule="1-14 measurements, plateaus of 1 to 5 equal values, steps from"
    " 0.25 s to a day, time spans from 0 to 2 min; compared with a"
    " restatement of the documented rule; non-trivial: at least two plateaus,"
    " one longer than a single value",
)
def values(c, cx):
    cols = build(c)
    sm, span = smoother(c)
    given = {k: list(v) for k, v in cols.items()}
    out = sm.smooth(Data.from_dict(given))
    expect(frozen(given) == frozen(cols), "the caller's lists were changed")
    n = len(c["times"])
    expect(out.n_rows == n, f"{out.n_rows} rows of {n}")
    expect(sorted(out.keys()) == sorted(cols), f"columns {out.keys()}")
    for k in cols:
        got = list(out[k])
        if k in names(c):
            want = reference(c["times"], cols[k], span)
            runs = len([1 for a, b in zip(cols[k], cols[k][1:]) if a != b]) + 1
            cx.nontrivial(1 < runs < n)
            tol = 1e-8 * (max(cols[k]) - min(cols[k])) + 1e-12 * max(map(abs, cols[k]))
            if 1 < runs and max(map(abs, cols[k])) > 1e3 * (max(cols[k]) - min(cols[k])):
                cx.label("steps tiny next to the values")
            expect(
                len(got) == n and all(abs(g - w) <= tol for g, w in zip(got, want)),
                f"{cols[k]} at {c['times']} with span {span} became {got}, expected {want}",
            )
        elif k == "constant":
            expect(
                all(abs(g - w) <= 1e-12 * (1 + abs(w)) for g, w in zip(got, cols[k])),
                f"constant column became {got}",
            )
        else:
            expect(frozen(got) == frozen(cols[k]), f"column {k} became {got}, was {cols[k]}")
    again = sm.smooth(Data.from_dict(given))
    expect(
        all(frozen(list(again[k])) == frozen(list(out[k])) for k in cols),
        "a second use gives something else",
    )


@REG.facet(
    cases(strict=False),
    quick=1500,
    rule="series that may hold several measurements per time stamp; values"
    " within the range of the column, everything else unchanged; non-trivial:"
    " a repeated time stamp",
)
def range_kept(c, cx):
    cols = build(c)
    sm, _ = smoother(c)
    cx.nontrivial(len(set(c["times"])) < len(c["times"]))
    out = sm.smooth(Data.from_dict({k: list(v) for k, v in cols.items()}))
    for k in cols:
        got = list(out[k])
        if k in names(c) or k == "constant":
            lo, hi = min(cols[k]), max(cols[k])
            tol = 1e-12 * (abs(lo) + abs(hi))
            expect(
                len(got) == len(cols[k]) and all(lo - tol <= g <= hi + tol for g in got),
                f"{cols[k]} became {got}",
            )
        else:
            expect(frozen(got) == frozen(cols[k]), f"column {k} became {got}")


@REG.facet(
    cases(lo=2),
    quick=800,
    rule="series with one pair of time stamps out of order; non-trivial: the"
    " pair is not the first one",
)
def unsorted(c, cx):
    cols = build(c)
    i = c["swap"] % (len(c["times"]) - 1)
    t = cols["datetime"]
    t[i], t[i + 1] = t[i + 1], t[i]
    cx.nontrivial(i > 0)
    sm, _ = smoother(c)
    must_raise(
        f"time stamps {[str(x) for x in t]}", lambda: sm.smooth(Data.from_dict(cols)), ValueError
    )


@REG.facet(
    cases(strict=False),
    quick=400,
    rule="the lazy smoother on any series, sorted or not; non-trivial: at"
    " least two measurements",
)
def lazy(c, cx):
    cols = build(c)
    cols["datetime"].reverse()
    cols[names(c)[0]][0] = None
    cx.nontrivial(len(c["times"]) > 1)
    out = LazySmoother().smooth(Data.from_dict({k: list(v) for k, v in cols.items()}))
    expect(
        sorted(out.keys()) == sorted(cols)
        and all(frozen(list(out[k])) == frozen(cols[k]) for k in cols),
        "the lazy smoother changed the data",
    )


# ---- large ----
def big_case(strict):
    def expand(r, n):
        steps = r.choice([[1], [1, 5, 10, 20, 40], [0.5, 0.25, 300], [r.randint(1, 60)]])
        t, times = 0, []
        for i in range(n):
            t += (r.choice(steps) if strict or r.random() < 0.7 else 0) if i else 0
            times.append(t)

        def series():
            runs = r.choice([[1], [1, 1, 2, 3, 5], [1, 40], [n // 3 + 1]])
            base, unit = r.choice([(0, 1), (0, 1), (1013.25, 1e-3), (54.32, 1e-5)])
            out = []
            while len(out) < n:
                out += [base + unit * r.num(-20, 40)] * r.choice(runs)
            return out[:n]

        return {
            "times": times, "cols": [series() for _ in range(r.randint(1, 3))],
            "span": r.choice([None, 0, 1, 5, 15, 30, 120, r.num(0, 60)]), "const": r.num(-5, 5), "swap": r.randrange(n),
        }
    return expand


big.large(REG, values, big_case(True), hi=400, quick=60, what="rows")
big.large(REG, range_kept, big_case(False), hi=400, quick=30, what="rows")
big.large(REG, unsorted, big_case(True), hi=400, quick=30, what="rows")
big.large(REG, lazy, big_case(False), hi=400, quick=10, what="rows")
