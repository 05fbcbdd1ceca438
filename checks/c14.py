"""C14: imputation fills gaps only between close measurements."""
import datetime as dt

from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import frozen
from hrosailing.core.data import Data
from hrosailing.processing.imputator import FillLocalImputator, RemoveOnlyImputator

REG = Registry(
    "C14",
    [
        "the data is stored chronologically and has a column 'datetime' with"
        " at least one time stamp (both documented)",
        "no time difference equals the configured limit exactly",
    ],
)
T0 = dt.datetime(2022, 5, 6, 7, 8, 9)
KEYS = ["TWS", "TWA", "BSP", "sail"]


def val(k, n):
    if n is None:
        return None
    # (an empty text and a zero are entries like any other)
    return (f"s{n}" if n % 5 else "") if k == "sail" else n / 2


def stamp(s):
    return None if s is None else T0 + dt.timedelta(seconds=s)


@st.composite
def gappy(draw, n, p):
    e = st.integers(0, 99)
    if p == 0:
        return [draw(e) for _ in range(n)]
    gap = st.integers(0, 9).map(lambda k: k < p)
    return [None if draw(gap) else draw(e) for _ in range(n)]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 12))
    step = st.sampled_from([0, 1, 1, 2, 5, 10, 20, 30, 45, 70, 130, 1000])
    t, times = 0, []
    for _ in range(n):
        t += draw(step)
        times.append(t)
    # from milliseconds to days
    unit = draw(st.sampled_from([1, 1, 1, 1, 0.001, 60, 3600, 20000, 86400]))
    times = [t * unit for t in times]
    p = draw(st.sampled_from([0, 0, 2, 5]))
    if p:
        gaps = [draw(st.integers(0, 9)) < p for _ in range(n)]
        keep = draw(st.integers(0, n - 1))
        times = [None if g and i != keep else t for i, (g, t) in enumerate(zip(gaps, times))]
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=3, unique=True))
    return {
        "times": times,
        "cols": {k: draw(gappy(n, draw(st.sampled_from([0, 3, 6, 9, 10])))) for k in keys},
        "limit": draw(st.sampled_from([None] * (unit == 1) + [unit * k for k in (1, 7, 31, 90, 600)])),
        "rules": draw(st.booleans()),
        "first": draw(st.booleans()),
    }


def limit_of(c):
    # off the grid of the generated differences, also of interpolated ones
    if c["limit"] is None:
        return dt.timedelta(minutes=2)
    return dt.timedelta(seconds=c["limit"], microseconds=123457)


def at_limit(times, lim):
    known = [t for t in times if t is not None]
    return any(abs(a - b) == lim for a in known for b in known)


def reference(times, cols, lim, before, between, after):
    """The documented procedure, entry by entry.

    -> (rows, removed columns, removed rows, filled entries)
    """
    n = len(times)
    cols = {k: list(v) for k, v in cols.items()}
    removed_cols = sum(all(v is None for v in c) for c in cols.values())
    cols = {k: v for k, v in cols.items() if not all(x is None for x in v)}
    full = list(times)
    known = [i for i in range(n) if times[i] is not None]
    for a, b in zip(known, known[1:]):
        if times[b] - times[a] <= lim:
            for j in range(a + 1, b):
                full[j] = times[a] + (j - a) / (b - a) * (times[b] - times[a])
    keep = [i for i in range(n) if full[i] is not None]
    removed = n - len(keep)
    t = [full[i] for i in keep]
    m = len(keep)
    if at_limit(t, lim):
        return None
    out = {}
    filled = 0
    for k, v in cols.items():
        v = [v[i] for i in keep]
        new = list(v)
        for i in range(m):
            if v[i] is not None:
                continue
            left = [j for j in range(i) if v[j] is not None and t[i] - t[j] < lim]
            right = [j for j in range(i + 1, m) if v[j] is not None and t[j] - t[i] < lim]
            if not left and not right:
                continue
            filled += 1
            if not left:
                r = right[0]
                new[i] = before(k, v[r], (t[r] - t[i]) / lim)
            elif not right or t[right[0]] - t[left[-1]] > lim:
                le = left[-1]
                new[i] = after(k, v[le], (t[i] - t[le]) / lim)
            else:
                le, r = left[-1], right[0]
                span = t[r] - t[le]
                new[i] = between(k, v[le], v[r], (t[i] - t[le]) / span if span else 1)
        out[k] = new
    rows = [
        {"datetime": t[i], **{k: out[k][i] for k in out}}
        for i in range(m)
        if all(out[k][i] is not None for k in out)
    ]
    removed += m - len(rows)
    return rows, removed_cols, removed, filled


def num(x):
    return float(x) if not isinstance(x, str) else float(len(x))


def b1(name, right, mu):
    return f"{right}<{mu:.9f}" if name == "sail" else right + 1000 * mu + 7


def b2(name, left, right, mu):
    return f"{left}|{right}{mu:.9f}" if name == "sail" else (1 - mu) * left + mu * right + 0.25


def b3(name, left, mu):
    return f"{left}>{mu:.9f}" if name == "sail" else left - 1000 * mu - 3


@REG.facet(
    cases(),
    quick=4000,
    rule="1-12 measurements with missing values and time stamps, gaps from 0"
    " to 1000 s, limits from 1 s to 10 min, default and position dependent"
    " rules; compared with an entry by entry restatement; non-trivial:"
    " something is filled or interpolated and something is removed",
)
def fill_local(c, cx):
    lim = limit_of(c)
    times = [stamp(s) for s in c["times"]]
    cols = {k: [val(k, n) for n in v] for k, v in c["cols"].items()}
    if at_limit(times, lim):
        return
    rules = (b1, b2, b3) if c["rules"] else (
        lambda name, right, mu: right,
        lambda name, left, right, mu: left,
        lambda name, left, mu: left,
    )
    ref = reference(times, cols, lim, *rules)
    if ref is None:
        return
    rows, rcols, rrows, filled = ref
    given = {"datetime": times, **cols} if c["first"] else {**cols, "datetime": times}
    d = Data.from_dict(given)
    kw = {} if c["limit"] is None else {"max_time_diff": lim}
    if c["rules"]:
        kw.update(fill_before=b1, fill_between=b2, fill_after=b3)
    imp = FillLocalImputator(**kw)
    got = imp.impute(d)
    cx.nontrivial((filled > 0 or len(rows) > len([t for t in times if t])) and rrows > 0)
    if filled:
        cx.label("filled")
    if None in c["times"]:
        cx.label("missing time stamps")
    have = [dict(r) for r in got.rows()]
    expect(
        len(have) == len(rows),
        f"{len(have)} rows, expected {len(rows)}: {have} vs {rows}",
    )
    for i, (h, r) in enumerate(zip(have, rows)):
        expect(set(h) == set(r), f"row {i} has columns {sorted(h)}, expected {sorted(r)}")
        for k in r:
            if isinstance(r[k], float):
                ok = isinstance(h[k], float) and abs(h[k] - r[k]) <= 1e-6
            else:
                ok = h[k] == r[k]
            expect(ok, f"row {i}, {k}: {h[k]!r}, expected {r[k]!r}")
    stat = imp.get_latest_statistics()
    want = {
        "n_removed_cols": rcols,
        "n_removed_rows": rrows,
        "n_filled_fields": filled,
        "n_rows": len(rows),
        "n_cols": got.n_cols,
    }
    for k, v in want.items():
        expect(stat.get(k) == v, f"statistic {k} is {stat.get(k)}, counted {v}")
    # used again: same answer
    again = imp.impute(Data.from_dict(given))
    expect(
        frozen([sorted(r.items()) for r in again.rows()])
        == frozen([sorted(r.items()) for r in got.rows()]),
        "a second use gives something else",
    )
    expect(imp.get_latest_statistics() == stat, "statistics of a second use differ")
    expect(
        frozen(given["datetime"]) == frozen(times)
        and all(frozen(given[k]) == frozen([val(k, n) for n in c["cols"][k]]) for k in cols),
        "the caller's lists were changed",
    )


@st.composite
def remove_cases(draw):
    n = draw(st.integers(0, 10))
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))
    return {k: draw(gappy(n, draw(st.sampled_from([0, 1, 3, 10])))) for k in keys}


@REG.facet(
    remove_cases(),
    quick=2000,
    rule="0-10 rows with missing entries; non-trivial: some but not all rows"
    " are complete",
)
def remove_only(c, cx):
    cols = {k: [val(k, n) for n in v] for k, v in c.items()}
    n = max(map(len, cols.values()))
    rows = [{k: cols[k][i] for k in cols} for i in range(n)]
    want = [r for r in rows if None not in r.values()]
    cx.nontrivial(0 < len(want) < n)
    imp = RemoveOnlyImputator()
    got = imp.impute(Data.from_dict(cols))
    have = [dict(r) for r in got.rows()]
    expect(have == want, f"{have}, complete rows are {want}")
    expect(got.n_rows == len(want), f"n_rows is {got.n_rows}")
    stat = imp.get_latest_statistics()
    expect(stat["n_removed_rows"] == n - len(want), f"{n - len(want)} rows removed, statistics {stat}")
    expect(
        stat["n_rows"] == len(want) and stat["n_removed_cols"] == 0
        and stat["n_filled_fields"] == 0 and stat["n_cols"] == len(cols),
        f"statistics {stat}",
    )


# ---- large ----
def big_gappy(r, n):
    p = r.choice([0, 0.3, 0.6, 0.95, 1])
    if r.random() < 0.3:  # gaps of many rows
        out = []
        while len(out) < n:
            out += r.choice([[None] * r.randint(1, 40), [r.randint(0, 99) for _ in range(r.randint(1, 20))]])
        return out[:n]
    return [None if r.random() < p else r.randint(0, 99) for _ in range(n)]


def big_case(r, n):
    steps = r.choice([[0, 1, 1, 2, 5], [1], [1, 2, 5, 10, 20, 30, 45, 70, 130, 1000], [20, 30, 45]])
    t, times = 0, []
    for _ in range(n):
        t += r.choice(steps)
        times.append(t)
    p = r.choice([0, 0, 0.2, 0.7])
    keep = r.randrange(n)
    if p:
        times = [None if r.random() < p and i != keep else x for i, x in enumerate(times)]
    return {
        "times": times, "cols": {k: big_gappy(r, n) for k in r.sample(KEYS, r.randint(1, 3))},
        "limit": r.choice([None, 1, 7, 31, 90, 600]), "rules": r.random() < 0.5, "first": r.random() < 0.5,
    }


def big_remove(r, n):
    return {k: big_gappy(r, n) for k in r.sample(KEYS, r.randint(1, 4))}


big.large(REG, fill_local, big_case, hi=250, quick=100, what="rows")
big.large(REG, remove_only, big_remove, hi=1500, quick=40, what="rows")
