"""C13: weighted points keep points and weights paired."""
import datetime as dt

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import frozen
from hrosailing.core.data import Data, WeightedPoints

REG = Registry(
    "C13",
    [
        "columns of a dictionary hold values of one type",
        "a dictionary that is extended keeps the columns both have, measurement"
        " data all columns, as documented",
    ],
)
KEYS = ["TWS", "TWA", "BSP", "sail", "datetime"]
KIND = {"TWS": "f", "TWA": "f", "BSP": "f", "sail": "s", "datetime": "d"}


def value(k, n):
    if n is None:
        return None
    if KIND[k] == "f":
        return n / 8
    if KIND[k] == "s":
        return f"sail {n % 5}"
    return dt.datetime(2021, 3, 4) + dt.timedelta(seconds=n)


@st.composite
def points(draw, kind, lo=0):
    n = draw(st.integers(lo, 6))
    if kind == "array":
        keys = ["TWS", "TWA", "BSP"]
    else:
        keys = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=4, unique=True))
    num = st.integers(0, 300)
    if kind != "array":
        num = st.one_of(num, num, num, st.none())
    rows = [[draw(num) for _ in keys] for _ in range(n)]
    w = draw(st.one_of(st.lists(gen.nice(0, 1), min_size=n, max_size=n), st.sampled_from([1, 0.5, 0.0])))
    return {"keys": keys, "rows": rows, "w": w, "list": draw(st.booleans()), "scalar": draw(st.sampled_from(["", "", "float32", "float64", "int64", "zero-dim"]))}


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["array", "dict", "data"]))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.booleans()):
            ops.append({"op": "select", "bits": draw(st.integers(0, 2**20 - 1)), "list": draw(st.booleans())})
        else:
            ops.append({"op": "extend", "by": draw(points(kind)), "drop": draw(st.booleans())})
    return {"kind": kind, "start": draw(points(kind, lo=1)), "ops": ops}


def build(kind, p):
    """-> (object, keys, [(record, weight)])"""
    recs = [{k: value(k, n) for k, n in zip(p["keys"], r)} for r in p["rows"]]
    if kind == "array":
        data = np.array([[r[k] for k in p["keys"]] for r in recs], float).reshape(-1, 3)
    else:
        cols = {k: [r[k] for r in recs] for k in p["keys"]}
        data = cols if kind == "dict" else Data.from_dict(cols)
    w = p["w"]
    ws = [float(w)] * len(recs) if not isinstance(w, list) else list(w)
    given = w if not isinstance(w, list) or p["list"] else np.array(w, float)
    if not isinstance(w, list) and p.get("scalar") and (p["scalar"] != "int64" or w == int(w)):
        given = np.array(w) if p["scalar"] == "zero-dim" else getattr(np, p["scalar"])(w)
    return WeightedPoints(data, given), list(p["keys"]), list(zip(recs, ws)), data, given


def read(kind, wp, keys):
    w = np.asarray(wp.weights, float)
    if kind == "array":
        rows = [dict(zip(keys, map(float, r))) for r in np.asarray(wp.data, float).reshape(-1, 3)]
    elif kind == "dict":
        cols = {k: list(v) for k, v in wp.data.items()}
        expect(sorted(cols) == sorted(keys), f"columns {sorted(cols)}, expected {sorted(keys)}")
        n = len(w)
        expect(all(len(v) == n for v in cols.values()), f"{n} weights for columns {cols}")
        rows = [{k: cols[k][i] for k in cols} for i in range(n)]
    else:
        expect(isinstance(wp.data, Data), "not measurement data any more")
        rows = list(wp.data.rows())
    expect(len(rows) == len(w), f"{len(w)} weights for {len(rows)} points")
    return [(r, float(x)) for r, x in zip(rows, w)]


def matches(got, want, keys):
    if len(got) != len(want):
        return False
    return all(
        gw == ww and all(g.get(k) == r.get(k) for k in keys) and set(g) == set(keys)
        for (g, gw), (r, ww) in zip(got, want)
    )


def snap(kind, wp):
    d = wp.data
    if isinstance(d, Data):
        d = {k: list(d[k]) for k in d.keys()}
    return frozen(d), frozen(np.asarray(wp.weights))


@REG.facet(
    cases(),
    quick=3500,
    rule="points as arrays, dictionaries and measurement data with list,"
    " array and scalar weights; 1-6 selections and extensions, compared with"
    " a list of (record, weight) after every step; non-trivial: a selection"
    " that keeps some but not all points",
)
def histories(c, cx):
    kind = c["kind"]
    cx.label(kind)
    wp, keys, model, data, given = build(kind, c["start"])
    if not model:
        return
    got = read(kind, wp, keys)
    expect(matches(got, model, keys), f"initially {got}, expected {model}")
    for i, o in enumerate(c["ops"]):
        if o["op"] == "select":
            mask = [bool(o["bits"] >> j & 1) for j in range(len(model))]
            before = snap(kind, wp)
            new = wp[mask if o["list"] and kind != "dict" else np.array(mask, bool)]
            expect(snap(kind, wp) == before, "a selection changed the points selected from")
            cx.nontrivial(any(mask) and not all(mask))
            model = [m for m, b in zip(model, mask) if b]
            expect(isinstance(new, WeightedPoints), "selection is not weighted points")
            wp = new
        else:
            by, k2, m2, _, _ = build(kind, o["by"])
            if not m2 or (kind == "dict" and not set(k2) & set(keys)):
                continue
            before = snap(kind, by)
            wp.extend(by)
            expect(snap(kind, by) == before, "extending changed the points extended by")
            if kind == "dict":
                keys = [k for k in keys if k in k2]
            elif kind == "data":
                keys = keys + [k for k in k2 if k not in keys]
            model = model + m2
            cx.label("extended")
        got = read(kind, wp, keys)
        expect(
            matches(got, model, keys),
            f"after step {i + 1} ({o['op']}): {got}, expected {model}",
        )


@st.composite
def twice_cases(draw):
    kind = draw(st.sampled_from(["array", "dict", "data"]))
    return {
        "kind": kind,
        "a": draw(points(kind, lo=1)),
        "b": draw(points(kind, lo=1)),
        "bits": draw(st.integers(0, 2**12 - 1)),
    }


@REG.facet(
    twice_cases(),
    quick=1200,
    rule="what was given stays as it was while the points are selected from"
    " and extended; a selection is independent of what happens to its source;"
    " non-trivial: at least two points",
)
def independence(c, cx):
    kind = c["kind"]
    wp, keys, model, data, given = build(kind, c["a"])
    by, k2, m2, _, _ = build(kind, c["b"])
    cx.nontrivial(len(model) > 1)

    def state(x):
        return frozen({k: list(x[k]) for k in x.keys()} if isinstance(x, Data) else x)

    before = state(data), frozen(given)
    mask = np.array([bool(c["bits"] >> j & 1) for j in range(len(model))], bool)
    sub = wp[mask]
    if kind != "dict" or set(keys) & set(k2):
        wp.extend(by)
    expect((state(data), frozen(given)) == before, "the given points or weights were changed")
    want = [m for m, b in zip(model, mask) if b]
    expect(matches(read(kind, sub, keys), want, keys), "a selection changed with its source")
    again = WeightedPoints(data, given)
    expect(matches(read(kind, again, keys), model, keys), "the same points give something else")


# ---- large ----
def big_points(r, kind, n):
    keys = ["TWS", "TWA", "BSP"] if kind == "array" else r.sample(KEYS, r.randint(1, 4))
    gap = 0.2 if kind == "data" else 0
    rows = [[None if r.random() < gap else r.randint(0, 3000) for _ in keys] for _ in range(n)]
    w = r.choice([[r.num(0, 1) for _ in range(n)], [r.num(0, 1) for _ in range(n)], 1, 0.5])
    return {"keys": keys, "rows": rows, "w": w, "list": r.random() < 0.5}


def big_ops(r, n):
    kind = r.choice(["array", "dict", "data"])
    ops = []
    for _ in range(r.randint(1, 4)):
        if r.random() < 0.5:
            bits = r.getrandbits(4 * n) | (r.getrandbits(4 * n) if r.random() < 0.6 else 0)
            ops.append({"op": "select", "bits": bits, "list": r.random() < 0.5})
        else:
            ops.append({"op": "extend", "by": big_points(r, kind, r.choice([1, n, 2 * n])), "drop": r.random() < 0.5})
    return {"kind": kind, "start": big_points(r, kind, n), "ops": ops}


big.large(REG, histories, big_ops, hi=1500, quick=100, what="points")
