"""C11: the measurement data table stays rectangular and loses nothing."""
import datetime as dt

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import frozen, must_raise
from hrosailing.core.data import Data

REG = Registry(
    "C11",
    [
        "columns are added as lists or single values, as the container"
        " distinguishes them",
        "after a single extend or append the table is completed by fill(), as"
        " update() does itself",
    ],
)
KEYS = ["TWS", "TWA", "BSP", "datetime", "sail", "k"]
KINDS = ["float", "str", "int", "date", "bool"]
T0 = dt.datetime(2020, 1, 1)


def value(kind, n):
    if kind == "float":
        return n / 4
    if kind == "str":
        return f"s{n}"
    if kind == "int":
        return n
    if kind == "bool":
        return bool(n % 2)
    return T0 + dt.timedelta(seconds=n)


def plain(col, kind):
    return [None if n is None else value(kind, n) for n in col]


entry = st.one_of(st.none(), st.integers(0, 60), st.integers(0, 60))
key = st.sampled_from(KEYS)


@st.composite
def column(draw, lo=0, hi=4):
    return {
        "kind": draw(st.sampled_from(["own", "own", "own", "own"] + KINDS)),
        "col": draw(st.lists(entry, min_size=lo, max_size=hi)),
    }


@st.composite
def op(draw):
    name = draw(
        st.sampled_from(
            [
                "update", "update", "update", "update_equal", "update_data", "append",
                "extend", "fill", "fill_to", "rename", "del_col", "del_cols", "del_rows",
                "mask", "slice", "strip", "strip_rows", "strip_cols", "filter",
                "concat", "dump", "scalar",
            ]
        )
    )
    return {
        "op": name,
        "keys": draw(st.lists(key, min_size=1, max_size=4, unique=True)),
        "cols": [draw(column()) for _ in range(4)],
        "n": draw(st.integers(0, 6)),
        "ints": draw(st.lists(st.integers(0, 9), max_size=4)),
        "bits": draw(st.integers(0, 2**14 - 1)),
        "flag": draw(st.booleans()),
    }


@st.composite
def cases(draw):
    return {
        "kinds": {k: draw(st.sampled_from(KINDS)) for k in KEYS},
        "ops": draw(st.lists(op(), min_size=1, max_size=9)),
    }


class Model:
    """Columns as lists; nothing else."""

    def __init__(self, cols=None):
        self.cols = {k: list(v) for k, v in (cols or {}).items()}

    @property
    def n(self):
        return max((len(v) for v in self.cols.values()), default=0)

    def fill(self, n=None, keys=None):
        n = self.n if n is None else n
        for k in self.cols if keys is None else keys:
            self.cols.setdefault(k, [])
            self.cols[k] += [None] * (n - len(self.cols[k]))

    def kind(self, k):
        for v in self.cols.get(k, []):
            if v is not None:
                return type(v)
        return None

    def fits(self, k, col):
        types = {type(v) for v in col if v is not None} | ({self.kind(k)} - {None})
        return len(types) <= 1

    def update(self, d, compress=False):
        n = self.n
        for k in list(d) + list(self.cols):
            self.cols.setdefault(k, [])
            self.cols[k] += [None] * (n - len(self.cols[k]))
        if compress and n > 0 and all(self.cols[k][-1] is None for k in d):
            for k in d:
                self.cols[k].pop()
        for k, v in d.items():
            self.cols[k] += list(v) if isinstance(v, list) else [v]
        self.fill(max(n, self.n))

    def copy(self):
        return Model(self.cols)


def content(d):
    return {k: list(d[k]) for k in d.keys()}


def check(d, m, when):
    n = m.n
    expect(sorted(d.keys()) == sorted(m.cols), f"{when}: columns {d.keys()}, expected {sorted(m.cols)}")
    expect(d.n_cols == len(m.cols), f"{when}: n_cols {d.n_cols}")
    got = content(d)
    for k, col in m.cols.items():
        expect(
            frozen(got[k]) == frozen(col), f"{when}: column {k} is {got[k]}, expected {col}"
        )
        expect(k in d, f"{when}: {k} not in the data")
    expect(d.n_rows == n, f"{when}: n_rows {d.n_rows}, the columns have {n} entries")
    for k in m.cols:
        if m.kind(k) is not None:
            expect(d.type(k) is m.kind(k), f"{when}: type of {k} is {d.type(k)}")
    rows = [{k: m.cols[k][i] for k in m.cols} for i in range(n)]
    expect(frozen_rows(d) == [frozen(sorted(r.items())) for r in rows], f"{when}: iteration")
    expect(
        [frozen(sorted(r.items())) for r in d.rows()] == [frozen(sorted(r.items())) for r in rows],
        f"{when}: rows()",
    )
    order = list(m.cols)[::-1]
    for t in (list, tuple):
        forms = list(d.rows(keys=order, return_type=t))
        expect(
            len(forms) == n
            and all(
                frozen(list(f)) == frozen([r[k] for k in order]) for f, r in zip(forms, rows)
            ),
            f"{when}: rows as {t.__name__}: {[list(f) for f in forms]}",
        )
    for i in range(n):
        expect(frozen(sorted(d[i].items())) == frozen(sorted(rows[i].items())), f"{when}: row {i}")
    keys, arr = d.numerical
    want = [k for k in m.cols if m.kind(k) is float]
    full = [k for k in want if all(isinstance(v, float) for v in m.cols[k])]
    expect(set(full) <= set(keys), f"{when}: numerical columns {keys}, expected {want}")
    if full and set(keys) == set(full):
        expect(
            np.array_equal(np.asarray(arr, float), np.column_stack([m.cols[k] for k in keys])),
            f"{when}: numerical array {arr}",
        )
    for typ in {m.kind(k) for k in m.cols} - {None}:
        ks, vals = d.get_by_type(typ)
        for k in m.cols:
            if m.kind(k) is typ:
                expect(
                    k in ks and frozen(list(vals[ks.index(k)])) == frozen(m.cols[k]),
                    f"{when}: {k} missing among the columns of type {typ.__name__}",
                )
    str(d)


def frozen_rows(d):
    return [frozen(sorted(r.items())) for r in d]


def apply(d, m, o, kinds, cx):
    name = o["op"]

    def col(i, k):
        c = o["cols"][i]
        return plain(c["col"], kinds[k] if c["kind"] == "own" else c["kind"])

    ks = o["keys"]
    if name in ("update", "update_equal", "update_data", "scalar"):
        size = o["n"] if name == "update_equal" else None
        new = {}
        for i, k in enumerate(ks):
            c = col(i, k)
            if size is not None:
                c = (c + [None] * size)[:size]
            if not m.fits(k, c):
                cx.label("rejected type")
                before = content(d)
                must_raise(f"{k}: {c} into {m.cols.get(k)}", lambda k=k, c=c: d.update({k: c}), ValueError)
                if k in before:
                    now = d[k]
                    expect(frozen(list(now)) == frozen(before[k]), "a rejected update changed the column")
                    d.fill()
                    return d, m
                d.delete(k) if k in d else None
                return d, m
            new[k] = c
        if name == "scalar":
            new = {k: (c[0] if c else None) for k, c in new.items()}
        snap = frozen(new)
        if name == "update_data":
            other = Data.from_dict({k: list(c) for k, c in new.items()})
            om = Model()
            om.update(new)
            new = om.cols
            was = frozen(content(other))
            d.update(other, o["flag"])
            expect(frozen(content(other)) == was, "update changed the other data")
        else:
            d.update(new, compress=o["flag"])
            expect(frozen(new) == snap, "update changed the given dictionary")
        m.update({k: (list(v) if isinstance(v, list) else v) for k, v in new.items()}, o["flag"])
        if name != "update_data":
            for v in new.values():
                if isinstance(v, list):
                    v.append("mine")
                    v.clear()
        return d, m
    k = ks[0]
    if name in ("append", "extend"):
        c = col(0, k)
        if name == "append":
            c = (c or [None])[:1]
        if k in m.cols and m.kind(k) is None:
            d.fill()
        if not m.fits(k, c):
            cx.label("rejected type")
            must_raise(f"extending {k} by {c}", lambda: d.extend(k, list(c)), ValueError)
        else:
            if name == "append":
                d.append(k, c[0])
            else:
                mine = list(c)
                d.extend(k, mine)
                mine.append("mine")
            m.cols[k] = m.cols.get(k, []) + c
            if m.kind(k) is not None:
                expect(d.type(k) == m.kind(k), f"after {name}: type of {k} is {d.type(k)}, entries {m.cols[k]}")
        d.fill()
        m.fill()
    elif name == "fill":
        d.fill()
        m.fill()
    elif name == "fill_to":
        if m.cols:
            d.fill(o["n"])
            m.fill(o["n"])
            d.fill()
            m.fill()
    elif name == "rename":
        new = ks[-1]
        if k not in m.cols:
            return d, m
        if new != k and new in m.cols:
            must_raise(f"renaming {k} to the existing {new}", lambda: d.rename(k, new), ValueError)
        else:
            d.rename(k, new)
            if new != k:
                m.cols[new] = m.cols.pop(k)
    elif name == "del_col":
        if k in m.cols:
            d.delete(k)
            del m.cols[k]
        else:
            must_raise(f"deleting the missing column {k}", lambda: d.delete(k), KeyError)
    elif name == "del_cols":
        have = [x for x in ks if x in m.cols]
        d.delete(list(have))
        for x in have:
            del m.cols[x]
    elif name == "del_rows":
        rows = [i for i in o["ints"] if i < m.n]
        if o["flag"] and rows:
            d.delete(rows[0])
            rows = rows[:1]
        else:
            d.delete(list(rows))
        for x in m.cols:
            m.cols[x] = [v for i, v in enumerate(m.cols[x]) if i not in rows]
    elif name == "mask":
        bits = [bool(o["bits"] >> i & 1) for i in range(m.n)]
        was = frozen(content(d))
        sub = d[np.array(bits, bool) if o["flag"] else bits]
        expect(frozen(content(d)) == was, "a mask changed the data it was applied to")
        sm = Model({x: [v for v, b in zip(c, bits) if b] for x, c in m.cols.items()})
        check(sub, sm, "masked rows")
        sub.update({"new": [1.0]})
        expect(frozen(content(d)) == was, "changing masked rows changed the data")
        if o["n"] % 2:
            return d[bits], sm
    elif name == "slice":
        was = frozen(content(d))
        sub = d[ks] if o["flag"] else d.get_slice(ks)
        sm = Model({x: c for x, c in m.cols.items() if x in ks})
        check(sub, sm, "selected columns")
        for x in sm.cols:
            sub.extend(x, [None])
        sub.update({"new": [1.0]})
        expect(frozen(content(d)) == was, "changing selected columns changed the data")
        if o["n"] % 2:
            return d.get_slice(ks), sm
    elif name.startswith("strip"):
        mode = {"strip": "all", "strip_rows": "rows", "strip_cols": "cols"}[name]
        d.strip(mode)
        if mode != "rows":
            m.cols = {x: c for x, c in m.cols.items() if any(v is not None for v in c)}
        if mode != "cols":
            rows = [i for i in range(m.n) if any(c[i] is not None for c in m.cols.values())]
            lo, hi = (rows[0], rows[-1] + 1) if rows else (0, 0)
            m.cols = {x: c[lo:hi] for x, c in m.cols.items()}
        cx.label("strip")
    elif name == "filter":
        if any(m.kind(x) is None for x in m.cols):
            return d, m
        keep = [[float], [str, int], [float, dt.datetime]][o["n"] % 3]
        d.filter_types(keep)
        m.cols = {x: c for x, c in m.cols.items() if m.kind(x) in keep}
    elif name == "concat":
        other, om = Data(), Model()
        for i, x in enumerate(ks):
            c = col(i, x)
            if m.fits(x, c) and om.fits(x, c):
                other.update({x: list(c)})
                om.update({x: list(c)})
        was = frozen(content(d)), frozen(content(other))
        parts = [(d, m), (other, om)]
        if o["flag"]:
            parts.reverse()
        if o["n"] == 0:
            parts.append(parts[0])
        both = Data.concatenate([p[0] for p in parts])
        bm = Model()
        for _, pm in parts:
            bm.update(pm.cols)
        check(both, bm, "concatenation")
        both.update({"new": [1.0]})
        expect(
            (frozen(content(d)), frozen(content(other))) == was,
            "concatenation shares columns with its parts",
        )
        return Data.concatenate([p[0] for p in parts]), bm
    elif name == "dump":
        out = d.data
        out["new"] = 1
        for x in list(out):
            if x in m.cols:
                del out[x]
    return d, m


@REG.facet(
    cases(),
    quick=3500,
    rule="1-9 operations (updates by lists, single values, other data, with"
    " and without compress, of fitting and unfitting types; append, extend,"
    " fill, rename, delete, mask, slice, strip, filter, concatenate) compared"
    " with a dictionary of lists after every step; non-trivial: at least three"
    " operations and a table with entries at some point",
)
def histories(c, cx):
    d, m = Data(), Model()
    filled = False
    for i, o in enumerate(c["ops"]):
        before = frozen(m.cols)
        d, m = apply(d, m, o, c["kinds"], cx)
        if frozen(m.cols) != before:
            cx.label(o["op"])
        check(d, m, f"after step {i + 1} ({o['op']})")
        filled = filled or m.n > 0
    cx.nontrivial(filled and len(c["ops"]) > 2)


@st.composite
def dict_cases(draw):
    n = draw(st.integers(0, 6))
    ks = draw(st.lists(key, min_size=0, max_size=5, unique=True))
    return {
        "cols": {
            k: [draw(st.sampled_from(KINDS)), draw(st.lists(entry, min_size=0 if draw(st.booleans()) else n, max_size=n))]
            for k in ks
        },
        "bad": draw(st.integers(0, 9)),
    }


@REG.facet(
    dict_cases(),
    quick=1200,
    rule="tables created from dictionaries with columns of equal and unequal"
    " lengths; wrong arguments; non-trivial: at least two columns",
)
def from_dict(c, cx):
    given = {k: plain(v, kind) for k, (kind, v) in c["cols"].items()}
    cx.nontrivial(len(given) > 1)
    snap = frozen(given)
    d = Data.from_dict(given)
    e = Data.from_dict(given)
    m = Model()
    m.update(given)
    check(d, m, "from_dict")
    d.update({"TWS": [None], "x": ["a"]})
    expect(frozen(given) == snap, "the given dictionary was changed")
    check(e, m, "a second table from the same dictionary")
    for v in given.values():
        v.insert(0, None)
    check(e, m, "a table after the caller changed the lists")
    for bad in (3, "TWS", None, [1.0]):
        must_raise(f"update by {bad!r}", lambda bad=bad: e.update(bad), TypeError)
    must_raise(
        "a column of two types", lambda: Data.from_dict({"a": [1.0, None, "x"]}), ValueError
    )
    must_raise("a list of numbers as index", lambda: e[[1.5, 2.5]], TypeError)
    must_raise("rows as a set", lambda: list(Data.from_dict({"a": [1.0]}).rows(return_type=set)), ValueError)


# ---- large ----
def big_ops(r, n):
    kinds = {k: r.choice(KINDS) for k in KEYS}

    def column():
        m = r.choice([r.randint(0, 4), n, r.randint(0, n)])
        none = r.choice([0, 0.2, 1]) if r.random() < 0.5 else 0.2
        return {"kind": r.choice(["own"] * 12 + KINDS), "col": [None if r.random() < none else r.randint(0, 4000) for _ in range(m)]}

    def op(name):
        return {
            "op": name, "keys": r.sample(KEYS, r.randint(1, 4)), "cols": [column() for _ in range(4)], "n": r.choice([0, 2, n]),
            "ints": [r.randrange(2 * n) for _ in range(r.choice([1, 3, n // 3]))], "bits": r.getrandbits(8 * n), "flag": r.random() < 0.5,
        }

    names = [
        "update", "update", "update_equal", "update_data", "append", "extend", "fill", "fill_to", "rename", "del_col", "del_cols",
        "del_rows", "del_rows", "mask", "mask", "slice", "strip", "strip_rows", "strip_cols", "filter", "concat", "dump", "scalar",
    ]
    return {"kinds": kinds, "ops": [op("update_equal"), op("update")] + [op(r.choice(names)) for _ in range(r.randint(1, 5))]}


big.large(REG, histories, big_ops, hi=600, quick=120, what="rows")
