"""C18: fuzzy statements follow fuzzy logic and their truth functions."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import close, finite, frozen
from hrosailing.core.data import Data
from hrosailing.processing.weigher import FuzzyBool, FuzzyVariable, FuzzyWeigher

REG = Registry(
    "C18",
    ["sharpness values are positive; thresholds and values are finite"],
)
KEYS = ["TWS", "TWA", "BSP", "heel"]


def sigma(z):
    """1/(1+e^z) without overflow."""
    if z >= 0:
        e = math.exp(-min(z, 745))
        return e / (1 + e)
    return 1 / (1 + math.exp(max(z, -745)))


# --- expressions -----------------------------------------------------------
# ["cmp", var, key, sharp, op, a, how] | ["sig", center, sharp, sigma, key]
# | ["fun", name, key] | ["and", l, r] | ["or", l, r] | ["not", e]

FUNS = {
    "half": lambda v: 0.5 + 0 * v,
    "inv": lambda v: 1 / (1 + v * v),
    "clip": lambda v: np.minimum(np.maximum(v / 16, 0), 1),
}


@st.composite
def leaves(draw):
    kind = draw(st.sampled_from(["cmp"] * 6 + ["sig", "fun"]))
    key = draw(st.integers(0, 3))
    a = draw(st.one_of(st.integers(-8, 8), gen.grid(-8, 8), gen.floats(-8, 8)))
    s = draw(st.sampled_from([None, None, 1, 2, 0.5, 25]))
    if kind == "cmp":
        op = draw(st.sampled_from(["<", "<=", ">", ">=", "=="]))
        how = draw(st.sampled_from(["item first", "sharpness first", "held"]))
        return ["cmp", draw(st.integers(0, 1)), key, s, op, a, how]
    if kind == "sig":
        return ["sig", a, s or 10, draw(st.sampled_from([1, -1])), key]
    return ["fun", draw(st.sampled_from(sorted(FUNS))), key]


def trees():
    return st.recursive(
        leaves(),
        lambda sub: st.one_of(
            st.tuples(st.sampled_from(["and", "or"]), sub, sub).map(list),
            st.tuples(st.just("not"), sub).map(list),
        ),
        max_leaves=8,
    )


def build(e, variables, name, log):
    """The library's statement. variables: two FuzzyVariable with their own
    default sharpness, shared by all comparisons of the statement."""
    if e[0] == "cmp":
        _, var, key, s, op, a, how = e
        v = variables[var]
        if how == "sharpness first" and s is not None:
            v = v(s)[name(key)]
        else:
            v = v[name(key)]
            if how == "held":  # one item, used by several comparisons
                v = variables[2].setdefault((var, key), v)
            if s is not None:
                v = v(s)
        return {
            "<": lambda: v < a, "<=": lambda: v <= a, ">": lambda: v > a,
            ">=": lambda: v >= a, "==": lambda: v == a,
        }[op]()
    if e[0] == "sig":
        return FuzzyBool.sigmoid(e[1], e[2], e[3])[name(e[4])]
    if e[0] == "fun":
        return FuzzyBool(FUNS[e[1]])[name(e[2])]
    if e[0] == "not":
        u = build(e[1], variables, name, log)
        log.append(u)
        return ~u
    u = build(e[1], variables, name, log)
    v = build(e[2], variables, name, log)
    log += [u, v]
    return u & v if e[0] == "and" else u | v


def truth(e, row, defaults):
    if e[0] == "cmp":
        _, var, key, s, op, a, _ = e
        s = defaults[var] if s is None else s
        lo, hi = sigma(s * (row[key] - a)), sigma(-s * (row[key] - a))
        return lo if op[0] == "<" else hi if op[0] == ">" else min(lo, hi)
    if e[0] == "sig":
        return sigma(e[3] * e[2] * (row[e[4]] - e[1]))
    if e[0] == "fun":
        return float(FUNS[e[1]](np.float64(row[e[2]])))
    if e[0] == "not":
        return 1 - truth(e[1], row, defaults)
    f = min if e[0] == "and" else max
    return f(truth(e[1], row, defaults), truth(e[2], row, defaults))


def depth(e):
    return 1 + max([depth(x) for x in e[1:] if isinstance(x, list)], default=0)


@st.composite
def rows_(draw):
    n = draw(st.integers(1, 6))
    v = st.one_of(st.integers(-9, 9).map(float), gen.grid(-9, 9), gen.floats(-1000, 1000))
    return [[draw(v) for _ in range(4)] for _ in range(n)]


@st.composite
def cases(draw):
    return {
        "expr": draw(trees()),
        "rows": draw(rows_()),
        "defaults": [draw(st.sampled_from([10, 3, 1, 0.25])), draw(st.sampled_from([10, 4]))],
    }


def variables(c):
    return [
        FuzzyVariable() if s == 10 else FuzzyVariable(sharpness=s)
        for s in c["defaults"]
    ] + [{}]


@REG.facet(
    cases(),
    quick=3000,
    rule="statements with up to eight comparisons (own and default sharpness,"
    " sigmoids, user functions), evaluated on dictionaries, records, columns"
    " of arrays and whole tables, before and after further statements were"
    " built; non-trivial: the statement has an operator",
)
def statements(c, cx):
    rows, expr = c["rows"], c["expr"]
    d = depth(expr)
    cx.nontrivial(d > 1)
    cx.label(f"depth {min(d, 5)}")
    vs = variables(c)
    log = []
    fb = build(expr, vs, lambda k: KEYS[k], log)
    ib = build(expr, variables(c), lambda k: k, [])
    expect(isinstance(fb, FuzzyBool), f"a statement is a {type(fb)}")
    want = [truth(expr, r, c["defaults"]) for r in rows]
    text = str(fb)
    dicts = [dict(zip(KEYS, r)) for r in rows]
    before = frozen(dicts)

    def agree(got, what):
        got = np.asarray(got, float)
        expect(
            got.shape == (len(rows),) and close(got, want, 1e-9, 1e-12),
            f"{text} on {what}: {got.tolist()}, expected {want}",
        )
        expect(bool(np.all((got >= 0) & (got <= 1))), f"{text}: {got.tolist()}")

    agree([fb(p) for p in dicts], "dictionaries")
    arr = np.array(rows)
    agree([ib(p) for p in arr], "records")
    agree(ib(arr.T), "columns of an array")
    agree(fb({k: arr[:, i] for i, k in enumerate(KEYS)}), "a dictionary of columns")
    data = Data.from_dict({k: [r[i] for r in rows] for i, k in enumerate(KEYS)})
    agree(FuzzyWeigher(fb).weigh(data), "measurement data")
    agree(FuzzyWeigher(ib).weigh(arr), "an array")
    # operands keep their meaning, later statements do not change earlier ones
    _ = (vs[0] > 3) & fb | (vs[1](7)[KEYS[0]] == 2) & ~fb
    for u in log:
        expect(all(0 <= float(u(p)) <= 1 for p in dicts), f"operand {u}")
    agree([fb(p) for p in dicts], "dictionaries, later")
    expect(frozen(dicts) == before, "the points were changed")
    expect(str(fb) == text and isinstance(text, str), "the description changed")


@REG.facet(
    st.tuples(trees(), trees(), trees(), rows_()).map(list),
    quick=1500,
    rule="three statements, several data points; non-trivial: the truth values"
    " of the three differ",
)
def laws(c, cx):
    """Laws of fuzzy logic on every data point of an array at once."""
    vs = [FuzzyVariable(), FuzzyVariable(4), {}]
    a, b, d = [build(e, vs, lambda k: k, []) for e in c[:3]]
    x = np.array(c[3]).T
    cx.nontrivial(
        not np.array_equal(a(x), b(x)) and not np.array_equal(b(x), d(x))
    )

    def eq(u, v, law, exact=True):
        p, q = np.asarray(u(x), float), np.asarray(v(x), float)
        ok = p.shape == q.shape == (x.shape[1],)
        ok = ok and (np.array_equal(p, q) if exact else close(p, q, 0, 1e-12))
        expect(ok, f"{law}: {p.tolist()} and {q.tolist()}")

    eq(~~a, a, "double negation", False)
    eq(~(a & b), ~a | ~b, "De Morgan (and)", False)
    eq(~(a | b), ~a & ~b, "De Morgan (or)", False)
    eq(a & b, b & a, "commutativity of and")
    eq(a | b, b | a, "commutativity of or")
    eq((a & b) & d, a & (b & d), "associativity of and")
    eq((a | b) | d, a | (b | d), "associativity of or")
    eq(a & a, a, "idempotence of and")
    eq(a | a, a, "idempotence of or")
    eq(a & (b | d), (a & b) | (a & d), "distributivity")
    eq(a | (a & b), a, "absorption")


@st.composite
def shapes(draw):
    xs = draw(st.lists(gen.grid(-12, 12), min_size=2, max_size=8))
    return {
        "a": draw(st.one_of(st.integers(-8, 8), gen.grid(-8, 8))),
        "s": draw(st.sampled_from([0.25, 1, 2, 10, 40])),
        "more": draw(st.sampled_from([1.5, 2, 10])),
        "key": draw(st.sampled_from([None, 0, "TWS"])),
        "default": draw(st.sampled_from([10, 1, 3])),
        "xs": sorted(xs),
    }


@REG.facet(
    shapes(),
    quick=1500,
    rule="variables with and without item, thresholds, sharpness and sorted"
    " values; non-trivial: values on both sides of the threshold",
)
def shape(c, cx):
    """Half at the threshold, monotone, steeper if sharper, peak of ==; the
    sharpness given in a call holds for one statement."""
    a, s, xs, key = c["a"], c["s"], c["xs"], c["key"]
    cx.nontrivial(min(xs) < a < max(xs))
    cx.label("item" if key is not None else "plain")

    def var(sharp=None):
        v = FuzzyVariable(sharpness=sharp or c["default"])
        return v if key is None else v[key]

    def at(fb, v):
        if key is None:
            return float(fb(v))
        return float(fb({key: v}) if isinstance(key, str) else fb([v, -v]))

    ops = {
        "<": lambda v: v < a, "<=": lambda v: v <= a, ">": lambda v: v > a,
        ">=": lambda v: v >= a, "==": lambda v: v == a,
    }
    for name, op in ops.items():
        v = var()
        sharp, soft = op(v(s * c["more"])), op(v(s))
        plain = op(v)
        by_default = op(var(s))
        half = at(soft, a)
        expect(abs(half - 0.5) < 1e-12, f"x({s}) {name} {a} at {a}: {half}")
        ys = [at(soft, t) for t in xs]
        expect(ys == [at(by_default, t) for t in xs], f"x({s}) {name} {a} differs from a variable of sharpness {s}")
        want = op(FuzzyVariable(c["default"]))
        expect(
            [at(plain, t) for t in xs] == [float(want(t)) for t in xs],
            f"x {name} {a} after x({s}) {name} {a} does not use the default sharpness",
        )
        up = {"<": -1, "<=": -1, ">": 1, ">=": 1}.get(name)
        for (t, y), (t2, y2) in zip(zip(xs, ys), list(zip(xs, ys))[1:]):
            if up:
                expect((y2 - y) * up >= 0, f"x({s}) {name} {a}: {y} at {t}, {y2} at {t2}")
            elif t2 <= a:
                expect(y2 >= y, f"x({s}) == {a}: {y} at {t}, {y2} at {t2}")
            elif t >= a:
                expect(y2 <= y, f"x({s}) == {a}: {y} at {t}, {y2} at {t2}")
        for t, y in zip(xs, ys):
            y2 = at(sharp, t)
            if up:
                far = (t - a) * up
                expect(y > 0.5 if far > 0 else y < 0.5 if far < 0 else True, f"x({s}) {name} {a} at {t}: {y}")
                ok = y2 >= y if far >= 0 else y2 <= y
            else:
                ok = y2 <= y <= half + 1e-12
                expect(y < half or abs(t - a) < 1e-6, f"x({s}) == {a} at {t}: {y}")
            expect(ok, f"x({s * c['more']}) {name} {a} at {t}: {y2}, with sharpness {s}: {y}")
        expect(finite(ys), f"{ys}")


@REG.facet(
    st.tuples(trees(), st.lists(gen.grid(-8, 8), min_size=4, max_size=4), st.sampled_from(["p", 0, 1])).map(list),
    quick=500,
    rule="items of statements (statement[item](x) is statement(x[item]));"
    " non-trivial: the statement has an operator",
)
def items(c, cx):
    expr, row, item = c
    cx.nontrivial(depth(expr) > 1)
    vs = [FuzzyVariable(), FuzzyVariable(4), {}]
    fb = build(expr, vs, lambda k: KEYS[k], [])
    point = dict(zip(KEYS, row))
    x = {item: point} if item == "p" else [point if i == item else None for i in range(2)]
    a, b = float(fb[item](x)), float(fb(point))
    expect(a == b, f"statement[{item!r}] of the record is {a}, the statement {b}")
    u = fb[item] & ~fb[item]
    expect(abs(float(u(x)) - min(b, 1 - b)) < 1e-12, "item and its negation")


# ---- large ----
def big_leaf(r):
    k = r.randrange(8)
    key, a, s = r.randrange(4), r.choice([r.randint(-8, 8), r.grid(-8, 8), r.uniform(-8, 8)]), r.choice([None, None, 1, 2, 0.5, 25])
    if k < 6:
        return ["cmp", r.randrange(2), key, s, r.choice(["<", "<=", ">", ">=", "=="]), a, r.choice(["item first", "sharpness first", "held"])]
    if k == 6:
        return ["sig", a, s or 10, r.choice([1, -1]), key]
    return ["fun", r.choice(sorted(FUNS)), key]


def big_statement(r, n):
    """many operands"""
    parts = [big_leaf(r) for _ in range(n)]
    while len(parts) > 1:
        i = r.randrange(len(parts) - 1)
        e = [r.choice(["and", "or"]), parts[i], parts[i + 1]]
        if r.random() < 0.3:
            e = ["not", e]
        parts[i : i + 2] = [e]
    return parts[0]


def big_rows(r, n):
    return [[r.choice([float(r.randint(-9, 9)), r.grid(-9, 9), r.uniform(-1000, 1000)]) for _ in range(4)] for _ in range(n)]


def big_case(r, n):
    m, k = r.choice([(3, n), (min(n, 60), 3), (8, n)])
    return {"expr": big_statement(r, m), "rows": big_rows(r, k), "defaults": [r.choice([10, 3, 1, 0.25]), r.choice([10, 4])]}


def big_laws(r, n):
    return [big_statement(r, r.randint(1, 6)) for _ in range(3)] + [big_rows(r, n)]


big.large(REG, statements, big_case, lo=8, hi=600, quick=60, what="points or up to 60 operands")
big.large(REG, laws, big_laws, hi=3000, quick=40, what="points")
