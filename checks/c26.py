"""C26: convex sailing directions are optimal and add up to the direction."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import angdiff, finite, frozen, raises
from hrosailing.cruising import Direction, convex_direction
from hrosailing.models import IdentityInfluenceModel, InfluenceModel

REG = Registry(
    "C26",
    [
        "slices with at least three courses that do not lie on one line",
        "directions within 1e-6 of the border of what can be reached may be"
        " answered or rejected",
    ],
)
def calm(x):
    return x if x >= 1e-3 else 0.0


@st.composite
def slice_of(draw, ws, kind, span):
    lo, hi = span
    ang = st.one_of(
        st.integers(math.ceil(lo), math.floor(hi)).map(float), gen.grid(lo, hi)
    )
    wa = draw(gen.uniq(ang.map(lambda x: x % 360.0), 3, 9))
    top = draw(st.sampled_from([1, 10, 20]))
    sp = st.one_of(gen.nice(0, top), st.integers(0, top).map(float))
    if draw(st.booleans()):
        sp = gen.nice(top / 2, top)
    sp = sp.map(calm)
    if kind == "table":
        return {"kind": "table", "ws": [ws, ws + 2.0], "wa": wa,
                "bsp": [[draw(sp), draw(gen.nice(0, 10))] for _ in wa]}
    pts = [[ws + draw(st.sampled_from([0.0, 0.5, -0.5])), a, draw(sp)] for a in wa]
    pts += [[ws + 3.0, a, 50.0] for a in wa[:1]]
    return {"kind": "cloud", "pts": list(draw(st.permutations(pts)))}


SPANS = [(0, 359.9), (0, 359.9), (0, 359.9), (0, 180), (20, 160), (45, 315),
         (0, 250), (100, 359), (-60, 60)]


@st.composite
def cases(draw, kinds=("table", "table", "cloud", "multi", "multi", "curve")):
    ws = draw(st.integers(1, 30)) + 0.0
    kind = draw(st.sampled_from(kinds))
    span = draw(st.sampled_from(SPANS))
    if kind == "curve":
        pd = {"kind": "curve",  "params": [calm(draw(gen.nice(0, 2))) for _ in range(7)]}
    elif kind == "multi":
        n = draw(st.integers(2, 3))
        pd = {"kind": "multi", "sails": [f"sail {i}" for i in range(n)],
              "pds": [draw(slice_of(ws, draw(st.sampled_from(["table", "cloud"])),
                                    draw(st.sampled_from(SPANS)) if draw(st.booleans()) else span))
                      for _ in range(n)]}
    else:
        pd = draw(slice_of(ws, kind, span))
    return {
        "pd": pd, "ws": ws,
        "dir": draw(st.one_of(
            st.integers(0, 359), gen.grid(0, 359.9),
            st.integers(-720, 720), gen.grid(-400, 800),
            st.integers(0, 8).map(lambda i: f"course {i}"))),
        "turn": draw(gen.turn()),
        "between": draw(st.integers(1, 15)),
        "scale": [calm(draw(gen.nice(0, 2))) for _ in range(4)],
    }


def bell(ws, wa, a, b, c, d, e, f, g):
    r = np.deg2rad(wa)
    return ws * (0.3 + a * np.sin(r / 2) ** 2 + b * np.sin(r) ** 2) + c


def build(c):
    if c["kind"] == "curve":
        from hrosailing.polardiagram import PolarDiagramCurve
        return PolarDiagramCurve(bell, *c["params"])
    return pds.build(c)


def courses(pd, ws):
    """[(angle, bsp, sail)] available in the slice"""
    _, slices, info = pd.get_slices(ws, full_info=True)
    _, wa, bsp = (np.asarray(x, float) for x in slices[0])
    names = list(info[0]) if info else [None] * len(wa)
    return list(zip(wa.tolist(), bsp.tolist(), names))


def cross(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def vec(angle, speed=1.0):
    r = np.deg2rad(np.asarray(angle, float))
    return np.stack([speed * np.cos(r), speed * np.sin(r)], axis=-1)


def optimum(cs, direction, tol):
    """Largest speed made good in the direction by a mixture of two courses
    (tol > 0: mixtures must point there by a margin, tol < 0: nearly)."""
    p = vec([c[0] for c in cs], np.array([c[1] for c in cs]))
    d = vec(direction)
    i, j = np.triu_indices(len(cs), 1)
    c = cross(p[i], p[j])
    norm = np.linalg.norm(p[i], axis=1) * np.linalg.norm(p[j], axis=1)
    ok = np.abs(c) > 1e-9 * norm
    i, j, c = i[ok], j[ok], c[ok]
    best = 0.0
    if len(c):
        a, b = cross(d, p[j]) / c, cross(p[i], d) / c
        s = a + b
        good = (np.minimum(a, b) >= tol * np.abs(s)) & (s > 0)
        if good.any():
            best = float(np.max(1 / s[good]))
    for ang, bsp, _ in cs:
        if angdiff(ang, direction) <= (1e-12 if tol >= 0 else 1e-6):
            best = max(best, bsp)
    return best


def flat(cs):
    p = vec([c[0] for c in cs], np.array([c[1] for c in cs]))
    s = np.linalg.svd(p - p.mean(axis=0), compute_uv=False)
    return len(cs) < 3 or s[1] <= 1e-6 * max(s[0], 1e-9)


def neighbours(cs, direction):
    """pairs of angular neighbours of one sail around the direction, and
    their polygon's speed there"""
    order = sorted(cs, key=lambda c: c[0])
    out = []
    for u, v in list(zip(order, order[1:])) + [(order[-1], order[0])]:
        if u[2] == v[2]:
            out.append((u[2], optimum([u, v], direction, -1e-9)))
    return out


def examine(cs, direction, result, cx):
    """judges the plan; the optimum of all mixtures is the reference"""
    lo, hi = optimum(cs, direction, 1e-9), optimum(cs, direction, -1e-6)
    top = max(c[1] for c in cs)
    if result is None:
        expect(lo <= 1e-6 * top, "direction %s was rejected but can be made good at %s", direction, lo)
        cx.label("rejected")
        return
    if hi <= 1e-9 * top:
        expect(False, "direction %s cannot be made good, answered %s", direction, result)
    expect(isinstance(result, list) and len(result) in (1, 2)
           and all(isinstance(r, Direction) for r in result), "result %s", result)
    prop = [float(r.proportion) for r in result]
    expect(finite(prop) and min(prop) >= 0 and abs(sum(prop) - 1) <= 1e-9,
           "proportions %s", prop)
    at_course = [c for c in cs if angdiff(c[0], direction) <= 1e-9]
    if len(result) == 1:
        r = result[0]
        expect(angdiff(r.angle, direction) <= 1e-6, "sailing %s instead of %s", r.angle, direction)
        speeds = [c[1] for c in at_course if c[2] == r.sail]
        speeds += [s for sail, s in neighbours(cs, direction) if sail == r.sail]
        got = max(speeds, default=0.0)
        cx.label("direct")
    else:
        v = np.zeros(2)
        for r in result:
            own = [c[1] for c in cs if angdiff(c[0], r.angle) <= 1e-9 and c[2] == r.sail]
            expect(own, "course %s with sail %s is not in the slice", r.angle, r.sail)
            v = v + r.proportion * vec(r.angle, max(own))
        got = float(v @ vec(direction))
        off = abs(float(cross(v, vec(direction))))
        expect(got > 0 and off <= 1e-6 * max(got, 1e-3 * top),
               "courses %s add up to direction %s, not %s", result,
               math.degrees(math.atan2(v[1], v[0])) % 360, direction)
        cx.label("two courses")
        # a single course that is better than any mixture is to be sailed alone
        rest = [c for c in cs if angdiff(c[0], direction) > 1e-9]
        single = max([c[1] for c in at_course], default=0.0)
        expect(not single > optimum(rest, direction, -1e-6) * (1 + 1e-6) + 1e-6 * top,
               "sailing straight at %s with %s is fastest, answered %s", direction, single, result)
    expect(got >= lo * (1 - 1e-6) - 1e-9 * top, "plan %s makes good %s in direction %s, possible are %s",
           result, got, direction, lo)
    expect(got <= hi * (1 + 1e-6) + 1e-9 * top, "plan %s claims %s", result, got)


def the_direction(case, cs):
    d = case["dir"]
    if isinstance(d, str):
        d = cs[int(d.split()[1]) % len(cs)][0] + case["turn"]
    return d


@REG.facet(
    cases(),
    quick=4000,
    rule="tables, unsorted clouds, curves and 2-3 sails with full and partial"
    " slices, calms among the courses, directions on, between and beyond the"
    " courses and full turns; non-trivial: a partial slice, several sails, or"
    " an optimum of two courses",
)
def optimal_plan(case, cx):
    pd = build(case["pd"])
    cs = courses(pd, case["ws"])
    if flat(cs):
        cx.label("flat slice: skipped")
        return
    d = the_direction(case, cs)
    res = []
    rejected = raises(lambda: res.append(convex_direction(pd, case["ws"], d)), ValueError)
    examine(cs, d, None if rejected else res[0], cx)
    cx.label(case["pd"]["kind"])
    cx.nontrivial(rejected or len(res[0]) == 2 or case["pd"]["kind"] == "multi")


@REG.facet(
    cases(),
    quick=1500,
    rule="the courses between two neighbouring courses of the slice, at"
    " sixteenths of the gap; non-trivial: the plan is not a neighbour pair",
)
def between_neighbours(case, cx):
    pd = build(case["pd"])
    cs = courses(pd, case["ws"])
    if flat(cs):
        return
    order = sorted({c[0] for c in cs})
    i = int(case["turn"] / 360 + case["between"]) % len(order)
    u, v = order[i], order[(i + 1) % len(order)]
    gap = (v - u) % 360
    d = u + gap * case["between"] / 16
    res = []
    rejected = raises(lambda: res.append(convex_direction(pd, case["ws"], d)), ValueError)
    examine(cs, d, None if rejected else res[0], cx)
    if not rejected:
        cx.nontrivial(any(angdiff(r.angle, u) > 1e-6 and angdiff(r.angle, v) > 1e-6
                          and angdiff(r.angle, d) > 1e-6 for r in res[0]))


class Scaling(InfluenceModel):
    """speeds depend on the place in the slice"""

    def __init__(self, factors):
        self.factors = factors
        self.calls = []

    def remove_influence(self, data):
        raise NotImplementedError

    def add_influence(self, pd, influence_data):
        self.calls.append((pd, influence_data))
        return [pd(ws, wa) * f for ws, wa, f in zip(
            influence_data["TWS"], influence_data["TWA"], self.factors)]


class Fixed(Scaling):
    """a model that needs no data"""

    def add_influence(self, pd, influence_data):
        return list(self.factors)


@REG.facet(
    cases(("table",)),
    quick=800,
    rule="influence models that change the speed of each course; non-trivial:"
    " the plan differs from the one without influence",
)
def with_influence(case, cx):
    pd = build(case["pd"])
    cs = courses(pd, case["ws"])
    factors = [case["scale"][i % 4] for i in range(len(cs))]
    im = Scaling(factors)
    data = {"TWS": [case["ws"]] * len(cs), "TWA": [c[0] for c in cs], "waves": [1.0] * len(cs)}
    before = frozen(data)
    new = [(c[0], pd(case["ws"], c[0]) * f, c[2]) for c, f in zip(cs, factors)]
    if flat(new):
        return
    d = the_direction(case, cs)
    res = []
    rejected = raises(lambda: res.append(
        convex_direction(pd, case["ws"], d, im=im, influence_data=data)), ValueError)
    expect(frozen(data) == before, "influence data changed")
    expect(len(im.calls) > 0 and all(c[0] is pd for c in im.calls), "influence model not asked about the diagram")
    examine(new, d, None if rejected else res[0], cx)
    for none in ({}, {"influence_data": None}, {"influence_data": {}}):
        free, own = [], Fixed([c[1] for c in new])
        no = raises(lambda: free.append(convex_direction(pd, case["ws"], d, im=own, **none)), ValueError)
        expect(no == rejected and (no or free[0] == res[0]),
               "an influence model that needs no data: %s, with data %s", free, res)
    if not flat(cs):
        plain = []
        no = raises(lambda: plain.append(convex_direction(pd, case["ws"], d)), ValueError)
        cx.nontrivial(no != rejected or (not no and [r.angle for r in plain[0]] != [r.angle for r in res[0]]))
        ident = []
        no2 = raises(lambda: ident.append(convex_direction(
            pd, case["ws"], d, im=IdentityInfluenceModel(), influence_data=data)), ValueError)
        expect(no == no2, "identical influence model changes the answer")


@REG.facet(
    st.fixed_dictionaries({
        "angle": gen.nice(0, 360), "prop": gen.nice(0, 1),
        "sail": st.one_of(st.none(), st.sampled_from(["Jib", "Spi 2"]))}),
    quick=200,
    rule="written plans; non-trivial: with a sail",
)
def written_plan(case, cx):
    text = str(Direction(case["angle"], case["prop"], case["sail"]))
    expect(str(case["angle"]) in text and str(case["prop"] * 100) in text, "%s", text)
    expect((case["sail"] or "hissing") in text if case["sail"] else "hissing" not in text, "%s", text)
    cx.nontrivial(case["sail"] is not None)


# ---- large ----
def big_slice(r, n, ws, kind, span):
    wa = r.uniq(n, lambda: r.choice([float(round(r.uniform(*span))), r.grid(*span)]) % 360.0)
    top = r.choice([1, 10, 20])
    lo = top / 2 if r.random() < 0.6 else 0
    sp = lambda: calm(r.num(lo, top))  # noqa: E731
    if kind == "table":
        return {"kind": "table", "ws": [ws, ws + 2.0], "wa": wa, "bsp": [[sp(), r.num(0, 10)] for _ in wa]}
    pts = [[ws + r.choice([0.0, 0.5, -0.5]), a, sp()] for a in wa] + [[ws + 3.0, a, 50.0] for a in wa[:1]]
    r.shuffle(pts)
    return {"kind": "cloud", "pts": pts}


def big_case(r, n, kinds=("table", "cloud", "multi", "multi")):
    ws, kind, span = float(r.randint(1, 30)), r.choice(kinds), r.choice(SPANS)
    if kind == "multi":
        k = r.choice([2, 3, min(n, 12)])
        pd = {
            "kind": "multi", "sails": [f"sail {i}" for i in range(k)],
            "pds": [big_slice(r, max(3, n // k), ws, r.choice(["table", "cloud"]), r.choice([span, r.choice(SPANS)])) for _ in range(k)],
        }
    else:
        pd = big_slice(r, n, ws, kind, span)
    return {
        "pd": pd, "ws": ws, "dir": r.choice([r.randint(-720, 720), r.grid(0, 359.9), f"course {r.randrange(n)}"]),
        "turn": r.choice([0, 0, 360, -360]), "between": r.randint(1, 15), "scale": [calm(r.num(0, 2)) for _ in range(4)],
    }


def big_table(r, n):
    return big_case(r, n, ("table",))


def big_sector(r, n):
    # any of the many gaps
    return dict(big_case(r, n), turn=360 * r.randrange(n))


big.large(REG, optimal_plan, big_case, lo=12, hi=200, quick=150, what="courses")
big.large(REG, between_neighbours, big_sector, lo=12, hi=200, quick=100, what="courses")
big.large(REG, with_influence, big_table, lo=12, hi=200, quick=60, what="courses")
