"""C05: a point cloud keeps exactly the points it was given."""
import numpy as np
from hypothesis import strategies as st

from harness import big, gen, windref
from harness.core import Registry, expect
from harness.util import frozen, same
from hrosailing import polardiagram as hp

REG = Registry(
    "C05",
    [
        "values at contained winds are asked for positive wind speeds (others"
        " are documented to be rejected)",
        "angles shifted by full turns are multiples of 1/64 degree",
        "points given in apparent wind are compared with a vector reference"
        " within 2e-7 of the sizes involved",
    ],
)

ANG = gen.grid(0, 360 - 1 / 64)


@st.composite
def pts(draw, lo=0, hi=5, allow_negative=False, positive=False):
    n = draw(st.integers(lo, hi))
    out = []
    for _ in range(n):
        w = draw(
            st.one_of(st.integers(1, 12).map(float), gen.nice(0.125, 40))
        )
        if not positive and draw(st.integers(0, 9)) == 0:
            w = 0.0
        if allow_negative and draw(st.integers(0, 3)) == 0:
            w = -w
        a = draw(st.one_of(st.integers(0, 359).map(float), ANG))
        out.append([w, a + draw(gen.turn()), draw(gen.nice(0, 20))])
    return out


op = st.one_of(
    st.tuples(st.just("add"), pts(1, 4, positive=True)).map(list),
    st.tuples(st.just("add"), pts(1, 4, positive=True)).map(list),
    st.tuples(st.just("again"), st.integers(0, 50)).map(list),
    st.tuples(st.just("add apparent"), pts(1, 3, positive=True)).map(list),
    st.tuples(st.just("bad"), st.sampled_from(["negative", "tiny negative", "zero", "nan", "inf", "shape"])).map(list),
    st.tuples(st.sampled_from(["read", "symmetrize", "reload", "scribble"]), st.just(0)).map(list),
)


@st.composite
def histories(draw):
    return {
        "init": draw(pts(1, 7, allow_negative=True)),
        "apparent": draw(st.integers(0, 4)) == 0,
        "as_list": draw(st.booleans()),
        "ops": draw(st.lists(op, max_size=7)),
        "ranges": draw(st.lists(gen.grid(0, 8, 8), min_size=2, max_size=2)),
        "turns": draw(st.lists(gen.turn(), min_size=2, max_size=2)),
    }


def norm(p):
    return [p[0], p[1] % 360.0, p[2]]


def compare(pd, model, when):
    """model: list of (row, exact); inexact rows are replaced by the stored
    ones after comparing them as winds."""
    got = np.asarray(pd.points, float)
    expect(
        got.shape == (len(model), 3),
        f"{when}: {got.shape} points, expected {len(model)}",
    )
    for i, (row, exact) in enumerate(model):
        g = got[i].tolist()
        if exact:
            expect(g == row, f"{when}: point {i} is {g}, expected {row}")
        else:
            expect(
                all(map(np.isfinite, g))
                and 0 <= g[1] < 360
                and g[2] == row[2]
                and windref.same_wind(
                    g[0], g[1], row[0], row[1], row[0] + row[2] + row[3]
                ),
                f"{when}: point {i} is {g}, converted true wind is {row[:3]}",
            )
            model[i] = (g, True)


def converted(p):
    ws, wa = windref.convert(p[0], p[1], p[2], False)
    return ([ws, wa, p[2], p[0]], False)


@REG.facet(
    histories(),
    quick=3000,
    rule="construction (true or apparent wind, negative speeds, angles beyond a"
    " turn) and up to 7 operations (additions, repeated points, apparent-wind"
    " additions, refused additions, reads, re-reading from file, writing into"
    " handed-out arrays); compared with a list after each; non-trivial: at"
    " least one accepted addition or a dropped point",
)
def history(c, cx):
    if c["apparent"]:
        init = [p for p in c["init"] if p[0] >= 0]
        if not init:
            return
        model = [converted(p) for p in init]
        cx.label("apparent wind")
    else:
        init = c["init"]
        model = [(norm(p), True) for p in init if p[0] >= 0]
        if len(model) < len(init):
            cx.label("dropped points")
            cx.nontrivial()
    arg = init if c["as_list"] else np.array(init, float)
    before = frozen(arg)
    pd = hp.PolarDiagramPointcloud(arg, apparent_wind=c["apparent"])
    expect(frozen(arg) == before, "the constructor modified its argument")
    compare(pd, model, "construction")
    for n, (name, p) in enumerate(c["ops"]):
        when = f"after operation {n} ({name})"
        cx.label(name)
        if name in ("add", "again", "add apparent"):
            if name == "again":
                src = [m[0] for m in model if m[0][0] > 0]
                if not src:
                    continue
                p = [list(src[p % len(src)][:2]) + [float(p)]]
            arr = np.array(p, float) if (n + len(p)) % 2 else [list(r) for r in p]
            before = frozen(arr)
            if name == "add apparent":
                pd.add_points(arr, apparent_wind=True)
                model += [converted(r) for r in p]
            else:
                pd.add_points(arr)
                model += [(norm(r), True) for r in p]
            expect(frozen(arr) == before, f"{when}: the argument was modified")
            cx.nontrivial()
        elif name == "bad":
            rows = {
                "negative": [[5.0, 10.0, 3.0], [-1.0, 10.0, 3.0]],
                "tiny negative": [[5.0, 10.0, 3.0], [-1e-7, 10.0, 3.0]],
                "zero": [[0.0, 10.0, 3.0]],
                "nan": [[5.0, float("nan"), 3.0]],
                "inf": [[5.0, 10.0, 3.0], [float("inf"), 10.0, 3.0]],
                "shape": [[5.0, 10.0]],
            }[p]
            try:
                pd.add_points(rows)
            except Exception:
                pass
            else:
                expect(False, f"{when}: invalid points ({p}) were accepted")
        elif name == "symmetrize":
            if model:
                pd.symmetrize()
        elif name == "reload":
            pd.to_csv("cloud.csv")
            pd = hp.from_csv("cloud.csv")
        elif name == "scribble":
            for a in (pd.points, pd.wind_speeds, pd.wind_angles, pd.boat_speeds, pd.default_points):
                a[...] = -3.0
        else:
            if model:
                pd.get_slices([1.0, 5.0])
        compare(pd, model, when)
    rows = [m[0] for m in model]
    final_reads(pd, rows, c)


def final_reads(pd, rows, c):
    expect(
        same(pd.wind_speeds, sorted({r[0] for r in rows})),
        f"wind speeds {pd.wind_speeds} of points {rows}",
    )
    expect(
        same(pd.wind_angles, sorted({r[1] for r in rows})),
        f"wind angles {pd.wind_angles} of points {rows}",
    )
    expect(
        same(pd.boat_speeds, [r[2] for r in rows]),
        f"boat speeds {pd.boat_speeds} of points {rows}",
    )
    if rows:
        expect(same(pd.get_points(), rows), "default points differ")
    first = {}
    for r in rows:
        first.setdefault((r[0], r[1]), r[2])
    for (w, a), v in first.items():
        if w > 0:
            for t in [0] + (c["turns"] if a * 64 == int(a * 64) else []):
                got = pd(w, a + t)
                expect(
                    got == v, f"({w}, {a + t}) gives {got}, the point says {v}"
                )
    if not rows:
        return
    asked = sorted({rows[0][0], rows[-1][0], 6.0})
    for rng in c["ranges"] + [None]:
        kw = {} if rng is None else {"range_": rng}
        r = 1 if rng is None else rng
        labels, slices = pd.get_slices(list(asked), **kw)
        expect(same(labels, asked), f"labels {labels}, asked {asked}")
        for w, s in zip(asked, slices):
            want = sorted(map(tuple, (q for q in rows if abs(q[0] - w) <= r)))
            s = np.asarray(s, float)
            expect(
                s.ndim == 2 and s.shape[0] == 3,
                f"slice {w} has shape {s.shape}",
            )
            got = sorted(map(tuple, s.T.tolist()))
            expect(
                got == want,
                f"slice {w} with range {r}: {got}, points in range: {want}",
            )


@st.composite
def near(draw):
    points = draw(pts(2, 8, positive=True))
    q = [draw(gen.nice(0.125, 40)), draw(ANG)]
    if draw(st.integers(0, 2)) == 0:
        # next to a point
        off = st.sampled_from([0.0, 2.0**-30, 2.0**-20, 2.0**-10, 1 / 64])
        near_to = norm(draw(st.sampled_from(points)))
        q = [near_to[0] + draw(off), min(near_to[1] + draw(off), 359.999)]
    return {
        "pts": points,
        "q": q,
        "turn": draw(gen.turn()),
    }


@REG.facet(
    near(),
    quick=1200,
    rule="winds not in the cloud: the value is the interpolator's on exactly"
    " the neighbouring points, the same modulo 360, and by default lies"
    " within the cloud's boat speeds; non-trivial: wind not in the cloud",
)
def interpolated(c, cx):
    pd = hp.PolarDiagramPointcloud(np.array(c["pts"]))
    rows = [norm(p) for p in c["pts"]]
    w, a = c["q"]
    if any(r[0] == w and r[1] == a for r in rows):
        return
    cx.nontrivial()

    class Rec:
        def is_contained_in(self, p):
            self.n = len(p)
            self.off = np.array(p, float)
            return np.array([i % 3 != 1 for i in range(len(p))], bool)

        def interpolate(self, w_pts, q):
            self.got = np.array(w_pts.data, float)
            self.w = np.array(w_pts.weights, float)
            self.q = np.array(q, float)
            return 3.5

    for t in (0, c["turn"]):
        rec = Rec()
        r = pd(w, a + t, rec, rec)
        expect(r == 3.5, f"returned {r}, the interpolator said 3.5")
        expect(same(rec.q, [w, a]), f"interpolated at {rec.q}, asked ({w}, {a + t})")
        want = [q for i, q in enumerate(rows) if i % 3 != 1]
        expect(same(rec.got, want), f"used {rec.got}, neighbours {want}")
        expect(len(set(rec.w.tolist())) == 1, "uneven weights")
    near_ = min(((r[0] - w) / 40) ** 2 + ((r[1] - a) / 360) ** 2 for r in rows)
    if near_ < 0.95:
        v = pd(w, a)
        b = [r[2] for r in rows]
        expect(
            min(b) - 1e-9 <= v <= max(b) + 1e-9,
            f"default interpolation {v} outside [{min(b)}, {max(b)}]",
        )
        expect(pd(w, a + c["turn"]) == v, "not periodic in the wind angle")
    for bad in (0, -1.5):
        try:
            pd(bad, a)
        except ValueError:
            continue
        expect(False, f"wind speed {bad} was accepted")


# ---- large ----
def big_pts(r, n, negative=False):
    ws = r.choice([lambda: r.num(0.125, 40), lambda: float(r.randint(1, 12))])
    out = [[ws(), r.choice([r.grid(0, 359.9), float(r.randint(0, 359))]) + r.choice([0, 0, 360, -720]), r.num(0, 20)] for _ in range(n)]
    for p in out:
        if negative and r.random() < 0.1:
            p[0] *= -1
    return out


def big_history(r, n):
    ops = [
        r.choice([
            ["add", big_pts(r, r.randint(1, n))], ["again", r.randrange(50)], ["add apparent", big_pts(r, r.randint(1, n))],
            ["bad", r.choice(["negative", "tiny negative", "zero", "nan", "inf", "shape"])],
            [r.choice(["read", "symmetrize", "reload", "scribble"]), 0],
        ])
        for _ in range(r.randint(0, 4))
    ]
    return {
        "init": big_pts(r, n, True), "apparent": r.random() < 0.2, "as_list": r.random() < 0.5, "ops": ops,
        "ranges": [r.grid(0, 8, 8)], "turns": [r.choice([360, -360])],
    }


def big_near(r, n):
    return {"pts": big_pts(r, n), "q": [r.num(0.125, 40), r.grid(0, 359)], "turn": r.choice([0, 360])}


big.large(REG, history, big_history, hi=600, quick=60, what="points")
big.large(REG, interpolated, big_near, hi=1500, quick=60, what="points")
