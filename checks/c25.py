"""C25: globe models map consistently and measure true distances."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import angdiff, finite, frozen
from hrosailing.models import FlatMercatorProjection, SphericalGlobe

REG = Registry(
    "C25",
    [
        "Mercator: latitudes within 89 degrees of the (virtual) equator and"
        " reference points at a right angle",
        "shortest paths on the sphere: points at least 0.1 degrees from"
        " antipodal (there is no unique shortest path)",
        "tolerance 1e-9 of the earth's radius (1e-6 for paths)",
    ],
)
RADII = [None, None, 3440, 1.0, 6371.0, 0.5]
SPHERE_R = 21600 / 2 / math.pi


def lat(limit):
    return st.one_of(
        st.sampled_from([0.0, limit, -limit, 45.0, limit - 1e-7]),
        gen.nice(-limit, limit),
    )


def lon():
    return st.one_of(
        st.sampled_from([0.0, 180.0, -180.0, 90.0, 179.99999]), gen.nice(-180, 180)
    )


@st.composite
def places(draw, limit, n):
    pts = [[draw(lat(limit)), draw(lon())] for _ in range(n)]
    # equal and nearly equal places
    for i in range(1, n):
        k = draw(st.integers(0, 9))
        if k == 0:
            pts[i] = list(pts[i - 1])
        elif k == 1:
            d = draw(st.sampled_from([1e-12, 1e-9, 1e-7, 1e-4, 1e-2]))
            pts[i] = [max(-limit, min(limit, pts[i - 1][0] + d * draw(st.integers(-2, 2)))),
                      max(-180.0, min(180.0, pts[i - 1][1] + d * draw(st.integers(-2, 2))))]
    return pts


@st.composite
def cases(draw, kinds=("sphere", "mercator", "turned")):
    kind = draw(st.sampled_from(kinds))
    return {
        "kind": kind,
        "radius": draw(st.sampled_from(RADII)),
        "pts": draw(places(90.0 if kind == "sphere" else 89.0, 3)),
        # virtual pole, and the bearing of the virtual zero from it
        "pole": [draw(gen.nice(-89, 89)), draw(gen.nice(-180, 180))],
        "bearing": draw(gen.nice(0, 359)),
        "res": draw(st.sampled_from([1, 2, 2, 3, 5, 17, 100])),
        "form": draw(st.sampled_from(["list", "tuple", "array"])),
    }


def unit(p):
    a, b = math.radians(p[0]), math.radians(p[1])
    return np.array([math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a)])


def perpendicular(pole, bearing):
    """lat/lon of a place a quarter of a circle from the pole"""
    a, b = math.radians(pole[0]), math.radians(pole[1])
    north = np.array([-math.sin(a) * math.cos(b), -math.sin(a) * math.sin(b), math.cos(a)])
    east = np.array([-math.sin(b), math.cos(b), 0.0])
    t = math.radians(bearing)
    v = math.cos(t) * north + math.sin(t) * east
    return [math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))),
            math.degrees(math.atan2(v[1], v[0]))]


def model(case):
    kw = {} if case["radius"] is None else {"earth_radius": case["radius"]}
    if case["kind"] == "sphere":
        return SphericalGlobe(**kw), case["radius"] or SPHERE_R
    if case["kind"] == "turned":
        kw["virt_northpole"] = tuple(case["pole"])
        kw["virt_zero"] = tuple(perpendicular(case["pole"], case["bearing"]))
    return FlatMercatorProjection(**kw), case["radius"] or 3440


def shaped(p, form):
    return {"list": list, "tuple": tuple, "array": np.array}[form](p)


def turned_lat(case, p):
    """an upper bound on |latitude| in the turned system for both readings
    of the virtual pole"""
    pole = unit(case["pole"])
    zero = unit(perpendicular(case["pole"], case["bearing"]))
    m = np.array([zero, np.cross(pole, zero), pole])
    return max(abs(math.degrees(math.asin(max(-1, min(1, (a @ unit(p))[2])))))
               for a in (m, m.T))


def usable(case, pts):
    return case["kind"] != "turned" or all(turned_lat(case, p) <= 89 for p in pts)


def arc(p, q):
    """haversine / Vincenty angle in radians"""
    a1, a2 = math.radians(p[0]), math.radians(q[0])
    d = math.radians(q[1] - p[1])
    y = math.hypot(math.cos(a2) * math.sin(d),
                   math.cos(a1) * math.sin(a2) - math.sin(a1) * math.cos(a2) * math.cos(d))
    x = math.sin(a1) * math.sin(a2) + math.cos(a1) * math.cos(a2) * math.cos(d)
    return math.atan2(y, x)


def same_place(got, want, tol=1e-9):
    """tolerance as an angle in radians"""
    return finite(got) and float(np.linalg.norm(unit(got) - unit(want))) <= tol


def mercator(p):
    a = math.radians(p[0])
    return np.array([math.radians(p[1]), math.log(math.tan(math.pi / 4 + a / 2))])


@REG.facet(
    cases(),
    quick=4000,
    rule="1-3 places per call incl. poles, date line, equal and nearly equal"
    " places, on the sphere and on Mercator maps with the usual and turned"
    " poles, any radius; non-trivial: a turned map or a place within a degree"
    " of a pole or the date line",
)
def projection_round_trip(case, cx):
    globe, r = model(case)
    pts = case["pts"]
    if not usable(case, pts):
        cx.label("close to the turned pole: skipped")
        return
    arr = np.array(pts)
    before = frozen(arr)
    proj = np.asarray(globe.project(arr))
    expect(frozen(arr) == before, "project changed its argument")
    expect(proj.shape == (len(pts), 3 if case["kind"] == "sphere" else 2), "shape %s", proj.shape)
    expect(finite(proj), "projection not finite: %s", proj)
    back = np.asarray(globe.lat_lon(proj))
    expect(back.shape == (len(pts), 2), "shape %s", back.shape)
    for p, q, b in zip(pts, proj, back):
        expect(same_place(b, p), "%s is projected and back to %s", p, b.tolist())
        if abs(p[0]) < 89.5:
            expect(abs(b[0] - p[0]) < 1e-7 and angdiff(b[1], p[1]) < 1e-7,
                   "%s is projected and back to %s", p, b.tolist())
        if case["kind"] == "sphere":
            expect(np.linalg.norm(q - r * unit(p)) <= 1e-9 * r,
                   "projection of %s is %s, not %s", p, q, r * unit(p))
        elif case["kind"] == "mercator":
            d = (q / r - mercator(p))
            d[0] = math.radians(angdiff(math.degrees(q[0] / r), p[1]))
            expect(np.max(np.abs(d)) <= 1e-9, "Mercator projection of %s is %s, not %s",
                   p, q, r * mercator(p))
        single = np.asarray(globe.project(np.array([p])))
        expect(np.allclose(single[0], q, rtol=0, atol=1e-9 * r), "projection depends on the other points")
    cx.label(case["kind"])
    cx.nontrivial(case["kind"] == "turned" or any(
        abs(p[0]) > 88 or abs(p[1]) > 179 for p in pts))


@REG.facet(
    cases(),
    quick=4000,
    rule="triples of places as before; non-trivial: three different places"
    " or a nearly equal pair",
)
def distances(case, cx):
    globe, r = model(case)
    pts = case["pts"]
    if not usable(case, pts):
        return
    a, b, c = (shaped(p, case["form"]) for p in pts)

    def dist(p, q):
        d = globe.distance(p, q)
        expect(np.ndim(d) == 0 and finite(d), "distance %s", d)
        expect(d >= 0, "negative distance %s", d)
        return float(d)

    ab, bc, ac = dist(a, b), dist(b, c), dist(a, c)
    for p, q, d in ((a, b, ab), (b, c, bc), (a, c, ac)):
        lp, lq = list(map(float, p)), list(map(float, q))
        # near the map's border 180 = -180 may be drawn on either side
        border = case["kind"] == "turned"
        if not border or d < r:
            expect(abs(dist(q, p) - d) <= 1e-12 * r, "distance is not symmetric: %s, %s", d, dist(q, p))
        expect(dist(p, p) == 0, "distance of %s to itself is %s", p, dist(p, p))
        if case["kind"] == "sphere":
            want = r * arc(lp, lq)
        elif case["kind"] == "mercator":
            want = r * float(np.linalg.norm(mercator(lp) - mercator(lq)))
        else:
            m = np.asarray(globe.project(np.array([lp, lq])))
            want = float(np.linalg.norm(m[0] - m[1]))
        expect(abs(d - want) <= 1e-9 * r + 1e-9 * want, "distance from %s to %s is %s, not %s",
               lp, lq, d, want)
        # precise for close places as well
        near = max(abs(lp[0] - lq[0]), abs(lp[1] - lq[1]))
        if case["kind"] != "turned" and 1e-10 < near and max(abs(lp[0]), abs(lq[0])) < 88:
            expect(d > 0 and abs(d - want) <= 1e-4 * want, "distance from %s to %s is %s, not %s",
                   lp, lq, d, want)
    expect(ac <= ab + bc + 1e-9 * r, "triangle inequality: %s > %s + %s", ac, ab, bc)
    cx.nontrivial(len({tuple(p) for p in pts}) == 3)
    cx.label(case["kind"])


@REG.facet(
    cases(),
    quick=3000,
    rule="pairs of places and 2-100 path points; non-trivial: at least three"
    " path points between different places",
)
def shortest_paths(case, cx):
    globe, r = model(case)
    p, q = case["pts"][:2]
    if not usable(case, [p, q]):
        return
    if case["kind"] == "sphere" and arc(p, q) > math.radians(179.9):
        cx.label("antipodal: skipped")
        return
    n = case["res"]
    path = np.asarray(globe.shortest_path(shaped(p, case["form"]), shaped(q, case["form"]), n))
    expect(path.shape == (n, 2), "path of shape %s for %s points", path.shape, n)
    expect(finite(path), "path is not finite: %s", path)
    expect(same_place(path[0], p, 1e-7), "path starts at %s, not %s", path[0], p)
    if n == 1:
        cx.label("one point")
        return
    expect(same_place(path[-1], q, 1e-7), "path ends at %s, not %s", path[-1], q)
    total = float(globe.distance(p, q))
    if case["kind"] == "sphere":
        legs = [r * arc(u, v) for u, v in zip(path, path[1:])]
        expect(abs(sum(legs) - total) <= 1e-6 * r, "length of the path is %s, distance %s", sum(legs), total)
        expect(all(abs(x - total / (n - 1)) <= 1e-6 * r for x in legs), "uneven path: legs %s", legs)
        # all points lie on the great circle between the end points
        for x in path:
            expect(abs(arc(p, x) + arc(x, q) - arc(p, q)) <= 1e-6, "%s is off the great circle", x)
    else:
        ends = np.asarray(globe.project(np.array([p, q])))
        for i, x in enumerate(path):
            want = ends[0] + (ends[1] - ends[0]) * i / (n - 1)
            got = np.asarray(globe.project(np.array([x])))[0]
            d = abs(got - want) / r
            d[0] = min(d[0], abs(2 * math.pi - d[0]))
            expect(max(d) <= 1e-6, "point %s of the path lies at %s, not %s", i, got, want)
        if case["kind"] == "mercator":
            # 180 and -180 are one meridian, of which either name may come back
            there = [p] + [
                (x[0], math.copysign(x[1], p[1])) if abs(x[1]) > 180 - 1e-6 else x for x in path[1:-1]
            ] + [q]
            m = [mercator(x) for x in there]
            legs = [r * float(np.linalg.norm(u - v)) for u, v in zip(m, m[1:])]
            expect(abs(sum(legs) - total) <= 1e-6 * (r + total), "length of the path is %s, distance %s",
                   sum(legs), total)
    if n > 2 and p != q:
        cx.nontrivial()
    cx.label(case["kind"], "equal" if p == q else "different")
    if case["kind"] == "sphere" and p == q:
        cx.label("standing still")


# ---- large ----
def big_place(r, limit):
    return [r.choice([0.0, limit, -limit, r.uniform(-limit, limit), r.num(-limit, limit)]), r.choice([180.0, -180.0, 90.0, r.num(-180, 180), r.uniform(-180, 180)])]


def big_case(r, n, pts=None, res=2):
    kind = r.choice(["sphere", "mercator", "turned"])
    c = {
        "kind": kind, "radius": r.choice(RADII), "pole": [r.num(-89, 89), r.num(-180, 180)], "bearing": r.num(0, 359),
        "res": res, "form": r.choice(["list", "tuple", "array"]),
    }
    limit = 90.0 if kind == "sphere" else 89.0
    c["pts"] = []
    while len(c["pts"]) < n:
        p = big_place(r, limit)
        if usable(c, [p]):
            c["pts"].append(p)
    return c


def big_path(r, n):
    return big_case(r, 3, res=n)


big.large(REG, projection_round_trip, big_case, hi=1000, quick=40, what="places")
big.large(REG, shortest_paths, big_path, lo=100, hi=1500, quick=40, what="points of the path")
