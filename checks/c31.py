"""C31: plots show exactly the data of the polar diagram."""
import math

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.colors import to_rgba

import hrosailing.plotting as hplt
from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import angdiff, close
from hrosailing import polardiagram as hp

REG = Registry(
    "C31",
    [
        "what is handed to matplotlib: lines, markers, surfaces, their"
        " colours and legends as found on the axes",
        "wind speeds are asked for in ascending order, sails have distinct"
        " names",
        "the slices and points themselves are those of get_slices and"
        " get_points (see C07, C08)",
    ],
)
COLORS = [
    "green", "red", "blue", "#12a4c8", "0.25", [0.25, 0.5, 0.75], [1, 0, 0], [0, 0, 1, 1],
    [0.125, 0.5, 1.0, 0.5], "tab:orange", "black",
]


def color(c):
    return tuple(c) if isinstance(c, list) else c


def rgba(c):
    return [float(x) for x in to_rgba(color(c))]


def squeezed(ws):
    out = [10 + w / 128 for w in ws]
    return out if len(set(out)) == len(ws) else ws


@st.composite
def diagrams(draw):
    kind = draw(st.sampled_from(["table", "cloud", "curve", "multi", "multi"]))
    # wind speeds close together
    squeeze = draw(st.sampled_from([False, False, False, True]))
    if kind == "table":
        t = dict(draw(gen.table(ws=(1, 5), wa=(1, 7), ws_low=0.5)), kind=kind)
        return dict(t, ws=squeezed(t["ws"])) if squeeze else t
    if kind == "cloud":
        return {"kind": kind, "pts": draw(gen.points(1, 12, ws_low=0.5))}
    if kind == "curve":
        return {
            "kind": kind,
            "f": "ws_s_s_dt_wa_gauss_comb",
            "params": [draw(gen.nice(0.1, 2)) for _ in range(17)],
            "radians": draw(st.booleans()),
        }
    ws = draw(gen.speeds(1, 4, low=0.5))
    if squeeze:
        ws = squeezed(ws)
    n = draw(st.integers(1, 3))
    out = []
    for _ in range(n):
        wa = draw(gen.angles(1, 6))
        out.append({"kind": "table", "ws": ws, "wa": wa, "bsp": draw(gen.matrix(gen.nice(0, 20), len(wa), len(ws)))})
    sails = draw(st.permutations(["Jib", "Spi", "G0"]))[:n]
    return {"kind": kind, "pds": out, "sails": sails}


def build(c):
    if c["kind"] == "curve":
        return hp.PolarDiagramCurve(model_rad if c["radians"] else model, *c["params"][:3], radians=c["radians"])
    return pds.build(c)


def model(ws, wa, a, b, c):
    r = np.deg2rad(wa)
    return ws * (a + b * np.sin(r / 2) ** 2 + c * np.cos(r - 1.0) ** 2)


def model_rad(ws, r, a, b, c):
    return model(ws, np.rad2deg(r), a, b, c)


@st.composite
def line_cases(draw):
    pd = draw(diagrams())
    if pd["kind"] == "multi" and draw(st.booleans()):
        ws = None
    elif pd["kind"] in ("table", "multi"):
        have = pd["ws"] if pd["kind"] == "table" else pd["pds"][0]["ws"]
        ws = draw(st.one_of(st.none(), st.lists(st.sampled_from(have), min_size=1, max_size=5, unique=True)))
    else:
        ws = draw(st.one_of(st.none() if pd["kind"] == "cloud" else st.just([5.0, 9.0]), gen.uniq(gen.nice(0.5, 25), 1, 5)))
    mode = draw(st.sampled_from(["default", "one", "two", "many", "pairs", "pairs"]))
    return {
        "pd": pd,
        "ws": None if ws is None else sorted(ws),
        "single": draw(st.booleans()),
        "n_steps": draw(st.sampled_from([None, None, 1, 2])) if pd["kind"] == "curve" else None,
        "polar": draw(st.booleans()),
        "scatter": draw(st.booleans()),
        "function": draw(st.booleans()),
        "mode": mode,
        "colors": draw(st.lists(st.sampled_from(COLORS), min_size=7, max_size=7)),
        "k": draw(st.integers(3, 6)),
        "legend": draw(st.booleans()),
        "legend_kw": draw(st.sampled_from([None, None, "horizontal", "vertical", "Speeds"])),
        "pick": draw(st.lists(st.integers(0, 20), min_size=1, max_size=4, unique=True)),
        "lw": draw(st.sampled_from([None, None, 2.5])),
        "ls": draw(st.sampled_from([None, {"ls": "--"}, {"linestyle": ":"}, {"marker": "s"}])),
        "stray": draw(st.sampled_from([None, None, None, 0.25, -0.25, 3])),
    }


def legend_kw(c, bar):
    """-> keywords for the colour bar or the legend"""
    if c["legend_kw"] is None:
        return {}
    if bar:
        return {"legend_kw": {} if c["legend_kw"] == "Speeds" else {"orientation": c["legend_kw"]}}
    return {"legend_kw": {"title": c["legend_kw"], "ncol": 2}}


def bar_looks(c, bar):
    if c["legend_kw"] == "Speeds":
        return
    want = c["legend_kw"] or "vertical"
    expect(bar._colorbar.orientation == want, "%s colour bar", bar._colorbar.orientation)


def legend_looks(c, legend):
    if c["legend_kw"]:
        expect(legend.get_title().get_text() == c["legend_kw"] and legend._ncols == 2, "legend_kw without effect")


def expected_colors(c, labels):
    """-> the keyword, colour of every label, colours in the legend by label
    (None for a colour bar)"""
    cols = c["colors"]
    n = len(labels)
    mode = c["mode"]
    if mode == "one":
        return color(cols[0]), [rgba(cols[0])] * n
    if mode == "pairs":
        idx = sorted({i % n for i in c["pick"]})
        pairs = [(labels[i], color(cols[k])) for k, i in enumerate(idx)]
        out = [rgba("blue")] * n
        for i, (_, col) in zip(idx, pairs):
            out[i] = rgba(col)
        return pairs, out
    if mode == "many":
        given = [color(x) for x in cols[: c["k"]]]
        return given, [rgba(given[i]) if i < len(given) else rgba("blue") for i in range(n)]
    two = [color(x) for x in cols[:2]] if mode == "two" else ["green", "red"]
    if n <= 2:
        return two, [rgba(x) for x in two[:n]]
    a, b = (np.array(rgba(x)[:3]) for x in two)
    lo, hi = labels[0], labels[-1]
    out = []
    for w in labels:
        t = (w - lo) / (hi - lo)
        out.append([*((1 - t) * a + t * b), 1.0])
    return two, out


def runs(xy):
    """the parts of a line, without those that are empty"""
    out, cur = [], []
    for p in xy:
        if any(math.isnan(v) for v in p):
            out.append(cur)
            cur = []
        else:
            cur.append([float(p[0]), float(p[1])])
    return [r for r in out + [cur] if r]


def same_runs(got, want):
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for w in left:
            if len(g) == len(w) and in_order(g, w):
                left.remove(w)
                break
        else:
            return False
    return True


def in_order(g, w):
    """the same points, in the order of their angles"""
    if any(g[i][0] > g[i + 1][0] for i in range(len(g) - 1)):
        return False
    return close(sorted(g), sorted(w), 1e-12, 1e-12)


@REG.facet(
    line_cases(),
    quick=400,
    rule="polar and flat plots, lines and markers, all kinds of diagrams,"
    " given and default wind speeds, colours as one, two, several or pairs,"
    " with and without legend; non-trivial: several slices or sails",
)
def slices(c, cx):
    pd = build(c["pd"])
    ws = c["ws"]
    if ws is not None and len(ws) == 1 and c["single"]:
        ws = ws[0]
    labels, parts, info = pd.get_slices(ws, c["n_steps"], full_info=True)
    labels = [float(x) for x in labels]
    if labels != sorted(set(labels)) or any(p.shape[1] == 0 for p in parts):
        cx.label("empty slices or unsorted: skipped")
        return
    colors, want_colors = expected_colors(c, labels)
    stray = None
    if c["mode"] == "pairs" and c["stray"]:
        # a wind speed that is not plotted: refused or without effect
        stray = labels[c["pick"][0] % len(labels)] + c["stray"]
        if stray in labels or c["legend"]:
            stray = None
        else:
            colors = colors + [(stray, color(c["colors"][5]))]
            cx.label("colour of a wind speed that is not plotted")
    kw = {} if c["mode"] == "default" else {"colors": colors}
    if c["lw"]:
        kw["linewidths" if c["scatter"] else "linewidth"] = c["lw"]
    if c["ls"] and not c["scatter"]:
        kw.update(c["ls"])
    if c["legend"]:
        kw["show_legend"] = True
    kw.update(legend_kw(c, c["mode"] in ("two", "default") and len(labels) > 2))
    if ws is not None:
        kw["ws"] = ws
    if c["n_steps"] is not None:
        kw["n_steps"] = c["n_steps"]
    before = pds.describe(pd) if c["pd"]["kind"] != "curve" else None
    fig = plt.figure()
    try:
        if c["function"]:
            kind = ("scatter_" if c["scatter"] else "plot_") + ("polar" if c["polar"] else "flat")
            draw = getattr(hplt, kind)
        else:
            ax = plt.subplot(projection="hro polar" if c["polar"] else "hro flat")
            draw = ax.scatter if c["scatter"] else ax.plot
        try:
            draw(pd, **kw)
        except (ValueError, KeyError):
            if stray is None:
                raise
            return
        ax = fig.axes[0]
        expect(before is None or pds.describe(pd) == before, "the diagram was changed")
        drawn(c, cx, fig, ax, labels, parts, info, want_colors)
    finally:
        plt.close(fig)
    cx.nontrivial(len(labels) > 1 or (info is not None and len(set(info[0])) > 1))


def drawn(c, cx, fig, ax, labels, parts, info, want_colors):
    things = list(ax.collections) if c["scatter"] else list(ax.lines)
    expect(len(ax.collections) + len(ax.lines) == len(things), "both lines and markers were drawn")
    expect(len(things) == len(parts), "%s lines for %s slices", len(things), len(parts))
    if c["polar"]:
        expect(ax.get_theta_direction() == -1, "angles are not clockwise")
        expect(angdiff(math.degrees(ax.get_theta_offset()), 90) < 1e-9, "angle 0 is not on top")
    for k, (thing, part) in enumerate(zip(things, parts)):
        rows = [[math.radians(a) if c["polar"] else float(a), float(b)] for _, a, b in part.T]
        if c["scatter"]:
            off = np.ma.filled(np.ma.masked_invalid(thing.get_offsets()), np.nan)
            got = sorted([float(a), float(b)] for a, b in off if not math.isnan(a))
            expect(close(got, sorted(rows), 1e-12, 1e-12), "markers %s, expected %s", got, sorted(rows))
            face = thing.get_facecolor()
            col = [float(x) for x in face[0]]
            expect(len(face) == 1, "several colours in one slice")
            if c["lw"]:
                expect(set(map(float, thing.get_linewidths())) == {c["lw"]}, "line widths %s", thing.get_linewidths())
        else:
            got = runs(np.column_stack([np.asarray(thing.get_xdata(), float), np.asarray(thing.get_ydata(), float)]))
            if info is None:
                want = [rows]
            else:
                want = [[r for r, s in zip(rows, info[k]) if s == sail] for sail in dict.fromkeys(info[k])]
            expect(same_runs(got, want), "line %s, expected %s", got, want)
            col = rgba(thing.get_color())
            if c["lw"]:
                expect(thing.get_linewidth() == c["lw"], "line width %s", thing.get_linewidth())
            for k2, v in (c["ls"] or {}).items():
                have = thing.get_marker() if k2 == "marker" else thing.get_linestyle()
                expect(have == v, "%s=%s, but the line has %s", k2, v, have)
        expect(close(col, want_colors[k], 1e-9, 1e-9), "slice %s in %s, expected %s", labels[k], col, want_colors[k])
    legends(c, cx, fig, ax, labels, want_colors)


def legends(c, cx, fig, ax, labels, want_colors):
    legend = ax.get_legend()
    bars = [a for a in fig.axes if a is not ax]
    if not c["legend"]:
        expect(legend is None and not bars, "a legend that was not asked for")
        return
    if c["mode"] in ("two", "default") and len(labels) > 2:
        expect(legend is None and len(bars) == 1, "no colour bar")
        bar_looks(c, bars[0])
        lo, hi = bars[0]._colorbar.vmin, bars[0]._colorbar.vmax
        expect(lo == labels[0] and hi == labels[-1], "colour bar from %s to %s", lo, hi)
        m = bars[0]._colorbar.mappable
        for w, col in zip(labels, want_colors):
            expect(close([float(x) for x in m.to_rgba(w)][:3], col[:3], 0, 0.01), "colour bar has %s at %s", m.to_rgba(w), w)
        cx.label("colour bar")
        return
    expect(legend is not None and not bars, "no legend")
    legend_looks(c, legend)
    by_label = dict(zip([f"TWS {w}" for w in labels], want_colors))
    shown = [t.get_text() for t in legend.get_texts()]
    expect(shown and set(shown) <= set(by_label), "legend %s for %s", shown, labels)
    if c["mode"] in ("one", "pairs"):
        n = len(labels) if c["mode"] == "one" else len({i % len(labels) for i in c["pick"]})
        expect(len(shown) == n, "legend %s, expected %s entries", shown, n)
    else:
        n = min(len(labels), 2 if c["mode"] != "many" else c["k"])
        expect(len(set(shown)) >= n, "legend %s for %s", shown, labels)
    for text, line in zip(shown, legend.get_lines()):
        expect(close(rgba(line.get_color()), by_label[text], 1e-9, 1e-9), "legend shows %s as %s", text, line.get_color())
    cx.label("legend")


@st.composite
def point_cases(draw):
    pd = draw(diagrams())
    wind = None
    if pd["kind"] == "curve" or (pd["kind"] == "table" and draw(st.booleans())):
        # winds known to the diagram
        ws = pd["ws"] if pd["kind"] == "table" else draw(gen.speeds(1, 4, low=0.5))
        wa = pd["wa"] if pd["kind"] == "table" else draw(gen.angles(1, 6))
        if draw(st.booleans()):
            wind = ["grid", ws, wa]
        else:
            n = draw(st.integers(3, 6))
            wind = ["list", [[draw(st.sampled_from(ws)), draw(st.sampled_from(wa))] for _ in range(n)]]
    return {
        "pd": pd,
        "wind": wind,
        "way": draw(st.sampled_from(["plane", "plane", "plane fn", "3d", "3d fn"])),
        "plot": draw(st.booleans()),
        "mode": draw(st.sampled_from(["default", "one", "two"])),
        "colors": draw(st.lists(st.sampled_from(COLORS), min_size=2, max_size=2)),
        "legend": draw(st.booleans()),
        "legend_kw": draw(st.sampled_from([None, None, "horizontal", "vertical", "Speeds"])),
        "flat": draw(st.sampled_from([False, False, False, True])),
        "s": draw(st.sampled_from([None, None, 7.5])),
    }


def even(c):
    """the diagram, with the same boat speed everywhere"""
    if c["kind"] == "table":
        return dict(c, bsp=[[4.5] * len(r) for r in c["bsp"]])
    if c["kind"] == "cloud":
        return dict(c, pts=[[a, b, 4.5] for a, b, _ in c["pts"]])
    return c


@REG.facet(
    point_cases(),
    quick=300,
    rule="colour gradients and 3d markers of all kinds of diagrams, default"
    " and given winds; non-trivial: two different boat speeds",
)
def points(c, cx):
    pd = build(even(c["pd"]) if c["flat"] else c["pd"])
    wind = None
    if c["wind"]:
        wind = (np.array(c["wind"][1]), np.array(c["wind"][2])) if c["wind"][0] == "grid" else np.array(c["wind"][1])
    pts = [[float(x) for x in p] for p in pd.get_points(wind)]
    cols = {"default": ["green", "red"], "one": c["colors"][:1] * 2, "two": c["colors"]}[c["mode"]]
    kw = {}
    if c["mode"] == "one":
        kw["colors"] = color(c["colors"][0])
    if c["mode"] == "two":
        kw["colors"] = tuple(color(x) for x in c["colors"])
    if wind is not None:
        kw["wind"] = wind
    if c["s"]:
        kw["s"] = c["s"]
    fig = plt.figure()
    try:
        if c["way"].startswith("plane"):
            if c["legend"]:
                kw["show_legend"] = True
            kw.update(legend_kw(c, len(pts) > 2 and c["mode"] != "one"))
            if c["way"] == "plane fn":
                hplt.plot_color_gradient(pd, **kw)
                ax = fig.axes[0]
            else:
                ax = plt.subplot(projection="hro color gradient")
                (ax.plot if c["plot"] else ax.scatter)(pd, **kw)
            plane(c, cx, fig, ax, pts, cols)
        else:
            if c["way"] == "3d fn":
                hplt.scatter_3d(pd, **kw)
                ax = fig.axes[0]
            else:
                ax = plt.subplot(projection="hro 3d")
                ax.scatter(pd, **kw)
            space(ax, pts, cols)
        if c["s"]:
            sizes = np.asarray(ax.collections[0].get_sizes(), float)
            expect(len(sizes) and (sizes == c["s"]).all(), "markers of size %s, not %s", sizes, c["s"])
    finally:
        plt.close(fig)
    cx.label(c["way"])
    cx.nontrivial(len({p[2] for p in pts}) > 1)


def blend(cols, v, values):
    a, b = (np.array(rgba(x)[:3]) for x in cols)
    lo, hi = min(values), max(values)
    t = (v - lo) / (hi - lo) if hi > lo else 0.0
    return (1 - t) * a + t * b


def plane(c, cx, fig, ax, pts, cols):
    expect(len(ax.collections) == 1 and not ax.lines, "%s sets of markers", len(ax.collections))
    sc = ax.collections[0]
    off = np.asarray(sc.get_offsets(), float)
    face = np.asarray(sc.get_facecolor(), float)
    if len(face) == 1:
        face = np.repeat(face, len(off), axis=0)
    expect(len(face) == len(off), "%s colours for %s markers", len(face), len(off))
    speeds = [p[2] for p in pts]
    want = sorted([p[0], p[1], *blend(cols, p[2], speeds)] for p in pts)
    got = sorted([*map(float, o), *map(float, f[:3])] for o, f in zip(off, face))
    if max(speeds) == min(speeds) and cols[0] != cols[1]:
        want, got = [w[:2] for w in want], [g[:2] for g in got]
        expect(np.isfinite(face).all(), "colours %s", face)
    expect(close(got, want, 1e-9, 1e-9), "markers (wind speed, angle, colour) %s, expected %s", got, want)
    bars = [a for a in fig.axes if a is not ax]
    if not c["legend"]:
        expect(not bars and ax.get_legend() is None, "a legend that was not asked for")
    elif len(pts) > 2 and c["mode"] != "one":
        expect(len(bars) == 1, "no colour bar")
        bar_looks(c, bars[0])
        m = bars[0]._colorbar.mappable
        if min(speeds) < max(speeds):  # matplotlib widens empty ranges
            expect(
                m.norm.vmin == min(speeds) and m.norm.vmax == max(speeds),
                "colour bar from %s to %s",
                m.norm.vmin,
                m.norm.vmax,
            )
        cx.label("colour bar")


def place(p):
    r = math.radians(p[1])
    return [p[2] * math.sin(r), p[2] * math.cos(r), p[0]]


def space(ax, pts, cols):
    expect(len(ax.collections) == 1, "%s sets of markers", len(ax.collections))
    sc = ax.collections[0]
    xyz = np.column_stack([np.asarray(x, float) for x in sc._offsets3d])
    arr = np.asarray(sc.get_array(), float)
    want = sorted(place(p) for p in pts)
    expect(close(sorted(xyz.tolist()), want, 1e-9, 1e-9), "points %s, expected %s", xyz.tolist(), want)
    expect(close(arr.tolist(), xyz[:, 2].tolist(), 1e-12, 1e-12), "colours do not follow the wind speed")
    for end, col in ((0.0, cols[0]), (1.0, cols[1])):
        got = [float(x) for x in sc.get_cmap()(end)]
        expect(close(got[:3], rgba(col)[:3], 0, 0.01), "colour map has %s at %s", got, end)


@st.composite
def surface_cases(draw):
    ws = sorted(draw(gen.uniq(gen.nice(1, 30), 2, 5)))
    wa = sorted(draw(gen.uniq(gen.nice(0, 359), 4, 8)))
    return {
        "pd": {"kind": "table", "ws": ws, "wa": wa, "bsp": draw(gen.matrix(gen.nice(1, 20), len(wa), len(ws)))},
        "way": draw(st.sampled_from(["plot", "surface", "fn"])),
        "mode": draw(st.sampled_from(["default", "one", "two"])),
        "colors": draw(st.lists(st.sampled_from(COLORS), min_size=2, max_size=2)),
    }


@REG.facet(
    surface_cases(),
    quick=120,
    rule="surfaces of tables of 2-5 x 4-8 winds; non-trivial: a surface of"
    " several triangles",
)
def surfaces(c, cx):
    pd = pds.build(c["pd"])
    pts = [[float(x) for x in p] for p in pd.get_points()]
    kw = {}
    if c["mode"] == "one":
        kw["colors"] = color(c["colors"][0])
    if c["mode"] == "two":
        kw["colors"] = tuple(color(x) for x in c["colors"])
    cols = {"default": ["green", "red"], "one": c["colors"][:1] * 2, "two": c["colors"]}[c["mode"]]
    fig = plt.figure()
    try:
        try:
            if c["way"] == "fn":
                hplt.plot_3d(pd, **kw)
                ax = fig.axes[0]
            else:
                ax = plt.subplot(projection="hro 3d")
                (ax.plot if c["way"] == "plot" else ax.plot_surface)(pd, **kw)
        except (RuntimeError, ValueError) as e:
            if "riang" in str(e) or "qhull" in str(e) or "zero-size" in str(e):
                cx.label("no triangulation")
                return
            raise
        expect(len(ax.collections) == 1, "%s surfaces", len(ax.collections))
        poly = ax.collections[0]
        vec = np.asarray(poly._vec, float)[:3].T
        want = np.array([place(p) for p in pts])
        for v in vec:
            expect(np.min(np.abs(want - v).max(axis=1)) <= 1e-9, "%s is on the surface but not in the diagram", v)
        for end, col in ((0.0, cols[0]), (1.0, cols[1])):
            got = [float(x) for x in poly.get_cmap()(end)]
            expect(close(got[:3], rgba(col)[:3], 0, 0.01), "colour map has %s at %s", got, end)
        cx.nontrivial(len(vec) > 6)
    finally:
        plt.close(fig)


@st.composite
def other_cases(draw):
    n = draw(st.integers(1, 6))
    return {
        "x": [draw(gen.nice(-10, 10)) for _ in range(n)],
        "y": [draw(gen.nice(-10, 10)) for _ in range(n)],
        "z": [draw(gen.nice(-10, 10)) for _ in range(n)],
        "proj": draw(st.sampled_from(["hro polar", "hro flat", "hro color gradient", "hro 3d"])),
        "scatter": draw(st.booleans()),
        "color": draw(st.sampled_from(COLORS)),
    }


@REG.facet(other_cases(), quick=120, rule="plain data on the projections; non-trivial: always")
def plain(c, cx):
    fig = plt.figure()
    try:
        ax = plt.subplot(projection=c["proj"])
        args = [c["x"], c["y"]] + ([c["z"]] if c["proj"] == "hro 3d" else [])
        marks = c["scatter"] or c["proj"] == "hro color gradient"
        (ax.scatter if c["scatter"] else ax.plot)(*args, color=color(c["color"]))
        if marks and c["proj"] == "hro 3d":
            got = [np.asarray(v, float).tolist() for v in ax.collections[0]._offsets3d]
        elif marks:
            got = np.asarray(ax.collections[0].get_offsets(), float).T.tolist()
        elif c["proj"] == "hro 3d":
            got = [np.asarray(v, float).tolist() for v in ax.lines[0].get_data_3d()]
        else:
            got = [np.asarray(v, float).tolist() for v in ax.lines[0].get_data()]
        if c["proj"] == "hro 3d":
            # plain surfaces
            other = plt.figure().add_subplot(projection="hro 3d")
            x, y = np.meshgrid(np.arange(3.0), np.arange(len(c["x"]) + 1.0))
            z = x * c["x"][0] + y * c["y"][0]
            other.plot_surface(x, y, z, color=color(c["color"]))
            vec = np.asarray(other.collections[0]._vec, float)[:3].T.round(9).tolist()
            expect(
                {tuple(v) for v in vec} == {tuple(v) for v in np.column_stack([x.ravel(), y.ravel(), z.ravel()]).round(9).tolist()},
                "surface through %s", vec,
            )
            plt.close(other.figure)
        a, b = (sorted(zip(*v)) for v in (got, args))
        expect(close([list(r) for r in a], [list(r) for r in b], 1e-12, 1e-12), "drawn %s, given %s", got, args)
        if marks:
            cols = [[float(x) for x in f][:3] for f in ax.collections[0].get_facecolor()]
        else:
            cols = [rgba(ax.lines[0].get_color())[:3]]
        expect(cols and all(close(x, rgba(c["color"])[:3], 0, 1e-9) for x in cols), "drawn in %s, not %s", cols, c["color"])
    finally:
        plt.close(fig)
    cx.nontrivial()


# ---- large ----
def big_diagram(r, n, kinds=("table", "cloud", "curve", "multi", "multi")):
    kind = r.choice(kinds)
    if kind == "curve":
        return {"kind": kind, "f": "ws_s_s_dt_wa_gauss_comb", "params": [r.num(0.1, 2) for _ in range(17)], "radians": r.random() < 0.5}
    if kind == "cloud":
        pts = r.points(n, ws=(0.5, 40))
        if r.random() < 0.5:
            pts = [[float(round(p[0])) + 1, *p[1:]] for p in pts]
        return {"kind": kind, "pts": pts}
    ws = sorted(r.uniq(r.choice([2, min(n, 40)]), lambda: r.num(0.5, 40)))
    out = []
    for _ in range(r.choice([1, 2, 3, min(n, 12)]) if kind == "multi" else 1):
        wa = r.uniq(r.choice([3, max(4, n // len(ws))]), lambda: r.num(0, 359.9))
        out.append({"kind": "table", "ws": ws, "wa": wa, "bsp": [[r.num(0, 20) for _ in ws] for _ in wa]})
    if kind == "table":
        return out[0]
    return {"kind": kind, "pds": out, "sails": [f"Sail no {i}" for i in range(len(out))]}


def big_lines(r, n):
    pd = big_diagram(r, n)
    have = {"table": lambda: pd["ws"], "multi": lambda: pd["pds"][0]["ws"], "cloud": lambda: sorted({p[0] for p in pd["pts"]})}
    have = have.get(pd["kind"], lambda: sorted(r.uniq(min(n, 40), lambda: r.num(0.5, 25))))()
    ws = sorted(r.sample(have, r.randint(1, min(len(have), 40))))
    if pd["kind"] != "curve" and (r.random() < 0.4 or pd["kind"] == "cloud" and len(have) > 60):
        ws = None if pd["kind"] != "cloud" else ws
    return {
        "pd": pd, "ws": ws, "single": r.random() < 0.5, "n_steps": r.choice([None, 1, 5]) if pd["kind"] == "curve" else None,
        "polar": r.random() < 0.5, "scatter": r.random() < 0.5, "function": r.random() < 0.5,
        "mode": r.choice(["default", "one", "two", "many", "pairs", "pairs"]), "colors": [r.choice(COLORS) for _ in range(7)],
        "k": r.randint(3, 6), "legend": r.random() < 0.5, "legend_kw": r.choice([None, None, "horizontal", "vertical", "Speeds"]),
        "pick": r.sample(range(max(n, 20)), 4), "lw": r.choice([None, 2.5]), "ls": r.choice([None, {"ls": "--"}, {"marker": "s"}]),
        "stray": None,
    }


def big_points(r, n):
    pd = big_diagram(r, n, ("table", "cloud", "multi"))
    wind = None
    if pd["kind"] == "table" and r.random() < 0.5:
        wind = ["grid", pd["ws"], pd["wa"]]
        if r.random() < 0.5:
            wind = ["list", [[r.choice(pd["ws"]), r.choice(pd["wa"])] for _ in range(n)]]
    return {
        "pd": pd, "wind": wind, "way": r.choice(["plane", "plane fn", "3d", "3d fn"]), "plot": r.random() < 0.5,
        "mode": r.choice(["default", "one", "two"]), "colors": [r.choice(COLORS) for _ in range(2)], "legend": r.random() < 0.5,
        "legend_kw": r.choice([None, "horizontal", "vertical", "Speeds"]), "flat": r.random() < 0.1, "s": r.choice([None, 7.5]),
    }


def big_surface(r, n):
    m = max(4, min(n, 150))
    ws = sorted(r.uniq(r.choice([3, max(2, m // 8)]), lambda: r.num(1, 30)))
    wa = sorted(r.uniq(r.choice([8, m]), lambda: r.num(0, 359)))
    return {
        "pd": {"kind": "table", "ws": ws, "wa": wa, "bsp": [[r.num(1, 20) for _ in ws] for _ in wa]},
        "way": r.choice(["plot", "surface", "fn"]), "mode": r.choice(["default", "one", "two"]), "colors": [r.choice(COLORS) for _ in range(2)],
    }


big.large(REG, slices, big_lines, lo=12, hi=150, quick=40, what="points or wind speeds")
big.large(REG, points, big_points, lo=12, hi=300, quick=30, what="points")
big.large(REG, surfaces, big_surface, lo=12, hi=150, quick=12, what="winds")
