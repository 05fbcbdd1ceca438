"""C08: a multi-sail diagram is the best of its sails, named correctly."""
import numpy as np
from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import must_raise, same
from hrosailing import polardiagram as hp

REG = Registry(
    "C08",
    ["sail names are distinct where a diagram is looked up by name"],
)

NAMES = ["Jib", "Spi", "G0", "Main", "Sail 1", "", "Ü"]


@st.composite
def tables(draw):
    c = draw(gen.table(ws=(1, 4), wa=(1, 6), dyadic=True, elem=gen.nice(-5, 20)))
    c["kind"] = "table"
    return c


@st.composite
def clouds(draw):
    return {"kind": "cloud", "pts": draw(gen.points(1, 6, ws_low=0.25, dyadic=True))}


@st.composite
def shared(draw):
    """Tables over the same wind speeds, as documented."""
    n = draw(st.integers(1, 4))
    ws = draw(gen.speeds(1, 4, low=0.25))
    out = []
    for _ in range(n):
        wa = draw(gen.angles(1, 6, dyadic=True))
        out.append(
            {
                "kind": "table",
                "ws": ws,
                "wa": wa,
                "bsp": draw(gen.matrix(gen.nice(-5, 20), len(wa), len(ws))),
            }
        )
    return out


@st.composite
def cases(draw):
    parts = draw(
        st.one_of(
            shared(),
            shared(),
            st.lists(tables(), min_size=1, max_size=4),
            st.lists(st.one_of(tables(), clouds()), min_size=1, max_size=4),
        )
    )
    names = draw(
        st.one_of(
            st.none(),
            st.lists(st.sampled_from(NAMES), max_size=6, unique=True),
            st.lists(st.sampled_from(NAMES), min_size=len(parts), max_size=len(parts), unique=True),
        )
    )
    return {
        "pds": parts,
        "sails": names,
        "as_tuple": draw(st.booleans()),
        "winds": draw(
            st.lists(
                st.tuples(gen.nice(0.25, 30), gen.grid(0, 359), st.integers(0, 99)).map(list),
                min_size=1,
                max_size=4,
            )
        ),
        "ws": draw(st.lists(gen.nice(0.25, 30), min_size=1, max_size=3)),
    }


def expected_names(c):
    n = len(c["pds"])
    given = c["sails"] or []
    return [given[i] if i < len(given) else f"Sail {i}" for i in range(n)]


def winds_of(d):
    if d["kind"] == "table":
        return [(w, a) for w in d["ws"] for a in d["wa"]]
    return [(p[0], p[1]) for p in d["pts"]]


def reachable(c, w, a):
    return all(
        min(((w - x) / 40) ** 2 + ((a - y) / 360) ** 2 for x, y in winds_of(d)) < 0.9
        for d in c["pds"]
    )


def build(c):
    parts = [pds.build(d) for d in c["pds"]]
    names = c["sails"]
    if c["as_tuple"]:
        parts = tuple(parts)
        names = None if names is None else tuple(names)
    return parts, hp.PolarDiagramMultiSails(parts, names)


@REG.facet(
    cases(),
    quick=2000,
    rule="1-4 diagrams (tables over common or different winds, clouds), name"
    " lists shorter, longer, absent; winds in and off the tables; non-trivial:"
    " at least two sails",
)
def best_sail(c, cx):
    parts, pd = build(c)
    cx.nontrivial(len(parts) > 1)
    winds = []
    for w, a, k in c["winds"]:
        winds.append((w, a))
        ws = winds_of(c["pds"][k % len(parts)])
        winds.append(ws[k % len(ws)])
    done = set()
    for w, a in winds:
        if w <= 0 or not reachable(c, w, a) or (w, a) in done:
            continue
        done.add((w, a))
        each = [float(d(w, a)) for d in parts]
        got = float(pd(w, a))
        expect(
            got == max(each), f"({w}, {a}) gives {got}, the sails give {each}"
        )
        if len(set(each)) > 1 and each.index(max(each)) > 0:
            cx.label("best sail is not the first")


@REG.facet(
    cases(),
    quick=1500,
    rule="as best_sail; names checked in full; non-trivial: at least two sails",
)
def names(c, cx):
    parts, pd = build(c)
    want = expected_names(c)
    cx.nontrivial(len(parts) > 1)
    k = len(c["sails"] or [])
    cx.label("names " + ("none" if c["sails"] is None else "short" if k < len(parts) else "long" if k > len(parts) else "equal"))
    expect(list(pd.sails) == want, f"sails {pd.sails}, expected {want}")
    expect(
        len(pd.diagrams) == len(parts)
        and all(a is b or pds.describe(a) == pds.describe(b) for a, b in zip(pd.diagrams, parts)),
        "the diagrams are not the given ones in order",
    )
    for i, n in enumerate(want):
        if want.count(n) == 1:
            expect(
                pds.describe(pd[n]) == pds.describe(parts[i]),
                f"looking up {n!r} does not give diagram {i}",
            )
    for bad in ("no such sail", "Sail 99", "jib"):
        must_raise(f"looking up {bad!r}", lambda: pd[bad], ValueError)
    got = pd.sails
    got.append("x")
    pd.diagrams.append(None)
    expect(
        list(pd.sails) == want and len(pd.diagrams) == len(parts),
        "changing a handed-out list changed the diagram",
    )


@REG.facet(
    cases(),
    quick=1200,
    rule="slices with information: compared column by column with the slices"
    " of the component diagrams; non-trivial: at least two sails with"
    " different numbers of columns",
)
def slices_and_info(c, cx):
    parts, pd = build(c)
    want_names = expected_names(c)
    ws = sorted(set(c["ws"]) | {w for d in c["pds"] for w, _ in winds_of(d)[:2] if w > 0})
    for w in ws:
        for d in c["pds"]:
            if d["kind"] == "table" and w not in d["ws"]:
                if min(abs(w - x) for x in d["ws"]) > 37:
                    return
    labels, slices, info = pd.get_slices(list(ws), full_info=True)
    labels2, slices2 = pd.get_slices(list(ws))
    expect(same(labels, ws) and same(labels2, ws), f"labels {labels}, asked {ws}")
    comp = [d.get_slices(list(ws))[1] for d in parts]
    widths = set()
    expect(len(slices) == len(slices2) == len(info) == len(ws), "number of slices")
    for i, w in enumerate(ws):
        cols = [np.asarray(s[i], float) for s in comp]
        widths |= {x.shape[1] for x in cols}
        want = np.hstack(cols)
        tags = [n for n, x in zip(want_names, cols) for _ in range(x.shape[1])]
        got = np.asarray(slices[i], float)
        expect(got.shape == want.shape, f"slice {w}: shape {got.shape}, sails {want.shape}")
        expect(len(info[i]) == got.shape[1], f"{len(info[i])} infos for {got.shape[1]} columns")
        pairs = sorted((tuple(p), t) for p, t in zip(got.T.tolist(), info[i]))
        ref = sorted((tuple(p), t) for p, t in zip(want.T.tolist(), tags))
        expect(
            pairs == ref,
            f"slice {w}: columns and sails {pairs}, components say {ref}",
        )
        expect(same(got, want), f"slice {w}: the sails' slices are not in order")
        expect(same(slices2[i], got), "slices with and without information differ")
    cx.nontrivial(len(parts) > 1 and len(widths) > 1)


@REG.facet(
    cases(),
    quick=300,
    rule="default points and slices; non-trivial: at least two sails",
)
def defaults(c, cx):
    parts, pd = build(c)
    cx.nontrivial(len(parts) > 1)
    want = np.vstack([d.default_points for d in parts])
    got = np.asarray(pd.get_points(), float)
    expect(
        sorted(map(tuple, got.tolist())) == sorted(map(tuple, want.tolist())),
        f"default points {got}, the sails' are {want}",
    )
    lab = np.asarray(pd.default_slices, float)
    lo = min(np.min(d.default_slices) for d in parts)
    hi = max(np.max(d.default_slices) for d in parts)
    expect(
        len(lab) > 0 and lab.min() >= lo - 1e-9 and lab.max() <= hi + 1e-9
        and np.all(np.diff(lab) >= 0),
        f"default slices {lab} outside [{lo}, {hi}]",
    )


# ---- large ----
def big_tables(r, n):
    c = r.table(n, wa=(0, 359.9), ws=(0.25, 40))
    c["wa"] = r.uniq(len(c["wa"]), lambda: r.grid(0, 359.9))
    return dict(c, kind="table", bsp=c["bsp"][: len(c["wa"])])


def big_case(r, n):
    k = r.randrange(3)
    if k == 0:
        parts = [r.choice([big_tables, lambda r, n: {"kind": "cloud", "pts": [[p[0], float(int(p[1])), p[2]] for p in r.points(n, ws=(0.25, 40))]}])(r, 5) for _ in range(n)]
    elif k == 1:
        parts = [big_tables(r, min(10 * n, 300)) for _ in range(2)]
    else:
        ws = r.uniq(n, lambda: r.num(0.25, 40))
        parts = []
        for _ in range(3):
            wa = r.uniq(n, lambda: r.grid(0, 359.9))
            parts.append({"kind": "table", "ws": ws, "wa": wa, "bsp": [r.times(len(ws), lambda: r.num(0, 20)) for _ in wa]})
    names = [f"Sail {(i * 7) % 60}" for i in range(len(parts))]
    r.shuffle(names)
    return {
        "pds": parts, "sails": r.choice([None, names, names[: len(parts) // 2]]), "as_tuple": r.random() < 0.5,
        "winds": [[r.num(0.25, 30), r.grid(0, 359), r.randrange(100)] for _ in range(12)],
        "ws": r.choice([[r.num(0.25, 30)], r.uniq(n, lambda: r.num(0.25, 30))]),
    }


big.large(REG, best_sail, big_case, lo=5, hi=40, quick=30, what="sails, wind speeds or angles")
big.large(REG, names, big_case, lo=5, hi=40, quick=20, what="sails, wind speeds or angles")
big.large(REG, slices_and_info, big_case, lo=5, hi=40, quick=30, what="sails, wind speeds or angles")
big.large(REG, defaults, big_case, lo=5, hi=40, quick=20, what="sails, wind speeds or angles")
