"""C01: native CSV round trip of all four kinds of polar diagram."""
import os
import pathlib

from hypothesis import strategies as st

from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import must_raise
from hrosailing import polardiagram as hp
from hrosailing.core.exceptions import FileReadingException

REG = Registry(
    "C01",
    [
        "curves are built from the functions of hrosailing.core.modelfunctions"
        " (the only ones that can be re-read)",
        "sail names and file names are encodable text; the file system is the"
        " sandbox's",
    ],
)

NPARAMS = {
    "concave_function": (3, 4),
    "gaussian_model": (3, 5),
    "inverted_shifted_parabola": (3, 4),
    "s_shaped": (4, 5),
    "ws_times_wa": (1, 1),
    "ws_concave_dt_wa": (11, 12),
    "ws_wa_s_dt": (14, 15),
    "ws_s_dt_wa_gauss": (10, 11),
    "ws_s_s_dt_wa_gauss_comb": (12, 13),
    "ws_s_wa_gauss_and_square": (10, 11),
}

anyfloat = st.one_of(gen.nice(-50, 50), gen.wild())
pos = st.one_of(
    gen.nice(0, 40),
    st.floats(0, allow_nan=False, allow_infinity=False, exclude_max=False),
).map(lambda x: x + 0.0)


@st.composite
def tables(draw):
    c = draw(gen.table(ws=(1, 6), wa=(1, 8), elem=anyfloat))
    if draw(st.integers(0, 3)) == 0:
        c["ws"] = draw(gen.uniq(pos, len(c["ws"]), len(c["ws"])))
    c["kind"] = "table"
    return c


@st.composite
def clouds(draw):
    n = draw(st.integers(0, 10))
    pts = [
        [draw(pos), draw(gen.nice(0, 359.5)) + 0.0, draw(anyfloat)]
        for _ in range(n)
    ]
    return {"kind": "cloud", "pts": pts}


@st.composite
def curves(draw):
    f = draw(st.sampled_from(sorted(NPARAMS)))
    n = draw(st.integers(*NPARAMS[f]))
    elem = st.one_of(
        st.integers(-1000, 1000), gen.nice(-5, 5), gen.wild()
    )
    ps = draw(st.lists(elem, min_size=n, max_size=n))
    return {
        "kind": "curve",
        "f": f,
        "params": pds.defined(f, ps),
        "radians": draw(st.booleans()),
    }


NAME_CHARS = st.characters(exclude_categories=("Cs", "Cc"))
names = st.one_of(
    st.sampled_from(["Jib", "Spi", "Sail 0", "", "a:b", 'q"x', "Größe", "x,y", " Jib", "Jib\t", "two\nlines", "two\r\nlines", "a\rb"]),
    st.text(NAME_CHARS, max_size=8),
)


@st.composite
def multisails(draw):
    parts = draw(
        st.lists(
            st.one_of(tables(), tables(), clouds(), curves()),
            min_size=1,
            max_size=3,
        )
    )
    sails = draw(
        st.one_of(
            st.none(),
            st.lists(names, min_size=0, max_size=len(parts) + 1),
        )
    )
    return {"kind": "multi", "pds": parts, "sails": sails}


stem = st.one_of(
    st.just("pd"),
    st.sampled_from(["my.boat", "a b", ".hidden", "x.y.z", "boat-1"]),
    st.text("abcXYZ019._- ", min_size=1, max_size=8)
    .filter(lambda s: s.strip(" .") == s and s)
    ,
)


@st.composite
def places(draw):
    return {
        "dirs": draw(
            st.lists(st.sampled_from(["d", "v1.0", "a b", ".x"]), max_size=2)
        ),
        "stem": draw(stem),
        "ext": draw(st.sampled_from([".csv", ".csv", ".pol", ""])),
        "form": draw(st.sampled_from(["str", "str", "path", "absolute"])),
    }


def path_of(p, n):
    d = os.path.join(*([f"case{n}"] + p["dirs"]))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, p["stem"] + p["ext"])
    if p["form"] == "path":
        return pathlib.Path(path)
    if p["form"] == "absolute":
        return os.path.abspath(path)
    return path


def roundtrip(pd, path):
    pd.to_csv(path)
    return hp.from_csv(path)


def probe(pd, winds):
    return [float(pd(ws, wa)).hex() for ws, wa in winds]


def check_same(orig, back, what):
    expect(
        type(back) is type(orig),
        f"{what}: wrote {type(orig).__name__}, read {type(back).__name__}",
    )
    a, b = pds.describe(orig), pds.describe(back)
    expect(a == b, f"{what}: data differ after re-reading:\n{orig!r}\n{back!r}")


def classify(c, cx):
    cx.label(c["kind"])
    if c["kind"] == "table":
        cx.nontrivial(len(c["ws"]) * len(c["wa"]) > 1)
        if 1 in (len(c["ws"]), len(c["wa"])):
            cx.label("single row or column")
    elif c["kind"] == "cloud":
        cx.nontrivial(len(c["pts"]) > 0)
        cx.label("empty cloud" if not c["pts"] else "points")
    elif c["kind"] == "multi":
        cx.nontrivial(len(c["pds"]) > 1)
        for d in c["pds"]:
            cx.label("multi of " + d["kind"])
    else:
        cx.nontrivial()


RULE = (
    "diagram built from generated plain data, saved and re-read; non-trivial:"
    " more than one number is stored"
)


def one(c, cx):
    classify(c, cx)
    pd = pds.build(c)
    back = roundtrip(pd, "pd.csv")
    check_same(pd, back, "round trip")
    return pd, back


@REG.facet(tables(), quick=1500, rule=RULE)
def table_roundtrip(c, cx):
    pd, back = one(c, cx)
    items = list(pds.table_dict(pd).items())
    for (ws, wa), v in items[:: len(items) // 200 + 1]:
        expect(
            float(back[ws, wa]).hex() == float(v).hex(),
            f"entry ({ws}, {wa}) was {v!r}, re-read diagram says {back[ws, wa]!r}",
        )


@REG.facet(clouds(), quick=1500, rule=RULE, examples=[{"kind": "cloud", "pts": []}])
def cloud_roundtrip(c, cx):
    pd, back = one(c, cx)
    for p in pd.points[:5]:
        if p[0] > 0:
            expect(
                float(back(p[0], p[1])).hex() == float(pd(p[0], p[1])).hex(),
                f"value at {p} differs after re-reading",
            )


@REG.facet(curves(), quick=1500, rule=RULE)
def curve_roundtrip(c, cx):
    pd, back = one(c, cx)
    w = [(0, 0), (7, 45.5), (12.25, 181), (20, 359)]
    expect(
        probe(pd, w) == probe(back, w), "re-read curve evaluates differently"
    )


@REG.facet(multisails(), quick=800, rule=RULE)
def multisails_roundtrip(c, cx):
    pd, back = one(c, cx)
    expect(
        list(back.sails) == list(pd.sails),
        f"sail names {pd.sails} re-read as {back.sails}",
    )


@st.composite
def histories(draw):
    some = st.one_of(tables(), clouds(), curves(), multisails())
    return {
        "place": draw(places()),
        "pds": draw(st.lists(some, min_size=1, max_size=3)),
    }


_COUNT = [0]


@REG.facet(
    histories(),
    quick=800,
    rule="1-3 diagrams saved one after the other at one generated location"
    " (dots and spaces in names, str and path objects); each re-read right"
    " after saving and the last once more; non-trivial: unusual location or"
    " overwritten file",
)
def anywhere_and_overwritten(c, cx):
    _COUNT[0] += 1
    path = path_of(c["place"], _COUNT[0])
    cx.label(*[p["kind"] for p in c["pds"]])
    cx.nontrivial(
        len(c["pds"]) > 1
        or bool(c["place"]["dirs"])
        or "." in c["place"]["stem"]
    )
    for i, p in enumerate(c["pds"]):
        pd = pds.build(p)
        check_same(pd, roundtrip(pd, path), f"save {i} to {path!r}")
    check_same(pd, hp.from_csv(path), f"second read of {path!r}")
    import shutil

    shutil.rmtree(os.path.abspath(f"case{_COUNT[0]}"), ignore_errors=True)


@st.composite
def neighbours(draw):
    stems = draw(
        st.lists(
            st.sampled_from(["a", "b", "boat", "boat.v1", "boat.v2", "a.b", "a b"]),
            min_size=2,
            max_size=3,
            unique=True,
        )
    )
    some = st.one_of(tables(), multisails(), multisails())
    return {"files": [[s, draw(some)] for s in stems]}


@REG.facet(
    neighbours(),
    quick=400,
    rule="2-3 diagrams saved under different names in one directory, then all"
    " re-read; non-trivial: at least one multi-sail diagram among them."
    " Excluded (known finding KF01): two multi-sail files whose names agree up"
    " to the first dot",
)
def neighbouring_files(c, cx):
    heads = [s.split(".")[0] for s, p in c["files"] if p["kind"] == "multi"]
    if cx.excluded("KF01", len(set(heads)) < len(heads)):
        return
    cx.nontrivial(bool(heads))
    pd_s = [(s + ".csv", pds.build(p)) for s, p in c["files"]]
    for path, pd in pd_s:
        pd.to_csv(path)
    for path, pd in pd_s:
        check_same(pd, hp.from_csv(path), f"{path} next to other files")


@REG.facet(
    st.sampled_from(["Nonsense", "", "polardiagramtable", "TWS"]),
    quick=4,
    rule="first lines naming no diagram kind",
)
def unknown_kind_is_rejected(first, cx):
    with open("bad.csv", "w", encoding="utf-8") as fh:
        fh.write(first + "\nTWS\n1\nTWA\n1\nBSP\n1\n")
    try:
        hp.from_csv("bad.csv")
    except FileReadingException:
        cx.nontrivial()
        return
    expect(False, f"a file starting with {first!r} was accepted")


@REG.facet(
    st.tuples(
        st.sampled_from(["my_boat", "Concave_function", "ws_s", "s_shaped2", "gaussian"]),
        st.lists(gen.nice(-5, 5), min_size=1, max_size=12),
        st.booleans(), st.sampled_from(["alone", "sail"]),
    ),
    quick=80,
    rule="curves with functions of the user's own, alone and as one of the"
    " sails: reading them back must fail, not give some other diagram;"
    " non-trivial: always",
)
def foreign_functions_are_rejected(c, cx):
    name, params, radians, how = c

    def f(ws, wa, *_params):
        return ws * wa

    f.__name__ = name
    pd = hp.PolarDiagramCurve(f, *params, radians=radians)
    if how == "sail":
        pd = hp.PolarDiagramMultiSails([pd], ["jib"])
    pd.to_csv("own.csv")
    cx.nontrivial()
    must_raise(f"reading a curve with function {name}", lambda: hp.from_csv("own.csv"), Exception)


# ---- large ----
def big_table(r, n):
    return dict(r.table(n, bsp=lambda: r.num(-50, 50)), kind="table")


def big_cloud(r, n):
    return {"kind": "cloud", "pts": r.points(n, ws=(0, 40), bsp=(-50, 50))}


def big_multi(r, n):
    f, (lo, hi) = r.choice(sorted(NPARAMS.items()))
    parts = [
        r.choice([lambda: big_table(r, 5), lambda: big_cloud(r, 9), lambda: {
            "kind": "curve", "f": f, "params": [r.num(-5, 5) for _ in range(r.randint(lo, hi))], "radians": r.random() < 0.5
        }])()
        for _ in range(n)
    ]
    return {"kind": "multi", "pds": parts, "sails": r.choice([None, [f"S{i}" for i in range(n - 1)]])}


big.large(REG, table_roundtrip, big_table, hi=1200, quick=40, what="wind speeds or angles")
big.large(REG, cloud_roundtrip, big_cloud, hi=3000, quick=40, what="points")
big.large(REG, multisails_roundtrip, big_multi, lo=4, hi=30, quick=30, what="sails")
