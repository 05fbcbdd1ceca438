"""C12: conversion to the standard format renames and casts without loss."""
import datetime as dt
from decimal import Decimal

import numpy as np
from hypothesis import strategies as st

from harness import big
from harness.core import Registry, expect
from harness.util import frozen
from hrosailing.core.data import Data

REG = Registry(
    "C12",
    [
        "the synonyms and separators are those of the documented table in"
        " hrosailing.core.constants, copied into the check",
        "date columns hold dates and time columns hold times",
    ],
)
# the documented table
PINNED = {
    "wind": "TWS", "wind speed": "TWS", "true": "TWS", "true wind": "TWS",
    "true wind speed": "TWS", "ws": "TWS", "tws": "TWS", "wspd": "TWS",
    "apparent wind speed": "AWS", "apparent wind": "AWS", "apparent": "AWS", "aws": "AWS",
    "angle": "TWA", "wind angle": "TWA", "true angle": "TWA", "true wind angle": "TWA",
    "wa": "TWA", "twa": "TWA", "apparent wind angle": "AWA", "apparent angle": "AWA",
    "awa": "AWA", "speed": "BSP", "boat speed": "BSP", "boat speed knots": "BSP",
    "vessel speed": "BSP", "vessel speed knots": "BSP", "sp": "BSP", "bsp": "BSP",
    "bsps": "BSP", "water speed": "BSP", "water speed knots": "BSP", "wsp": "BSP",
    "speed over ground": "SOG", "speed over ground knots": "SOG", "og": "SOG",
    "sog": "SOG", "spd over grnd": "SOG", "date": "date", "datestamp": "date",
    "date stamp": "date", "time": "time", "timestamp": "time", "time stamp": "time",
    "datetime": "datetime", "date time": "datetime", "lat": "lat", "latitude": "lat",
    "lon": "lon", "long": "lon", "longitude": "lon", "temp": "temp",
    "temperature": "temp", "dewpoint": "dewpoint", "dewpt": "dewpoint",
    "dwpt": "dewpoint", "dwpoint": "dewpoint", "rel humidity": "humidity",
    "relative humidity": "humidity", "rel hum": "humidity", "relative hum": "humidity",
    "rhum": "humidity", "relhum": "humidity", "hum": "humidity", "humidity": "humidity",
    "wd": "WD", "wdir": "WD", "winddir": "WD", "wpgt": "gust", "pres": "air pressure",
    "tsun": "total sunshine",
}
PINNED_SEP = [",", ";", "_", "-", "+", "&", "\n", "\t"]
OTHER = ["heel", "rudder", "", "-", "s", "Sail", "x_y", "wave", "ss", "BSPx", "my speed", "last datetime", "time of day", "wind date", "datetimes x"]


def standard(name):
    """The documented rule, from the documented table."""
    table = PINNED
    low = name.lower()
    for sep in PINNED_SEP:
        low = low.replace(sep, " ")
    low = low.strip()
    if low in table:
        return table[low]
    if low[-1:] == "s" and low[:-1] in table:
        return table[low[:-1]]
    return name


@st.composite
def spelled(draw):
    base = draw(st.sampled_from(sorted(PINNED)))
    if draw(st.booleans()) and not base.endswith("s"):
        base += "s"
    base = "".join(draw(st.sampled_from(PINNED_SEP + [" "])) if ch == " " else ch for ch in base)
    how = draw(st.integers(0, 3))
    if how == 0:
        base = base.upper()
    elif how == 1:
        base = base.title()
    elif how == 2:
        base = "".join(ch.upper() if draw(st.booleans()) else ch for ch in base)
    pad = draw(st.sampled_from(["", "", " ", "_", "-", "\t"]))
    return (pad + base) if draw(st.booleans()) else base + pad


name = st.one_of(spelled(), spelled(), spelled(), st.sampled_from(OTHER),
                 st.sampled_from(["TWS", "BSP", "TWA", "lat", "time", "date", "datetime", "WD"]))
KINDS = ["float", "int", "intstr", "fltstr", "decimal", "npfloat", "npint", "npf32", "text", "mixedtext", "emptytext", "bool", "stamp"]


def build(kind, n):
    if n is None:
        return None
    x = n / 4
    return {
        "float": lambda: x, "int": lambda: n, "intstr": lambda: str(n),
        "fltstr": lambda: f" {x} ", "decimal": lambda: Decimal(n) / 4,
        "npfloat": lambda: np.float64(x), "npint": lambda: np.int64(n),
        "npf32": lambda: np.float32(x), "text": lambda: f"sail {n}",
        "emptytext": lambda: "" if n % 3 == 0 else " " if n % 7 == 0 else str(x),
        "mixedtext": lambda: "Jib" if n % 3 == 0 else str(x), "bool": lambda: n % 2 == 0,
        "stamp": lambda: dt.datetime(2020, 1, 1, microsecond=n % 3 * 1001) + dt.timedelta(seconds=n),
        "date": lambda: dt.date(2020, 1, 1) + dt.timedelta(days=n),
        "time": lambda: dt.time(
            n % 24, (n * 7) % 60, n % 60, n % 3 * 4001, dt.timezone.utc if n % 4 == 0 else None
        ),
    }[kind]()


@st.composite
def cases(draw):
    names = draw(st.lists(name, min_size=1, max_size=7, unique=True))
    if draw(st.integers(0, 2)) == 0:
        extra = draw(st.permutations([draw(st.sampled_from(["Date", "datestamp", "DATE"])),
                                      draw(st.sampled_from(["time", "Timestamp", "time_stamp"]))]))
        names = list(dict.fromkeys(names + list(extra)))
        names = list(draw(st.permutations(names)))
    n = draw(st.integers(1, 5))
    cols = []
    for k in names:
        kind = draw(st.sampled_from(KINDS))
        std = standard(k)
        if std in ("date", "time"):
            kind = std
        cols.append([k, kind, draw(st.lists(st.one_of(st.integers(0, 40), st.integers(0, 40), st.none()), min_size=n, max_size=n))])
    return {"cols": cols}


def is_number(v):
    if isinstance(v, (bool, np.bool_)):
        return False
    try:
        float(v)
        return True
    except (TypeError, ValueError):
        return False


def reference(cols):
    """-> list of (possible names, values) in the new table."""
    given = [k for k, _, _ in cols]
    out = {}
    taken = set(given)
    where = {}
    for k in given:
        std = standard(k)
        if std == k:
            where[k] = k
            continue
        new, i = std, 0
        # names in use: original names still waiting and names already given
        while new in taken:
            i += 1
            new = f"{std}(Control value {i})"
        taken.discard(k)
        taken.add(new)
        where[k] = new
    for k, kind, ns in cols:
        out[where[k]] = [build(kind, n) for n in ns]
    if "date" in out and "time" in out and "datetime" not in out:
        out["datetime"] = [
            None if d is None or t is None else dt.datetime.combine(d, t)
            for d, t in zip(out["date"], out["time"])
        ]
        del out["date"], out["time"]
    for k, col in out.items():
        vals = [v for v in col if v is not None]
        if vals and all(is_number(v) for v in vals):
            out[k] = [None if v is None else float(v) for v in col]
    return out


@REG.facet(
    cases(),
    quick=4000,
    rule="1-9 columns: synonyms in any spelling, case and separator, plurals,"
    " clashes, unknown names, all value types with gaps; compared with an"
    " independent renaming and casting; non-trivial: at least one renamed"
    " column",
)
def standard_format(c, cx):
    given = {k: [build(kind, n) for n in ns] for k, kind, ns in c["cols"]}
    snap = frozen({k: repr(v) for k, v in given.items()})
    d = Data.from_dict(given)
    d.hrosailing_standard_format()
    want = reference(c["cols"])
    cx.nontrivial(any(k not in given for k in want))
    if any("Control" in k for k in want):
        cx.label("clash")
    if "datetime" in want and not any(standard(k) == "datetime" for k in given):
        cx.label("date and time combined")
    expect(
        sorted(d.keys()) == sorted(want),
        f"{sorted(given)} became {sorted(d.keys())}, expected {sorted(want)}",
    )
    expect(d.n_rows == len(c["cols"][0][2]), f"{d.n_rows} rows of {len(c['cols'][0][2])}")
    for k, col in want.items():
        got = list(d[k])
        expect(
            [(type(v).__name__, v) for v in got] == [(type(v).__name__, v) for v in col],
            f"column {k} is {got}, expected {col}",
        )
        types = {type(v) for v in col if v is not None}
        if types:
            expect({d.type(k)} == types, f"type of {k} is {d.type(k)}, values {types}")
    expect(
        frozen({k: repr(v) for k, v in given.items()}) == snap, "the given columns were changed"
    )
    keys = set(d.keys())
    vals = {k: frozen(list(map(repr, d[k]))) for k in keys}
    d.hrosailing_standard_format()
    expect(
        set(d.keys()) == keys and vals == {k: frozen(list(map(repr, d[k]))) for k in d.keys()},
        f"converting again changed the table to {sorted(d.keys())}",
    )


@REG.facet(
    None,
    rule="every documented synonym in lower and upper case, with every"
    " documented separator and with a plural s",
    examples=[
        {"name": k.replace(" ", sep), "want": v}
        for k, v in sorted(PINNED.items())
        for sep in PINNED_SEP + [" "]
    ],
)
def every_synonym(c, cx):
    cx.nontrivial()
    for n in (c["name"], c["name"].upper(), c["name"] + "s"):
        d = Data.from_dict({n: [True]})
        d.hrosailing_standard_format()
        expect(list(d.keys()) == [c["want"]], f"{n!r} became {d.keys()}, documented {c['want']}")


# ---- large ----
def big_spelled(r):
    base = r.choice(sorted(PINNED))
    if r.random() < 0.3 and not base.endswith("s"):
        base += "s"
    base = "".join(r.choice(PINNED_SEP + [" "]) if ch == " " else ch for ch in base)
    return r.choice([str, str.upper, str.title, str.capitalize])(base) + r.choice(["", "", " ", "_"])


def big_rows(r, n):
    """many rows"""
    names = r.uniq(r.randint(1, 6), lambda: big_spelled(r)) + r.choice([[], ["Date", "Timestamp"], ["heel"]])
    gaps = r.choice([0, 0.1, 0.9])
    cols = []
    for k in dict.fromkeys(names):
        std = standard(k)
        kind = std if std in ("date", "time") else r.choice(KINDS)
        cols.append([k, kind, [None if r.random() < gaps else r.randint(0, 4000) for _ in range(n)]])
    return {"cols": cols}


def big_cols(r, n):
    """many columns, most of them synonyms of a few names"""
    few = r.sample(sorted(set(PINNED.values()) - {"date", "time", "datetime"}), 3)
    words = [w for w, s in PINNED.items() if s in few]

    def one():
        base = r.choice(words)
        base = "".join(ch.upper() if r.random() < 0.5 else ch for ch in base)
        return r.choice(["", " ", "_", "-"]) + base + r.choice(["", " ", "_", "+"])

    names = r.uniq(n, one)
    m = r.randint(1, 3)
    return {"cols": [[k, r.choice(["float", "int", "text"]), [r.choice([None, r.randint(0, 40)]) for _ in range(m)]] for k in names]}


big.large(REG, standard_format, big_rows, hi=1500, quick=60, what="rows")


def many_columns(c, cx):
    standard_format(c, cx)


big.large(REG, many_columns, big_cols, lo=8, hi=120, quick=30, what="columns")
