"""C33: data handlers deliver exactly the measurements in the source."""
import csv
import math
import os
import tempfile
from datetime import date, datetime, time, timedelta

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import big, gen
from harness.core import Registry, expect
from harness.util import frozen, must_raise
from hrosailing.processing import ArrayHandler, CsvFileHandler, NMEAFileHandler

REG = Registry(
    "C33",
    [
        "numbers read by pandas are compared to 1e-12 (its parser rounds)",
        "NMEA: MWV, GLL, RMC, GGA, VHW, VTG, HDT and DBT sentences with valid"
        " checksums, wind speeds in knots; RMC sentences carry time and date",
        "columns with standard names that do not collide",
    ],
)
START = datetime(2023, 3, 4, 5, 6, 7)
# names in use -> standard name
NAMES = {
    "TWS": ["TWS", "Wind speed", "true_wind-speed", "ws", "wspd"],
    "TWA": ["TWA", "wind angle", "True+Wind+Angle", "wa"],
    "BSP": ["BSP", "boat speed", "Vessel_Speed", "BSPs", "water speed knots"],
    "AWS": ["AWS", "apparent wind speed", "Apparent,wind"],
    "SOG": ["SOG", "Speed over ground", "spd_over_grnd"],
    "lat": ["lat", "Latitude", "LAT"],
    "lon": ["lon", "longitude", "Long"],
    "datetime": ["datetime", "Date Time"],
    "heel": ["heel"],
    "temp": ["temp", "Temperature"],
    "Wave height": ["Wave height"],
    "note": ["note"],
    "flag": ["flag"],
}


# columns of other types
OTHER = {"note": ["Jib", "Spi", "a b", "x,y", "it's"], "flag": [True, False]}


def number():
    return st.one_of(gen.nice(-1000, 1000), st.integers(-50, 5000), gen.wild().filter(lambda x: x == 0 or 1e-200 < abs(x) < 1e200))


@st.composite
def tables(draw, missing, mixed=False):
    n = draw(st.integers(1, 8))
    keys = draw(st.lists(st.sampled_from(sorted(NAMES)), min_size=2, max_size=5, unique=True))
    cols = {}
    for k in keys:
        if k == "datetime":
            col = [draw(st.integers(0, 10**6)) for _ in range(n)]
        elif k in OTHER:
            col = [draw(st.sampled_from(OTHER[k])) for _ in range(n)]
        else:
            kind = draw(st.sampled_from([gen.nice(-1000, 1000).map(float), st.integers(-50, 5000), number()]))
            col = [draw(kind) for _ in range(n)]
            if not mixed and not all(isinstance(x, int) for x in col):
                col = [float(x) for x in col]
        if missing and draw(st.booleans()):
            col = [None if draw(st.integers(0, 2)) == 0 else x for x in col]
        cols[k] = col
    return {"names": [draw(st.sampled_from(NAMES[k])) for k in keys], "keys": keys, "cols": cols}


def cell(key, x):
    if x is None or key != "datetime":
        return x
    return START + timedelta(seconds=x, microseconds=x * 7)


def delivered(c, data, exact, handler):
    """the data holds the table, and nothing else"""
    n = len(c["cols"][c["keys"][0]])
    expect(set(data.keys()) == set(c["keys"]), "columns %s, expected %s", list(data.keys()), c["keys"])
    expect(data.n_rows == n, "%s rows, expected %s", data.n_rows, n)
    for k in c["keys"]:
        want = [cell(k, x) for x in c["cols"][k]]
        got = list(data[k])
        expect(len(got) == n, "column %s has %s entries for %s", k, len(got), n)
        for a, b in zip(got, want):
            if b is None:
                expect(a is None, "missing entry of %s became %r", k, a)
            elif k == "datetime":
                expect(a == b, "%s: %r instead of %r", k, a, b)
            elif k in OTHER:
                expect(isinstance(a, type(b)) and a == b, "%s: %r instead of %r", k, a, b)
            else:
                expect(isinstance(a, float), "%s: %r is not a float", k, a)
                expect(abs(a - b) <= (0 if exact else 1e-12 * abs(b)), "%s: %r instead of %r", k, a, b)
    s = handler.get_latest_statistics()
    expect(s.get("n_rows") == n and s.get("n_cols") == len(c["keys"]), "statistics %s", s)


@st.composite
def array_cases(draw):
    form = draw(st.sampled_from(["array", "rows", "frame", "frame", "floats"]))
    c = draw(tables(missing=form != "floats"))
    if form == "floats" and "datetime" in c["keys"] or form in ("floats", "rows") and set(OTHER) & set(c["keys"]):
        form = "array"
    return dict(c, form=form, wrong=draw(st.booleans()))


@REG.facet(
    array_cases(),
    quick=1500,
    rule="1-8 rows of 2-5 columns with missing entries as an object or float"
    " array, nested lists or a data frame; non-trivial: renamed columns",
)
def arrays(c, cx):
    rows = [[cell(k, c["cols"][k][i]) for k in c["keys"]] for i in range(len(c["cols"][c["keys"][0]]))]
    h = ArrayHandler()
    if c["form"] == "frame":
        given = pd.DataFrame(rows, columns=c["names"])
        before = given.copy(deep=True)
        data = h.handle(given)
        expect(given.equals(before), "the data frame was changed")
    else:
        arr = {
            "array": lambda: np.array(rows, dtype=object),
            "floats": lambda: np.array(rows, float),
            "rows": lambda: [list(r) for r in rows],
        }[c["form"]]()
        names = list(c["names"])
        before = frozen([arr, names])
        data = h.handle((arr, names))
        expect(frozen([arr, names]) == before, "the array or names were changed")
        if c["wrong"]:
            must_raise("names not matching the columns", lambda: h.handle((arr, names + ["x"])), ValueError)
            must_raise("names not matching the columns", lambda: h.handle((arr, names[:-1])), ValueError)
            data = h.handle((arr, names))
    delivered(c, data, True, h)
    cx.label(c["form"])
    cx.nontrivial(c["names"] != c["keys"])


FORMATS = ["%Y-%m-%d %H:%M:%S.%f", "%d.%m.%Y %H:%M:%S,%f", "%Y/%m/%dT%H:%M:%S.%fZ"]


@st.composite
def csv_cases(draw):
    c = draw(tables(missing=True, mixed=True))
    return dict(
        c,
        fmt=draw(st.sampled_from([0, 0, 1, 2])),
        pandas=draw(st.booleans()),
        again=draw(st.booleans()),
        short=draw(st.booleans()),
        blank=draw(st.sampled_from(["", "", "", " ", "  "])),
        bad=draw(st.sampled_from([None, None, None, "12-34", "12:30 h"])),
    )


@REG.facet(
    csv_cases(),
    quick=1200,
    rule="files of 1-8 rows of 2-5 columns with missing cells, dates in three"
    " formats, read with and without pandas; non-trivial: missing cells or"
    " dates",
)
def csv_files(c, cx):
    fmt = FORMATS[c["fmt"]]
    n = len(c["cols"][c["keys"][0]])

    def text(k, i):
        x = cell(k, c["cols"][k][i])
        if x is None:
            return c.get("blank", "")
        return x.strftime(fmt) if k == "datetime" else repr(x)

    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "data.csv")
        with open(path, "w", newline="", encoding="utf-8") as fh:
            w = csv.writer(fh)
            w.writerow(c["names"])
            for i in range(n):
                row = [text(k, i) for k in c["keys"]]
                while c["short"] and row[-1] == "" and len(row) > 1:
                    row.pop()
                w.writerow(row)
        h = CsvFileHandler() if c["fmt"] == 0 else CsvFileHandler(date_format=fmt)
        h.pand = c["pandas"]
        data = h.handle(path)
        if c["again"]:
            data = h.handle(path)
        delivered(c, data, not c["pandas"], h)
        if c["bad"]:
            with open(path, "a", newline="", encoding="utf-8") as fh:
                csv.writer(fh).writerow([c["bad"]] * len(c["keys"]))
            must_raise("a cell that is no value", lambda: h.handle(path), (RuntimeError, ValueError))
    cx.label("pandas" if c["pandas"] else "plain")
    cx.nontrivial("datetime" in c["keys"] or any(x is None for col in c["cols"].values() for x in col))


# ---- NMEA ----
def checked(body):
    s = 0
    for ch in body:
        s ^= ord(ch)
    return f"${body}*{s:02X}\n"


def num(x, digits=1):
    return "" if x is None else f"{x:.{digits}f}"


def coord(x, wide):
    """12.5 degrees -> 1230.0000 (a whole number of 1e-4 minutes)"""
    if x is None:
        return ""
    units = round(abs(x) * 600000)
    deg, rest = divmod(units, 600000)
    return f"{deg:0{wide}d}{rest // 10000:02d}.{rest % 10000:04d}"


def clock(t):
    """[seconds of the day, hundredths, decimals, leap] -> text"""
    if t is None:
        return ""
    s, frac, digits, leap = t
    h, m, s = s // 3600, s // 60 % 60, s % 60
    if leap:
        s = 60
    return f"{h:02d}{m:02d}{s:02d}" + (f".{decimals(t)}" if digits else "")


def decimals(t):
    return f"{t[1]:02d}4716"[: t[2]]


def time_of(t):
    s, frac, digits, leap = t
    if leap:
        s = s - s % 60 + 60
    us = int(decimals(t).ljust(6, "0"))
    return (datetime(2000, 1, 1) + timedelta(seconds=s, microseconds=us)).time()


def opt(s):
    return st.one_of(s, s, s, s, st.none())


def place():
    return st.tuples(st.integers(-89 * 600000, 89 * 600000), st.integers(-179 * 600000, 179 * 600000)).map(
        lambda p: [p[0] / 600000, p[1] / 600000]
    )


def stamp():
    return st.tuples(st.integers(0, 86399), st.integers(0, 99), st.sampled_from([0, 1, 2, 2, 3, 4, 6]), st.integers(0, 9).map(lambda k: k == 0)).map(list)


@st.composite
def sentence(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    s = {"kind": kind, "talker": draw(st.sampled_from(["II", "GP", "WI"]))}
    tenth = lambda lo, hi: gen.grid(lo, hi, 2).map(float)
    if kind == "MWV":
        s.update(ref=draw(st.sampled_from(["R", "T", "R", "T", "R", "T", ""])), wa=draw(opt(tenth(0, 359))), ws=draw(opt(tenth(0, 60))))
    if kind in ("GLL", "GGA", "RMC"):
        s["pos"] = draw(opt(place()))
        s["time"] = draw(opt(stamp()) if kind != "RMC" else stamp())
    if kind in ("RMC", "VTG"):
        s["sog"] = draw(opt(tenth(0, 30)))
    if kind == "RMC":
        s["day"] = draw(st.integers(0, 3000))
        s["cog"] = draw(opt(tenth(0, 359)))
    if kind == "VHW":
        s["bsp"] = draw(opt(tenth(0, 30)))
    if kind in ("HDT", "VHW"):
        s["hdg"] = draw(opt(tenth(0, 359)))
    if kind == "DBT":
        s["depth"] = draw(opt(tenth(0, 99)))
    return s


def hemisphere(pos):
    if pos is None:
        return "", ""
    return "S" if pos[0] < 0 else "N", "W" if pos[1] < 0 else "E"


def render(s):
    k = s["kind"]
    if k == "MWV":
        body = f"MWV,{num(s['wa'])},{s['ref']},{num(s['ws'])},N,A"
    elif k in ("GLL", "GGA", "RMC"):
        pos = s["pos"]
        ns, ew = hemisphere(pos)
        p = f"{coord(pos and pos[0], 2)},{ns},{coord(pos and pos[1], 3)},{ew}"
        t = clock(s["time"])
        ok = "A" if pos else "V"
        if k == "GLL":
            body = f"GLL,{p},{t},{ok},A"
        elif k == "GGA":
            body = f"GGA,{t},{p},{int(bool(pos))},08,0.9,12.5,M,46.9,M,,"
        else:
            day = date(2015, 1, 1) + timedelta(days=s["day"])
            body = f"RMC,{t},{ok},{p},{num(s['sog'])},{num(s['cog'])},{day:%d%m%y},,,A"
    elif k == "VTG":
        body = f"VTG,12.0,T,11.0,M,{num(s['sog'])},N,,K"
    elif k == "VHW":
        body = f"VHW,{num(s['hdg'])},T,,M,{num(s['bsp'])},N,,K"
    elif k == "HDT":
        body = f"HDT,{num(s['hdg'])},T"
    else:
        body = f"DBT,,f,{num(s['depth'])},M,,F"
    return checked(s["talker"] + body)


def values(s, dated, days=False):
    """standard name -> value for what the sentence says"""
    out, k = {}, s["kind"]
    if k == "MWV":
        pre = {"R": "A", "T": "T", "": None}[s["ref"]]
        if pre:
            out = {pre + "WA": s["wa"], pre + "WS": s["ws"]}
    if k in ("GLL", "GGA", "RMC"):
        if s["pos"]:
            out["lat"], out["lon"] = s["pos"]
        if s["time"] and not dated:
            out["time"] = time_of(s["time"])
        if k == "RMC" and dated:
            day = date(2015, 1, 1) + timedelta(days=s["day"])
            out["datetime"] = datetime.combine(day, time_of(s["time"]))
        elif k == "RMC" and days:
            out["date"] = date(2015, 1, 1) + timedelta(days=s["day"])
    if k in ("RMC", "VTG"):
        out["SOG"] = s["sog"]
    if k == "VHW":
        out["BSP"] = s["bsp"]
    return {a: b for a, b in out.items() if b is not None}


ATTRIBUTES = ["TWS", "TWA", "AWS", "AWA", "lat", "lon", "SOG", "BSP", "time"]
# standard names of the columns the NMEA names stand for
NATIVE = {
    "Latitude": ["lat"], "Longitude": ["lon"], "Timestamp": ["time"], "Datestamp": ["date"],
    "Water speed knots": ["BSP"], "Speed Over Ground": [], "Wind speed": ["TWS", "AWS"], "Wind angle": ["TWA", "AWA"],
    "Wind": [], "lat ": [],
}


def wanted_columns(keys):
    """standard columns asked for by standard or NMEA names"""
    return {k for key in keys for k in NATIVE.get(key, [key])}


@st.composite
def nmea_cases(draw):
    kinds = draw(
        st.lists(st.sampled_from(["MWV", "MWV", "GLL", "GGA", "VHW", "HDT", "DBT"]), min_size=1, max_size=4)
    ) + draw(st.sampled_from([[], ["RMC"], ["VTG"]]))
    mode = draw(st.sampled_from(["all", "all", "wanted", "unwanted", "attributes", "attributes", "not", "types"]))
    c = {"log": draw(st.lists(sentence(sorted(set(kinds))), min_size=1, max_size=12)), "mode": mode, "iterator": draw(st.booleans())}
    if mode in ("wanted", "unwanted"):
        c["kinds"] = draw(st.lists(st.sampled_from(sorted(set(kinds)) + ["XDR"]), min_size=1, max_size=3, unique=True))
    if mode == "attributes":
        native = draw(st.booleans())
        names = ATTRIBUTES + ["date"] + (sorted(NATIVE) if native else [])
        c["keys"] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
        if not {"TWS", "TWA", "AWS", "AWA"} & set(c["keys"]) and {"Wind speed", "Wind angle"} & set(c["keys"]):
            # winds are true or apparent by their reference only
            c["keys"].append("Reference")
    if mode == "not":
        c["fields"] = draw(st.lists(st.sampled_from(["Wind speed", "Wind angle", "Latitude", "Timestamp", "Wind", "Time", "L"]), min_size=1, max_size=2, unique=True))
    return c


LOST = {"Wind speed": ["TWS", "AWS"], "Wind angle": ["TWA", "AWA"], "Latitude": ["lat"], "Timestamp": ["time", "datetime"], "Wind": [], "Time": [], "L": []}


def micros(t):
    return ((t.hour * 60 + t.minute) * 60 + t.second) * 1000000 + t.microsecond


def equal(a, b):
    if isinstance(b, time):
        # pynmea2 rounds down to microseconds
        return isinstance(a, time) and abs(micros(a) - micros(b)) <= 1
    if isinstance(b, date) and not isinstance(b, datetime):
        return type(a) is date and a == b
    if isinstance(b, datetime):
        return isinstance(a, datetime) and abs(a.replace(tzinfo=None) - b) <= timedelta(microseconds=1)
    return isinstance(a, float) and math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-9)


@REG.facet(
    nmea_cases(),
    quick=2000,
    rule="logs of 1-12 sentences with empty fields, all hemispheres, true and"
    " apparent wind, read as a whole or by wanted or unwanted sentences or"
    " attributes; non-trivial: at least three sentences with values",
)
def nmea(c, cx):
    mode, log = c["mode"], c["log"]
    kw = {}
    if mode == "wanted":
        kw["wanted_sentences"] = c["kinds"]
        log = [s for s in log if s["kind"] in c["kinds"]]
    if mode == "unwanted":
        kw["unwanted_sentences"] = c["kinds"]
        log = [s for s in log if s["kind"] not in c["kinds"]]
    if mode == "attributes":
        kw["wanted_attributes"] = c["keys"]
    if mode == "not":
        kw["unwanted_attributes"] = c["fields"]
    if mode == "types":
        kw["post_filter_types"] = False
    if c["iterator"]:
        kw = {k: iter(v) if isinstance(v, list) else v for k, v in kw.items()}
    h = NMEAFileHandler(**kw)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "log.vdr")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write("".join(render(s) for s in c["log"]))
        data = h.handle(path)
        with open(path, encoding="utf-8") as fh:
            expect(fh.read() == "".join(render(s) for s in c["log"]), "the log was changed")
    dated = any(s["kind"] == "RMC" for s in log)
    if mode == "attributes":
        asked = wanted_columns(c["keys"])
        dated = dated and {"time", "date"} <= asked
        asked = asked | {"datetime"} if dated else asked
    if mode == "not" and "Timestamp" in c["fields"]:
        dated = False
    told = [values(s, dated, mode == "attributes") for s in log]
    if mode == "attributes":
        told = [{k: v for k, v in t.items() if k in asked} for t in told]
    if mode == "not":
        gone = [k for f in c["fields"] for k in LOST[f]]
        told = [{k: v for k, v in t.items() if k not in gone} for t in told]
    keys = sorted({k for t in told for k in t})
    # every attribute holds the values of the log in their order
    at = {}
    for k in keys:
        expect(k in data, "no column %s in %s", k, list(data.keys()))
        rows = [i for i, v in enumerate(data[k]) if v is not None]
        want = [(j, t[k]) for j, t in enumerate(told) if k in t]
        got = [data[k][i] for i in rows]
        expect(len(got) == len(want) and all(equal(a, b[1]) for a, b in zip(got, want)), "%s: %s, the log says %s", k, got, [b for _, b in want])
        for i, (j, _) in zip(rows, want):
            at.setdefault(j, set()).add(i)
    # and no attribute the log says nothing about
    known = {"TWS", "TWA", "AWS", "AWA", "lat", "lon", "SOG", "BSP", "time", "datetime"}
    if mode != "attributes":
        for k in known & set(data.keys()) - set(keys):
            expect(not any(isinstance(v, (float, time)) for v in data[k]), "%s is not in the log: %s", k, data[k])
    else:
        # true and apparent winds share their fields
        for pair in ({"TWS", "AWS"}, {"TWA", "AWA"}):
            asked = asked | pair if asked & pair else asked
        if "Speed Over Ground" in c["keys"]:
            asked = asked | {"SOG"}
        for k in (known | {"date"}) & set(data.keys()) - asked:
            expect(False, "%s was not asked for by %s: %s", k, c["keys"], data[k])
    if mode != "types":
        for k in data.keys():
            expect(all(v is None or isinstance(v, (float, date, time)) for v in data[k]), "unwanted types: %s is %s", k, data[k])
    # values of one sentence stay together, sentences in their order
    last = -1
    for j in sorted(at):
        expect(len(at[j]) == 1, "values of one sentence in the rows %s", at[j])
        (row,) = at[j]
        expect(row >= last, "sentence %s ended up before the one before it", j)
        last = row
    expect(data.n_rows <= len(log), "%s rows from %s sentences", data.n_rows, len(log))
    s = h.get_latest_statistics()
    expect(s == {"n_rows": data.n_rows, "n_cols": data.n_cols}, "statistics %s", s)
    cx.label(mode)
    cx.nontrivial(sum(bool(t) for t in told) >= 3)


# ---- large ----
def big_table(r, n, missing, mixed=False):
    rows, m = r.choice([(n, r.randint(2, 5)), (n, r.randint(2, 5)), (3, len(NAMES))])
    keys = r.sample(sorted(NAMES), m)
    cols = {}
    for k in keys:
        if k == "datetime":
            col = [r.randint(0, 10**6) for _ in range(rows)]
        elif k in OTHER:
            col = [r.choice(OTHER[k]) for _ in range(rows)]
        else:
            kind = r.choice([lambda: float(r.num(-1000, 1000)), lambda: r.randint(-50, 5000)])
            col = [kind() for _ in range(rows)]
            if mixed and r.random() < 0.3:
                # whole numbers first
                col = [r.randint(-50, 5000) if i < rows - 2 else r.num(-1000, 1000) for i in range(rows)]
        if missing and r.random() < 0.5:
            some = r.choice([0.1, 0.5])
            col = [None if r.random() < some else x for x in col]
            if r.random() < 0.3:
                # nothing at first
                col = [None if i < rows - 3 else x for i, x in enumerate(col)]
        cols[k] = col
    return {"names": [r.choice(NAMES[k]) for k in keys], "keys": keys, "cols": cols}


def big_array(r, n):
    form = r.choice(["array", "rows", "frame", "frame", "floats"])
    c = big_table(r, n, form != "floats")
    if form == "floats" and "datetime" in c["keys"] or form in ("floats", "rows") and set(OTHER) & set(c["keys"]):
        form = "array"
    return dict(c, form=form, wrong=r.random() < 0.2)


def big_csv(r, n):
    return dict(
        big_table(r, n, True, True), fmt=r.choice([0, 0, 1, 2]), pandas=r.random() < 0.5, again=r.random() < 0.2,
        short=r.random() < 0.5, bad=r.choice([None, "12-34"]),
    )


def big_sentence(r, kinds):
    kind = r.choice(kinds)
    opt_ = lambda v: v if r.random() < 0.85 else None  # noqa: E731
    tenth = lambda lo, hi: float(r.grid(lo, hi, 2))  # noqa: E731
    s = {"kind": kind, "talker": r.choice(["II", "GP", "WI"])}
    if kind == "MWV":
        s.update(ref=r.choice("RT"), wa=opt_(tenth(0, 359)), ws=opt_(tenth(0, 60)))
    if kind in ("GLL", "GGA", "RMC"):
        s["pos"] = opt_([r.randint(-89 * 600000, 89 * 600000) / 600000, r.randint(-179 * 600000, 179 * 600000) / 600000])
        t = [r.randint(0, 86399), r.randint(0, 99), r.randint(0, 2), r.random() < 0.1]
        s["time"] = t if kind == "RMC" else opt_(t)
    if kind in ("RMC", "VTG"):
        s["sog"] = opt_(tenth(0, 30))
    if kind == "RMC":
        s.update(day=r.randint(0, 3000), cog=opt_(tenth(0, 359)))
    if kind == "VHW":
        s["bsp"] = opt_(tenth(0, 30))
    if kind in ("HDT", "VHW"):
        s["hdg"] = opt_(tenth(0, 359))
    if kind == "DBT":
        s["depth"] = opt_(tenth(0, 99))
    return s


def big_nmea(r, n):
    kinds = r.sample(["MWV", "GLL", "GGA", "VHW", "HDT", "DBT"], r.randint(1, 4)) + r.choice([[], ["RMC"], ["VTG"]])
    mode = r.choice(["all", "all", "wanted", "unwanted", "attributes", "not", "types"])
    c = {"log": [big_sentence(r, kinds) for _ in range(n)], "mode": mode, "iterator": r.random() < 0.5}
    if r.random() < 0.3:
        # a kind of sentence that only comes late
        late = big_sentence(r, ["MWV"])
        c["log"] = [s for s in c["log"] if s["kind"] != "MWV"] + [late, big_sentence(r, ["VHW"])]
    if mode in ("wanted", "unwanted"):
        c["kinds"] = r.sample(sorted(set(kinds)) + ["XDR"], r.randint(1, 2))
    if mode == "attributes":
        c["keys"] = r.sample(ATTRIBUTES, r.randint(1, 4))
    if mode == "not":
        c["fields"] = r.sample(["Wind speed", "Wind angle", "Latitude", "Timestamp"], r.randint(1, 2))
    return c


big.large(REG, arrays, big_array, hi=1000, quick=40, what="rows (or all columns)")
big.large(REG, csv_files, big_csv, hi=1000, quick=40, what="rows (or all columns)")
big.large(REG, nmea, big_nmea, hi=400, quick=40, what="sentences")
