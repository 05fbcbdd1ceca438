"""C28: the pipeline accounts for every measurement on its way."""
import contextlib
import copy
import math
import warnings
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from checks.c21 import seeded
from harness import big, gen, pds
from harness.core import Registry, expect
from harness.util import frozen, must_raise, same
from hrosailing import models, pipeline as pl, processing as pc
from hrosailing.core.data import Data, WeightedPoints
from hrosailing.core.statistics import ComponentWithStatistics
from hrosailing.polardiagram import PolarDiagramPointcloud
from hrosailing.processing.imputator import Imputator
from hrosailing.processing.injector import Injector

REG = Registry(
    "C28",
    [
        "components: recording stand-ins with distinct effects, and the"
        " predefined ones; compared with their composition in the order of"
        " the documented parameters",
        "every source has the same columns",
    ],
)
SLOTS = [
    "data_handler", "imputator", "smoother", "pre_expander_weigher",
    "pre_expander_filter", "expander", "pre_influence_weigher",
    "pre_influence_filter", "influence_model", "post_weigher", "post_filter",
    "injector", "extension", "quality_assurance",
]
STATS = [s.replace("expander_w", "expanding_w").replace("expander_f", "expanding_f") for s in SLOTS]
FLAGS = [
    "smoothing", "pre_expander_weighing", "pre_expander_filtering",
    "pre_influence_weighing", "pre_influence_filtering", "post_weighing",
    "post_filtering", "injecting", "testing",
]
ALIAS = {
    "pre_influence_weigher": "pre_weigher", "pre_influence_filter": "pre_filter",
    "post_weigher": "weigher", "post_filter": "filter",
    "pre_influence_weighing": "pre_weighing",
    "pre_influence_filtering": "pre_filtering", "post_weighing": "weighing",
    "post_filtering": "filtering",
}
BASES = {
    "data_handler": pc.DataHandler, "imputator": Imputator,
    "smoother": pc.Smoother, "expander": pl.Expander, "weigher": pc.Weigher,
    "filter": pc.Filter, "influence_model": models.InfluenceModel,
    "injector": Injector, "extension": pl.PipelineExtension,
    "quality_assurance": pl.QualityAssurance,
}


# ---- the operations of the stand-ins, on plain rows [ws, wa, bsp, id] ----
def stat(name, ids):
    return {"of": name, "n": len(ids), "sum": sum(ids)}


class Ops:
    """what each stand-in does with a list of rows"""

    def __init__(self, c):
        self.c = c

    def handle(self, k, source):
        return [[r[0], r[1], r[2] + k, r[3]] for r in source]

    def impute(self, rows):
        return [r for r in rows if int(r[3]) % 7 != self.c["drop"]]

    def smooth(self, rows):
        return [[r[0], r[1], r[2] + 100 * i, r[3]] for i, r in enumerate(rows)]

    def expand(self, rows):
        return [[r[0] + 1, r[1], r[2], r[3]] for r in rows]

    def weigh(self, slot, bsps):
        m = {"pre_expander_weigher": 5, "pre_influence_weigher": 3, "post_weigher": 11}[slot]
        return [((b * 4 + m) % m + 1) / m for b in bsps]

    def keep(self, slot, weights):
        bound = self.c["bounds"][slot]
        return [w > bound for w in weights]

    def param(self, rows):
        return sum(r[3] for r in rows) % 16

    def remove(self, rows, p):
        return [[r[0], r[1] + p, r[2]] for r in rows]

    def inject(self, pts):
        return [[len(pts), 7.0, sum(p[2] for p in pts) % 32] for _ in range(self.c["inject"])]


def flat(data):
    return [list(map(float, r)) for r in zip(*(data[k] for k in ("TWS", "TWA", "BSP", "ID")))]


def to_data(rows):
    cols = list(zip(*rows)) if rows else [[]] * 4
    data = Data.from_dict({k: list(c) for k, c in zip(("TWS", "TWA", "BSP", "ID"), cols)})
    return data


def stand_in(kind, name, log, **methods):
    """a component logging its calls; methods get (data) -> (out, stats)"""

    def wrap(method):
        def call(self, *args):
            log.append(name)
            out, stats = method(*args)
            if stats is not None and isinstance(self, ComponentWithStatistics):
                ComponentWithStatistics.set_statistics(self, **stats)
            return out

        return call

    body = {k: wrap(f) for k, f in methods.items()}
    return type("Own", (BASES[kind],), body)()


def components(c, log, seen):
    ops = Ops(c)

    def handler(k):
        def handle(source):
            rows = ops.handle(k, source)
            return to_data(rows), stat(f"h{k}", [r[3] for r in rows])

        return stand_in("data_handler", f"data_handler{k}", log, handle=handle)

    def rowwise(slot, fn):
        def do(data):
            rows = fn(flat(data))
            return to_data(rows), stat(slot, [r[3] for r in rows])

        return do

    def weigher(slot):
        def weigh(data):
            bsps = data["BSP"] if isinstance(data, Data) else data[:, 2]
            w = ops.weigh(slot, list(map(float, bsps)))
            return np.array(w), stat(slot, w)

        return stand_in("weigher", slot, log, weigh=weigh)

    def filt(slot):
        def filter_(wts):
            return np.array(ops.keep(slot, list(wts)), dtype=bool), stat(slot, list(map(float, wts)))

        return stand_in("filter", slot, log, filter=filter_)

    state = {"p": None}

    def fit(data):
        state["p"] = ops.param(flat(data))
        return None, stat("fit", [r[3] for r in flat(data)])

    def remove(data):
        rows = flat(data)
        return np.array(ops.remove(rows, state["p"])).reshape(-1, 3), {
            "removed": len(rows), "param": state["p"],
        }

    def inject(wp):
        pts = ops.inject(wp.data.tolist())
        seen["inject"] = (wp.data.tolist(), list(map(float, wp.weights)))
        w = [3.0] * len(pts)
        return WeightedPoints(np.array(pts).reshape(-1, 3), np.array(w)), {"n_injected": len(pts)}

    def process(wp):
        seen["process"] = (wp.data.tolist(), list(map(float, wp.weights)))
        pd = PolarDiagramPointcloud(np.array(wp.data))
        seen["pd"] = pd
        return pd, {"built": len(wp.data)}

    def check(pd, test):
        seen["check"] = (pd, np.array(test).tolist())
        return {"quality": len(test)}, None

    k = c["handlers"]
    out = {
        "data_handler": handler(0) if k == 0 else [handler(i) for i in range(1, k + 1)],
        "imputator": stand_in("imputator", "imputator", log, impute=rowwise("imputator", ops.impute)),
        "smoother": stand_in("smoother", "smoother", log, smooth=rowwise("smoother", ops.smooth)),
        "expander": stand_in("expander", "expander", log, expand=rowwise("expander", ops.expand)),
        "influence_model": stand_in(
            "influence_model", "influence_model", log, fit=fit, remove_influence=remove,
            add_influence=lambda *a: (None, None),
        ),
        "injector": stand_in("injector", "injector", log, inject=inject),
        "extension": stand_in("extension", "extension", log, process=process),
        "quality_assurance": stand_in("quality_assurance", "quality_assurance", log, check=check),
    }
    for s in SLOTS:
        if s.endswith("weigher"):
            out[s] = weigher(s)
        elif s.endswith("filter"):
            out[s] = filt(s)
    return out


def expected(c, run):
    """naive reference: (calls, seen, training stats, test stats) of one run"""
    ops, on = Ops(c), {f: run["flags"].get(f, True) for f in FLAGS}
    calls, used = [], [0]

    def weighed(slot, rows, stats, i):
        """weights and rows of one of the three weigh-and-filter stages"""
        wg, fl = slot + "_weigher", slot + "_filter"
        wi, fi = slot + "_weighing", slot + "_filtering"
        ws, fs = {}, {}
        weights = [1.0] * len(rows)
        if rows:
            if on[wi]:
                calls.append(wg)
                weights = ops.weigh(wg, [r[2] for r in rows])
                ws = stat(wg, weights)
            if on[fi]:
                calls.append(fl)
                keep = ops.keep(fl, weights)
                fs = stat(fl, weights)
                rows = [r for r, k in zip(rows, keep) if k]
                weights = [w for w, k in zip(weights, keep) if k]
        if i is None:
            stats[wg], stats[fl] = ws, fs
        else:
            stats[wg][i], stats[fl][i] = ws, fs
        return rows, weights

    def preprocess(sources, p):
        stats = {s: {} for s in SLOTS}
        data = []
        for i, source in enumerate(sources):
            k = 0
            if c["handlers"]:
                used[0] += 1
                k = used[0]
            calls.append(f"data_handler{k}")
            rows = ops.handle(k, source)
            stats["data_handler"][i] = stat(f"h{k}", [r[3] for r in rows])
            data.append(rows)
        todo = [("imputator", ops.impute)] + [("smoother", ops.smooth)] * on["smoothing"]
        for slot, fn in todo:
            for i, rows in enumerate(data):
                calls.append(slot)
                data[i] = fn(rows)
                stats[slot][i] = stat(slot, [r[3] for r in data[i]])
        for i, rows in enumerate(data):
            data[i] = weighed("pre_expander", rows, stats, i)[0]
        for i, rows in enumerate(data):
            calls.append("expander")
            data[i] = ops.expand(rows)
            stats["expander"][i] = stat("expander", [r[3] for r in data[i]])
        for i, rows in enumerate(data):
            data[i] = weighed("pre_influence", rows, stats, i)[0]
        rows = sum(data, [])
        fitted = {}
        if p is None:
            calls.append("influence_model")
            p = ops.param(rows)
            fitted = stat("fit", [r[3] for r in rows])
        calls.append("influence_model")
        stats["influence_model"] = {"removed": len(rows), "param": p, **fitted}
        rows = ops.remove(rows, p)
        rows, weights = weighed("post", rows, stats, None)
        return rows, weights, stats, p

    rows, weights, train, p = preprocess(run["train"], None)
    if not rows:
        return calls, None, None, None
    seen = {}
    if on["injecting"]:
        calls.append("injector")
        seen["inject"] = (rows, weights)
        extra = ops.inject(rows)
        rows, weights = rows + extra, weights + [3.0] * len(extra)
        train["injector"] = {"n_injected": len(extra)}
    calls.append("extension")
    seen["process"] = (rows, weights)
    train["extension"] = {"built": len(rows)}
    test = {s: {} for s in SLOTS}
    if on["testing"] and run["test"] is not None:
        pts, _, test, _ = preprocess(run["test"], p)
        calls.append("quality_assurance")
        seen["check"] = pts
        train["quality_assurance"] = {"quality": len(pts)}
    return calls, seen, train, test


@st.composite
def sources(draw, lo=1):
    n = draw(st.integers(lo, 3))
    out, i = [], draw(st.integers(0, 3))
    for _ in range(n):
        rows = []
        for _ in range(draw(st.sampled_from([3, 1, 2, 0, 4, 6, 9]))):
            rows.append([draw(gen.grid(0, 20, 4)), draw(gen.grid(0, 359, 4)), draw(gen.grid(0, 15, 4)), float(i)])
            i += 1
        out.append(rows)
    return out


@st.composite
def stand_in_cases(draw):
    runs = []
    for _ in range(draw(st.integers(1, 3))):
        flags = {f: False for f in FLAGS if draw(st.integers(0, 3)) == 0}
        flags.update({f: True for f in FLAGS if f not in flags and draw(st.integers(0, 5)) == 0})
        runs.append(
            {
                "flags": flags,
                "train": draw(sources()),
                "test": draw(st.one_of(st.none(), sources())),
            }
        )
    return {
        "drop": draw(st.integers(0, 7)),
        "bounds": {
            s: draw(st.sampled_from([0, 0.2, 0.4, 0.4, 0.7, 1]))
            for s in SLOTS
            if s.endswith("filter")
        },
        "inject": draw(st.integers(0, 4)),
        "handlers": draw(st.sampled_from([0, 0, 8])),
        "alias": draw(st.booleans()),
        "runs": runs,
    }


def renamed(d, alias):
    return {ALIAS.get(k, k) if alias else k: v for k, v in d.items()}


@REG.facet(
    stand_in_cases(),
    quick=250,
    rule="at least two runs or sources, a step dropping rows, and a diagram",
)
def composition(case, cx):
    log, seen = [], {}
    pipe = pl.PolarPipeline(**renamed(components(case, log, seen), case["alias"]))
    built = False
    for run in case["runs"]:
        calls, want, train, test = expected(case, run)
        del log[:]
        seen.clear()
        before = frozen([run["train"], run["test"]])
        go = lambda: pipe(run["train"], run["test"], **renamed(run["flags"], case["alias"]))
        if want is None:
            must_raise("training data without any rows left", go, RuntimeError)
            expect(log == calls, "steps run", log, calls)
            cx.label("no rows left")
            continue
        out = go()
        built = True
        expect(frozen([run["train"], run["test"]]) == before, "the inputs were changed")
        expect(log == calls, "steps run in the wrong order or number", log, calls)
        expect(out.polardiagram is seen["pd"], "the diagram is not the one built by the extension")
        for step in ("inject", "process"):
            expect((step in seen) == (step in want), step, seen, want)
            if step in want:
                expect(same(np.array(seen[step][0]).reshape(-1, 3), np.array(want[step][0]).reshape(-1, 3)), "points given to", step, seen[step][0], want[step][0])
                expect(same(seen[step][1], want[step][1]), "weights given to", step, seen[step][1], want[step][1])
        expect(("check" in seen) == ("check" in want), "quality check")
        if "check" in want:
            expect(seen["check"][0] is out.polardiagram, "the wrong diagram was tested")
            expect(same(np.array(seen["check"][1]).reshape(-1, 3), np.array(want["check"]).reshape(-1, 3)), "test data", seen["check"][1], want["check"])
            cx.label("tested")
        for got, ref, what in ((out.training_statistics, train, "training"), (out.test_statistics, test, "test")):
            for slot, name in zip(SLOTS, STATS):
                have = copy.deepcopy(getattr(got, name))
                if what == "training" and slot == "quality_assurance":
                    took = have.pop("execution time")
                    expect(0 <= took < 3600, "execution time", took)
                expect(have == ref[slot], what, "statistics filed under", name, have, ref[slot])
    dropped = any(len(r["train"]) > 1 for r in case["runs"]) or len(case["runs"]) > 1
    cx.nontrivial(built and dropped)


# ---- predefined components ----
START = datetime(2022, 7, 1, 12)


@st.composite
def real_sources(draw):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        n = draw(st.integers(6, 22))
        t, rows = 0, []
        for _ in range(n):
            t += draw(st.sampled_from([10, 30, 60, 60, 400]))
            row = [t] + [draw(gen.grid(2, 14, 4)), draw(gen.grid(0, 359, 2)), draw(gen.grid(0, 12, 4))]
            if draw(st.integers(0, 7)) == 0:
                row[draw(st.integers(1, 3))] = None
            rows.append(row)
        out.append(rows)
    return out


@st.composite
def real_cases(draw):
    pick = lambda *a: draw(st.sampled_from(a))
    return {
        "imputator": pick("remove", "fill"),
        "smoother": pick("lazy", "affine"),
        "weighers": [pick("mean", "member", "past", "sum", "one") for _ in range(3)],
        "filters": [pick("quantile", "bound", "weak") for _ in range(3)],
        "influence": pick("identity", "angle"),
        "injector": pick(0, 2, 5),
        "extension": pick("table", "cloud", "curve", "grid"),
        "qa": pick("minimal", "comforming"),
        "seed": draw(st.integers(0, 10**6)),
        "runs": [
            {
                "flags": {f: False for f in FLAGS if draw(st.integers(0, 4)) == 0},
                "train": draw(real_sources()),
                "test": draw(st.one_of(st.none(), real_sources())),
            }
            for _ in range(draw(st.integers(1, 2)))
        ],
    }


def plane(ws, wa, *p):
    return p[0] * ws + p[1] * wa / 100 + p[2]


def weigher(kind):
    if kind == "mean":
        return pc.CylindricMeanWeigher(radius=30)
    if kind == "member":
        return pc.CylindricMemberWeigher(radius=30, length=5)
    if kind == "past":
        return pc.FluctuationWeigher(["BSP", "TWS"], timedelta(seconds=120), [5, 8])
    if kind == "sum":
        return pc.CylindricMeanWeigher(radius=20) + pc.CylindricMemberWeigher(radius=40)
    return pc.AllOneWeigher()


def filt(kind):
    if kind == "quantile":
        return pc.QuantileFilter(30)
    if kind == "bound":
        return pc.BoundFilter(0.2, 1)
    return pc.QuantileFilter(0)


def real(case):
    w = list(case["weighers"])
    if w[2] == "past":
        w[2] = "mean"
    weighers, filters = [weigher(k) for k in w], [filt(k) for k in case["filters"]]
    ball = pc.ScalingBall(4)
    ext = {
        "table": lambda: pl.TableExtension("min_max", ball, pc.ArithmeticMeanInterpolator(2)),
        "grid": lambda: pl.TableExtension((4, 60), ball, pc.ArithmeticMeanInterpolator(2)),
        "cloud": lambda: pl.PointcloudExtension(pc.UniformRandomSampler(12), ball, pc.IDWInterpolator(2)),
        "curve": lambda: pl.CurveExtension(pc.LeastSquareRegressor(plane, (1, 1, 1))),
    }[case["extension"]]()
    return dict(
        data_handler=pc.ArrayHandler(),
        imputator=pc.RemoveOnlyImputator() if case["imputator"] == "remove" else pc.FillLocalImputator(),
        smoother=pc.LazySmoother() if case["smoother"] == "lazy" else pc.AffineSmoother(),
        pre_expander_weigher=weighers[0],
        pre_expander_filter=filters[0],
        expander=pl.LazyExpander(),
        pre_influence_weigher=weighers[1],
        pre_influence_filter=filters[1],
        influence_model=models.IdentityInfluenceModel() if case["influence"] == "identity" else models.WindAngleCorrectingInfluenceModel(),
        post_weigher=weighers[2],
        post_filter=filters[2],
        injector=pc.ZeroInjector(case["injector"]),
        extension=ext,
        quality_assurance=pl.MinimalQualityAssurance() if case["qa"] == "minimal" else pl.ComformingQualityAssurance(),
    )


def inputs(srcs):
    if srcs is None:
        return None
    return [
        (
            np.array([[START + timedelta(seconds=r[0])] + r[1:] for r in rows], dtype=object),
            ["datetime", "TWS", "TWA", "BSP"],
        )
        for rows in srcs
    ]


class NoRows(Exception):
    pass


def by_hand(comp, run):
    """the documented steps, applied one after another"""
    on = {f: run["flags"].get(f, True) for f in FLAGS}

    def stage(name, data, n):
        one = not on[name + "_weighing"]
        if n == 0:
            return data, np.array([])
        w = np.ones(n) if one else comp[name + "_weigher"].weigh(data)
        if on[name + "_filtering"]:
            keep = comp[name + "_filter"].filter(w)
            data, w = data[keep], np.asarray(w)[keep]
        return data, np.asarray(w)

    def prepare(srcs, fit):
        data = [comp["data_handler"].handle(s) for s in inputs(srcs)]
        data = [comp["imputator"].impute(d) for d in data]
        if on["smoothing"]:
            data = [comp["smoother"].smooth(d) for d in data]
        data = [stage("pre_expander", d, d.n_rows)[0] for d in data]
        data = [comp["expander"].expand(d) for d in data]
        data = [stage("pre_influence", d, d.n_rows)[0] for d in data]
        data = Data.concatenate(data)
        if fit:
            comp["influence_model"].fit(data)
        pts = comp["influence_model"].remove_influence(data)
        return stage("post", pts, len(pts))

    pts, w = prepare(run["train"], True)
    if len(pts) == 0:
        raise NoRows
    if on["injecting"]:
        more = comp["injector"].inject(WeightedPoints(pts, w))
        pts, w = np.vstack([pts, more.data]), np.concatenate([w, more.weights])
    pd = comp["extension"].process(WeightedPoints(pts, w))
    quality = {}
    if on["testing"] and run["test"] is not None:
        test, _ = prepare(run["test"], False)
        if len(test) == 0:
            raise NoRows
        quality = comp["quality_assurance"].check(pd, test)
    return pd, quality


def clean(stats):
    q = dict(stats.quality_assurance)
    q.pop("execution time", None)
    return frozen(tuple(stats._replace(quality_assurance=q)))


def attempt(fn):
    try:
        return fn()
    except (NoRows, RuntimeError, ValueError, ZeroDivisionError, IndexError, np.linalg.LinAlgError) as e:
        return type(e)


@REG.facet(real_cases(), quick=60, thorough=1500, rule="a diagram was built from at least 6 points")
def predefined(case, cx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pipe = pl.PolarPipeline(**real(case))
        worked = False
        for run in case["runs"]:
            with seeded(case["seed"]):
                want = attempt(lambda: by_hand(real(case), run))
            with seeded(case["seed"]):
                got = attempt(lambda: pipe(inputs(run["train"]), inputs(run["test"]), **run["flags"]))
            if isinstance(want, type):
                # too little data for one of the components
                expect(isinstance(got, type), "the pipeline did what its components refuse", want)
                cx.label("refused")
                continue
            expect(not isinstance(got, type), "the pipeline failed where its components do not", got)
            pd, quality = want
            expect(pds.describe(got.polardiagram) == pds.describe(pd), "diagram differs from the one built step by step")
            q = dict(got.training_statistics.quality_assurance)
            q.pop("execution time")
            expect(frozen(q) == frozen(quality), "quality report", q, quality)
            with seeded(case["seed"]):
                fresh = pl.PolarPipeline(**real(case))(inputs(run["train"]), inputs(run["test"]), **run["flags"])
            expect(clean(fresh.training_statistics) == clean(got.training_statistics), "statistics of a used and a fresh pipeline differ")
            expect(clean(fresh.test_statistics) == clean(got.test_statistics), "test statistics of a used and a fresh pipeline differ")
            if run["test"] is not None:
                with seeded(case["seed"]):
                    alone = pl.PolarPipeline(**real(case))(inputs(run["train"]), **run["flags"])
                expect(pds.describe(alone.polardiagram) == pds.describe(pd), "the test data changed the diagram")
                t, u = alone.training_statistics, got.training_statistics
                empty = {"quality_assurance": {}}
                expect(frozen(tuple(t._replace(**empty))) == frozen(tuple(u._replace(**empty))), "the test data changed the training statistics")
                expect(all(not s for s in alone.test_statistics), "statistics of tests not run")
            accounts(run, got, cx)
            worked = True
    cx.nontrivial(worked)


def accounts(run, out, cx):
    """rows entering a step are the rows leaving it or reported as removed"""
    on = {f: run["flags"].get(f, True) for f in FLAGS}
    pairs = [(run["train"], out.training_statistics)]
    if run["test"] is not None and on["testing"]:
        pairs.append((run["test"], out.test_statistics))
    for srcs, s in pairs:
        total = 0
        for i, rows in enumerate(srcs):
            n = s.data_handler[i]["n_rows"]
            expect(n == len(rows), "rows read", n, len(rows))
            imp = s.imputator[i]
            expect(imp["n_rows"] + imp["n_removed_rows"] == n, "rows lost by the imputator", imp, n)
            n = imp["n_rows"]
            for flag, name in (("pre_expander_filtering", "pre_expanding_filter"), ("pre_influence_filtering", "pre_influence_filter")):
                f = getattr(s, name)[i]
                if on[flag] and n:
                    expect(f["n_rows"] + f["n_filtered_points"] == n, "rows lost by", name, f, n)
                    n = f["n_rows"]
                else:
                    expect(f == {}, "statistics of a filter not run", name, f)
                if name == "pre_expanding_filter":
                    expect(s.expander[i]["n_rows"] == n, "rows lost by the expander", s.expander[i], n)
            total += n
        f = s.post_filter
        if on["post_filtering"] and total:
            expect(f["n_rows"] + f["n_filtered_points"] == total, "rows lost before the post filter", f, total)
        else:
            expect(f == {}, "statistics of a filter not run", f)
    injected = out.training_statistics.injector
    expect(bool(injected) == on["injecting"], "injector statistics", injected)


@st.composite
def defaults_cases(draw):
    n = draw(st.integers(24, 60))
    return {
        "rows": [
            [60 * i, draw(gen.grid(4, 10, 4)), draw(gen.grid(0, 359, 2)), draw(gen.grid(0, 12, 4))]
            for i in range(n)
        ],
        "given": draw(st.sampled_from([[], ["injector"], ["extension", "smoother"], ["post_filter", "imputator"]])),
    }


@REG.facet(defaults_cases(), quick=25, thorough=400, rule="always")
def defaults(case, cx):
    """what is not given is as documented"""
    documented = dict(
        imputator=pc.FillLocalImputator(),
        smoother=pc.LazySmoother(),
        pre_expander_weigher=pc.CylindricMeanWeigher(),
        pre_expander_filter=pc.QuantileFilter(),
        expander=pl.LazyExpander(),
        pre_influence_weigher=pc.CylindricMeanWeigher(),
        pre_influence_filter=pc.QuantileFilter(),
        influence_model=models.IdentityInfluenceModel(),
        post_weigher=pc.CylindricMeanWeigher(),
        post_filter=pc.QuantileFilter(),
        injector=pc.ZeroInjector(500),
        extension=pl.TableExtension(),
        quality_assurance=pl.MinimalQualityAssurance(),
    )
    src, test = [case["rows"]], [case["rows"][:12]]
    handler = {"data_handler": pc.ArrayHandler()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = pl.PolarPipeline(**handler, **{k: documented[k] for k in case["given"]})(inputs(src), inputs(test))
        b = pl.PolarPipeline(**handler, **documented)(
            inputs(src), inputs(test), **{f: True for f in FLAGS}
        )
    expect(pds.describe(a.polardiagram) == pds.describe(b.polardiagram), "defaults differ from the documented ones")
    expect(clean(a.training_statistics) == clean(b.training_statistics), "statistics with the defaults")
    expect(clean(a.test_statistics) == clean(b.test_statistics), "test statistics with the defaults")
    cx.nontrivial(True)


# ---- large ----
def big_stand_in(r, n):
    serial = [0]

    def source(m):
        rows = []
        for _ in range(m):
            rows.append([r.grid(0, 20, 4), r.grid(0, 359, 4), r.grid(0, 15, 4), float(serial[0])])
            serial[0] += 1
        return rows

    def srcs():
        return [source(m) for m in r.choice([[n], [n, 3], [3, n, n], [r.randint(0, 4) for _ in range(min(n, 30))]])]

    runs = []
    for _ in range(r.choice([1, 2, min(n, 12)]) if n < 60 else 1):
        flags = {f: False for f in FLAGS if r.random() < 0.25}
        runs.append({"flags": flags, "train": srcs(), "test": r.choice([None, srcs()])})
    return {
        "drop": r.randint(0, 7), "bounds": {s: r.choice([0, 0.2, 0.4, 0.7]) for s in SLOTS if s.endswith("filter")},
        "inject": r.choice([3, n]), "handlers": r.choice([0, 800]), "alias": r.random() < 0.5, "runs": runs,
    }


def big_real(r, n):
    def srcs(m):
        out = []
        for _ in range(m):
            t, rows = 0, []
            for _ in range(n):
                t += r.choice([10, 30, 60, 60, 400])
                row = [t, r.grid(2, 14, 4), r.grid(0, 359, 2), r.grid(0, 12, 4)]
                if r.random() < 0.1:
                    row[r.randint(1, 3)] = None
                rows.append(row)
            out.append(rows)
        return out

    return {
        "imputator": r.choice(["remove", "fill"]), "smoother": r.choice(["lazy", "affine"]),
        "weighers": [r.choice(["mean", "member", "past", "sum", "one"]) for _ in range(3)],
        "filters": [r.choice(["quantile", "bound", "weak"]) for _ in range(3)],
        "influence": "identity", "injector": r.choice([0, 2, 30]), "extension": r.choice(["table", "cloud", "curve", "grid"]),
        "qa": r.choice(["minimal", "comforming"]), "seed": r.randrange(10**6),
        "runs": [{"flags": {f: False for f in FLAGS if r.random() < 0.2}, "train": srcs(r.randint(1, 2)), "test": r.choice([None, srcs(1)])}],
    }


big.large(REG, composition, big_stand_in, lo=12, hi=500, quick=40, what="rows, sources or runs")
big.large(REG, predefined, big_real, lo=30, hi=150, quick=15, thorough=200, what="rows")
