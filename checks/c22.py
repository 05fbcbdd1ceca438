"""C22: regression recovers the parameters of data that follow the model."""


import numpy as np
from hypothesis import strategies as st
from scipy import odr

from harness import big, gen
from harness.core import Registry, expect
from harness.util import finite, frozen, must_raise, same
from hrosailing.core.data import WeightedPoints
from hrosailing.processing.injector import ZeroInjector
from hrosailing.processing.regressor import LeastSquareRegressor, ODRegressor

REG = Registry(
    "C22",
    [
        "linear models whose design matrix has a condition number below 200"
        " (columns scaled to length one), non-linear ones started near the"
        " parameters; 1e-5 relative accuracy",
        "the solvers are not given data whose boat speeds are all zero (they have no"
        " scale to judge convergence by then)",
    ],
)

BASIS = [
    lambda ws, wa: 1 + 0 * ws,
    lambda ws, wa: ws / 10,
    lambda ws, wa: wa / 100,
    lambda ws, wa: np.sin(np.deg2rad(wa)),
    lambda ws, wa: ws**2 / 100,
    lambda ws, wa: ws * wa / 1000,
    lambda ws, wa: np.cos(np.deg2rad(wa)),
]


def linear(ks, star):
    """A model function of ws, wa and parameters, named or starred."""
    fs = [BASIS[k] for k in ks]
    total = lambda ws, wa, p: sum(a * f(ws, wa) for a, f in zip([p[i] for i in range(len(fs))], fs))  # noqa: E731
    if star:
        return lambda ws, wa, *params: total(ws, wa, params)
    return [
        lambda ws, wa, a: total(ws, wa, [a]),
        lambda ws, wa, a, b: total(ws, wa, [a, b]),
        lambda ws, wa, a, b, c: total(ws, wa, [a, b, c]),
        lambda ws, wa, a, b, c, d: total(ws, wa, [a, b, c, d]),
    ][len(fs) - 1]


def saturating(ws, wa, a, b):
    return a * (1 - np.exp(-b * ws)) * (1 + wa / 360)


def bump(ws, wa, a, c):
    return a * ws * np.exp(-((wa - c) / 90) ** 2)


NONLINEAR = {
    "saturating": (saturating, [(1, 9), (0.05, 0.4)]),
    "bump": (bump, [(0.2, 2), (40, 160)]),
}


@st.composite
def winds(draw, lo, hi):
    n = draw(st.integers(lo, hi))
    w = draw(
        st.lists(
            st.tuples(gen.grid(1, 30), gen.grid(0, 359)),
            min_size=n, max_size=n, unique=True,
        )
    )
    again = draw(st.lists(st.integers(0, n - 1), max_size=draw(st.sampled_from([0, 0, 6]))))
    return [list(x) for x in w + [w[i] for i in again]]


@st.composite
def linear_cases(draw, sets=1):
    ks = sorted(draw(gen.uniq(st.integers(0, len(BASIS) - 1), 1, 4)))
    num = gen.grid(-8, 8)
    out = {
        "ks": ks,
        "star": draw(st.booleans()),
        "init": draw(st.one_of(st.none(), st.just([draw(gen.grid(-3, 3)) for _ in ks]))),
        "kind": draw(st.sampled_from(["ls", "ls", "od"])),
        "sets": [],
    }
    for _ in range(sets):
        w = draw(winds(len(ks) + 3, 20))
        noise = draw(st.sampled_from([0, 0, 0.25, 2]))
        out["sets"].append(
            {
                "winds": w,
                "params": [draw(num) for _ in ks],
                "noise": [noise * draw(gen.grid(-1, 1)) if noise else 0.0 for _ in w],
            }
        )
    return out


def design(ks, winds_):
    w = np.array(winds_)
    return np.column_stack([BASIS[k](w[:, 0], w[:, 1]) for k in ks])


def regressor(c):
    f = linear(c["ks"], c["star"])
    if c["kind"] == "od":
        return ODRegressor(f, c["init"] if c["init"] is not None else [1] * len(c["ks"])), f
    if c["init"] is None:
        return LeastSquareRegressor(f), f
    return LeastSquareRegressor(f, c["init"]), f


def data_of(c, s):
    a = design(c["ks"], s["winds"])
    y = a @ np.array(s["params"]) + np.array(s["noise"])
    return a, np.column_stack([np.array(s["winds"]), y])


def orthogonal(ks, data, start):
    """parameters for the least orthogonal distances"""
    model = odr.Model(lambda p, x: sum(a * BASIS[k](x[0], x[1]) for a, k in zip(p, ks)))
    return odr.ODR(odr.Data(data[:, :2].T, data[:, 2]), model, beta0=start, maxit=2000).run().beta


def conditioned(a):
    norms = np.linalg.norm(a, axis=0)
    return bool(np.all(norms > 1e-3)) and np.linalg.cond(a / norms) < 200


@REG.facet(
    linear_cases(),
    quick=1500,
    rule="1-4 basis functions, 4-20 winds, both regressors, models with named"
    " and starred parameters, given and default initial values, with and"
    " without noise; non-trivial: several parameters, or noise",
)
def linear_models(c, cx):
    s = c["sets"][0]
    a, data = data_of(c, s)
    if not conditioned(a) or not np.any(data[:, 2]):
        cx.label("ill-conditioned")
        return
    noisy = any(s["noise"])
    cx.nontrivial(noisy or len(c["ks"]) > 1)
    cx.label(c["kind"], "noise" if noisy else "exact")
    r, f = regressor(c)
    expect(r.optimal_params is None, "parameters before fitting")
    expect(r.model_func is f, "the model function is another one")
    before = frozen(data), frozen(c["init"])
    r.fit(data)
    p = np.asarray(r.optimal_params, float)
    expect(p.shape == (len(c["ks"]),), f"{p.shape} parameters for {len(c['ks'])}")
    expect(finite(p), f"parameters {p}")
    expect((frozen(data), frozen(c["init"])) == before, "the data or initial values were changed")
    true = np.array(s["params"])
    scale = 1 + np.max(np.abs(true))
    if not noisy:
        expect(
            bool(np.all(np.abs(p - true) <= 1e-5 * scale)),
            f"{c['kind']}: fitted {p.tolist()}, the data follows {true.tolist()}",
        )
        return
    y = data[:, 2]
    res = lambda q: float(np.sum((a @ q - y) ** 2))  # noqa: E731
    best = np.linalg.lstsq(a, y, rcond=None)[0]
    if c["kind"] == "od":
        # optimal with respect to the vertical or the orthogonal distances
        near = lambda q: bool(np.all(np.abs(p - q) <= 1e-4 * (1 + np.max(np.abs(q)))))  # noqa: E731
        expect(near(best) or near(orthogonal(c["ks"], data, best)), "fitted %s, least squares are at %s", p.tolist(), best.tolist())
        return
    slack = 1e-6 * (1e-6 + res(best))
    expect(res(p) <= res(best) + slack, f"squared residuals {res(p)} with {p.tolist()}, {res(best)} with {best.tolist()}")
    expect(res(p) <= res(true) + slack, "the generating parameters fit better")
    for i in range(len(p)):
        for d in (1e-2, -1e-2):
            q = p.copy()
            q[i] += d * scale
            expect(res(p) <= res(q) + slack, f"{q.tolist()} fits better than {p.tolist()}")


@st.composite
def nonlinear_cases(draw):
    name = draw(st.sampled_from(sorted(NONLINEAR)))
    params = [draw(gen.floats(*b)) for b in NONLINEAR[name][1]]
    return {
        "name": name,
        "winds": draw(winds(8, 25)),
        "params": params,
        "init": [p * (1 + draw(gen.grid(-0.125, 0.125))) for p in params],
        "kind": draw(st.sampled_from(["ls", "od"])),
    }


@REG.facet(
    nonlinear_cases(),
    quick=500,
    rule="two non-linear models, 8-25 winds, initial values within an eighth;"
    " non-trivial: the initial values are not the parameters",
)
def nonlinear_models(c, cx):
    f = NONLINEAR[c["name"]][0]
    w = np.array(c["winds"])
    true = np.array(c["params"])
    jac = np.column_stack(
        [
            (f(w[:, 0], w[:, 1], *(true + h)) - f(w[:, 0], w[:, 1], *(true - h))) / 2e-6
            for h in (np.array([1e-6, 0]), np.array([0, 1e-6]))
        ]
    )
    if np.min(np.linalg.norm(jac, axis=0)) < 1e-2 or not conditioned(jac):
        cx.label("ill-conditioned")
        return
    cx.nontrivial(c["init"] != c["params"])
    data = np.column_stack([w, f(w[:, 0], w[:, 1], *true)])
    r = (LeastSquareRegressor if c["kind"] == "ls" else ODRegressor)(f, c["init"])
    r.fit(data)
    p = np.asarray(r.optimal_params, float)
    expect(
        p.shape == true.shape and bool(np.all(np.abs(p - true) <= 1e-4 * (1 + np.abs(true)))),
        f"{c['kind']}: fitted {p.tolist()}, the data follows {true.tolist()}",
    )


@REG.facet(
    linear_cases(sets=3),
    quick=500,
    rule="one regressor fitted to three data sets in turn, compared with fresh"
    " ones, and rows in another order; non-trivial: several parameters",
)
def refit(c, cx):
    cx.nontrivial(len(c["ks"]) > 1)
    r, _ = regressor(c)
    for s in c["sets"]:
        a, data = data_of(c, s)
        if not conditioned(a) or not np.any(data[:, 2]):
            continue
        fresh, _ = regressor(c)
        r.fit(data)
        fresh.fit(data.copy())
        expect(
            np.array_equal(r.optimal_params, fresh.optimal_params),
            f"a used regressor gives {r.optimal_params}, a fresh one {fresh.optimal_params}",
        )
        kept = np.array(r.optimal_params)
        fresh.fit(data[::-1].copy())
        scale = 1 + np.max(np.abs(kept))
        expect(
            bool(np.all(np.abs(fresh.optimal_params - kept) <= 1e-4 * scale)),
            f"{fresh.optimal_params} after reordering the rows, {kept} before",
        )
        expect(np.array_equal(r.optimal_params, kept), "the parameters changed later")


@st.composite
def injections(draw):
    rows = draw(st.lists(st.tuples(gen.nice(0, 40), gen.nice(0, 359), gen.nice(0, 20)), min_size=1, max_size=8))
    return {
        "sets": [[list(r) for r in rows], [[5.0, 40.0, 3.0], [9.0, 50.0, 4.0]]],
        "n": draw(st.integers(0, 9)),
        "w": draw(st.booleans()),
    }


@REG.facet(
    injections(),
    quick=800,
    rule="1-8 points, 0-9 zeros, an injector used twice; non-trivial: at least"
    " two zeros and different wind speeds",
)
def zero_injector(c, cx):
    inj = ZeroInjector(c["n"])
    n = c["n"]
    for rows in c["sets"]:
        data = np.array(rows)
        wp = WeightedPoints(data, 1 if c["w"] else np.linspace(0, 1, len(rows)))
        before = frozen([wp.data, wp.weights])
        out = inj.inject(wp)
        expect(frozen([wp.data, wp.weights]) == before, "the measured points were changed")
        lo, hi = min(r[0] for r in rows), max(r[0] for r in rows)
        cx.nontrivial(n > 1 and lo < hi)
        got = np.asarray(out.data, float)
        expect(got.shape == (2 * n, 3), f"injected points of shape {got.shape}")
        expect(same(np.asarray(out.weights), np.ones(2 * n)), f"weights {out.weights}")
        expect(bool(np.all(got[:, 2] == 0)), "boat speeds are not zero")
        step = (hi - lo) / (n - 1) if n > 1 else 0
        want = [lo + i * step for i in range(n)]
        for ang in (0, 360):
            ws = sorted(got[got[:, 1] == ang][:, 0].tolist())
            expect(
                len(ws) == n and all(abs(x - y) <= 1e-12 * (1 + hi) for x, y in zip(ws, want)),
                f"wind speeds {ws} at {ang} degrees, expected {want}",
            )
        expect(inj.get_latest_statistics()["n_injected"] == 2 * n, f"statistics {inj.get_latest_statistics()}")


@REG.facet(
    st.tuples(st.sampled_from([1, 2, 4]), st.integers(0, 3)).map(list),
    quick=40,
    rule="data that is not a table of three columns or has no rows;"
    " non-trivial: always",
)
def rejected(c, cx):
    cols, rows = c
    cx.nontrivial()
    inj = ZeroInjector(3)
    bad = [np.ones((rows, cols)), np.empty((0, 3)), np.ones(3)]
    for b in bad:
        must_raise(f"data of shape {b.shape}", lambda: inj.inject(WeightedPoints(b, 1)), ValueError)
    must_raise("a dictionary", lambda: inj.inject(WeightedPoints({"TWS": [1]}, 1)), TypeError)
    for r in (LeastSquareRegressor(saturating, [1, 1]), ODRegressor(saturating, [1, 1])):
        must_raise("no data", lambda: r.fit(np.empty((0, 3))))
        expect(r.optimal_params is None, "a failed fit left parameters")
    must_raise("data of another shape", lambda: ODRegressor(saturating, [1, 1]).fit(np.ones((rows + 1, cols))), ValueError)


# ---- large ----
def big_winds(r, n):
    w = [list(x) for x in r.uniq(n, lambda: (r.grid(1, 30), r.grid(0, 359)))]
    return w + [list(r.choice(w)) for _ in range(r.choice([0, 0, n // 3]))]


def big_linear(sets):
    def expand(r, n):
        ks = sorted(r.sample(range(len(BASIS)), r.randint(1, 4)))
        c = {
            "ks": ks, "star": r.random() < 0.5, "init": r.choice([None, [r.grid(-3, 3) for _ in ks]]),
            "kind": r.choice(["ls", "od"]), "sets": [],
        }
        for m in r.choice([[n, len(ks) + 3, n], [8, n, 2 * n]]) if sets > 1 else [n]:
            w = big_winds(r, m)
            noise = r.choice([0, 0.25, 2])
            c["sets"].append({"winds": w, "params": [r.grid(-8, 8) for _ in ks], "noise": [noise * r.grid(-1, 1) if noise else 0.0 for _ in w]})
        return c
    return expand


def big_nonlinear(r, n):
    name = r.choice(sorted(NONLINEAR))
    params = [r.uniform(*b) for b in NONLINEAR[name][1]]
    return {
        "name": name, "winds": big_winds(r, n), "params": params,
        "init": [p * (1 + r.grid(-0.125, 0.125)) for p in params], "kind": r.choice(["ls", "od"]),
    }


def big_injection(r, n):
    a, b = r.choice([(n, 3), (2, n), (n, n)])
    return {"sets": [r.points(a), [[5.0, 40.0, 3.0], [9.0, 50.0, 4.0]]], "n": b, "w": r.random() < 0.5}


big.large(REG, linear_models, big_linear(1), lo=20, hi=1000, quick=60, what="winds")
big.large(REG, nonlinear_models, big_nonlinear, lo=20, hi=1000, quick=40, what="winds")
big.large(REG, refit, big_linear(3), lo=20, hi=500, quick=30, what="winds")
big.large(REG, zero_injector, big_injection, hi=2000, quick=60, what="points or zeros")
