"""Facets, counters, exception classification, the runner and replays."""
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection  # noqa: F401
import os
import signal
import sys
import time
import traceback
import warnings

from . import env

import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis.errors import HypothesisException

CASE_LIMIT = 120  # s; a case is a few ms of work: beyond this it hangs
SHRINK_LIMIT = int(os.environ.get("VERIF_SHRINK", 45))  # s of shrinking per facet
FACET_LIMIT = {"quick": 240, "thorough": 3000}


class Violation(AssertionError):
    """The property does not hold for the case at hand."""


class HarnessError(Exception):
    """Something the harness itself got wrong."""


class CaseTimeout(BaseException):
    """One case ran longer than CASE_LIMIT."""


class Context:
    """Handed to a facet together with the case; collects classification."""

    def __init__(self, strict=False):
        self.labels = set()
        self.is_nontrivial = False
        self.was_excluded = None
        self.strict = strict

    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def excluded(self, finding, cond):
        """True if the case lies in the class of a recorded known finding."""
        if cond and not self.strict:
            self.was_excluded = finding
            return True
        return False


class Facet:
    def __init__(self, fn, strategy, quick, thorough, rule, examples):
        self.fn = fn
        self.name = fn.__name__
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = examples


class Registry:
    def __init__(self, prop, assumptions=()):
        self.prop = prop
        self.facets = []
        self.assumptions = list(assumptions)

    def facet(self, strategy, quick=300, thorough=None, rule="", examples=()):
        def deco(fn):
            self.facets.append(
                Facet(
                    fn,
                    strategy,
                    quick,
                    thorough or quick * 10,
                    rule or (fn.__doc__ or "").strip(),
                    list(examples),
                )
            )
            return fn

        return deco


def expect(cond, msg, *args):
    if not cond:
        try:
            text = msg % args if args else msg
        except (TypeError, ValueError):
            text = " ".join([str(msg)] + [repr(a)[:400] for a in args])
        raise Violation(text)


def _repo_frame(tb):
    last = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(env.REPO + os.sep):
            last = f
    return last


def run_case(facet, case, strict=False):
    """-> (context, failure message or None). HarnessError on harness faults."""
    cx = Context(strict)

    def on_alarm(_s, _f):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            facet.fn(case, cx)
        return cx, None
    except Violation as e:
        return cx, str(e)
    except HypothesisException:
        raise
    except (HarnessError, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001 - classified, never swallowed
        where = _repo_frame(e.__traceback__)
        if where is not None:
            rel = os.path.relpath(where.filename, env.REPO)
            return cx, (
                f"unexpected {type(e).__name__}: {e} (raised through {rel} in"
                f" {where.name})"
            )
        last = traceback.extract_tb(e.__traceback__)[-1]
        return cx, (
            f"result of the library cannot be interpreted:"
            f" {type(e).__name__}: {e} (at {os.path.basename(last.filename)}:"
            f"{last.lineno})"
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if hasattr(o, "item"):
        return o.item()
    raise HarnessError(f"case is not plain data: {type(o)}")


def facet_seed(prop, name, seed, shard=0):
    h = hashlib.sha256(f"{prop}/{name}/{seed}/{shard}".encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_facet(prop, facet, tier, seed, scale=1.0, shard=0, shards=1):
    """Runs (one shard of) a facet; returns a plain dict (crosses processes)."""
    t0 = time.time()
    st = {
        "facet": facet.name,
        "evaluations": 0,
        "distinct": set(),
        "nontrivial": set(),
        "labels": {},
        "excluded": {},
        "samples": [],
        "stopped_early": False,
        "rule": facet.rule,
    }
    failures = []  # (len, json, message)
    state = {"first_fail": None}
    limit = FACET_LIMIT[tier]

    def one(case):
        now = time.time()
        if state["first_fail"] and now - state["first_fail"] > SHRINK_LIMIT:
            return  # stop shrinking; the recorded failures stand
        if now - t0 > limit:
            st["stopped_early"] = True
            return
        text = dumps(case)
        plain = json.loads(text)
        try:
            cx, msg = run_case(facet, plain)
        except CaseTimeout:
            failures.append(
                (len(text), text, f"did not finish within {CASE_LIMIT} s")
            )
            raise
        st["evaluations"] += 1
        if cx.was_excluded:
            st["excluded"][cx.was_excluded] = (
                st["excluded"].get(cx.was_excluded, 0) + 1
            )
        key = hashlib.sha1(text.encode()).hexdigest()
        st["distinct"].add(key)
        for lb in cx.labels:
            st["labels"][lb] = st["labels"].get(lb, 0) + 1
        if cx.is_nontrivial and not cx.was_excluded:
            if key not in st["nontrivial"]:
                st["nontrivial"].add(key)
                if len(st["samples"]) < 2 or (
                    len(st["samples"]) < 4 and len(text) < 600
                ):
                    st["samples"].append(_shorten(plain))
        if msg is not None:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            failures.append((len(text), text, msg))
            raise Violation(msg)

    n = facet.quick if tier == "quick" else facet.thorough
    n = max(1, int(n * scale / shards))
    error = None
    try:
        for ex in facet.examples if shard == 0 else ():
            one(ex)
        if facet.strategy is not None:
            test = hypothesis.given(facet.strategy)(one)
            test = hypothesis.seed(facet_seed(prop, facet.name, seed, shard))(test)
            test = settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                phases=(Phase.generate, Phase.target, Phase.shrink),
                suppress_health_check=list(HealthCheck),
                print_blob=False,
            )(test)
            test()
    except Violation:
        pass
    except CaseTimeout:
        pass
    except BaseException as e:  # noqa: BLE001
        if not failures:
            error = "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )[-4000:]
    st["seconds"] = round(time.time() - t0, 2)
    st["error"] = error
    st["failure"] = None
    if failures and error is None:
        failures.sort(key=lambda f: (f[0], f[1]))
        chosen = failures[0]
        reproduced = "did not finish" in chosen[2]
        if not reproduced:
            for cand in failures[:20]:
                try:
                    _, msg = run_case(facet, json.loads(cand[1]))
                except CaseTimeout:
                    msg = "did not finish"
                if msg is not None:
                    chosen, reproduced = (cand[0], cand[1], msg), True
                    break
        st["failure"] = {
            "case": json.loads(chosen[1]),
            "message": chosen[2],
            "standalone": reproduced,
            "failing_inputs_seen": len(failures),
        }
    return st


def _shorten(x, depth=0):
    if isinstance(x, dict):
        return {k: _shorten(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 12:
            return [_shorten(v, depth + 1) for v in x[:10]] + [
                f"... {len(x)} entries"
            ]
        return [_shorten(v, depth + 1) for v in x]
    if isinstance(x, str) and len(x) > 300:
        return x[:300] + "..."
    return x


def _worker(conn, prop, facet, tier, seed, scale, shard, shards):
    try:
        scratch = os.path.join(env.SCRATCH, f"{facet.name}.{shard}")
        os.makedirs(scratch, exist_ok=True)
        os.chdir(scratch)
        res = run_facet(prop, facet, tier, seed, scale, shard, shards)
    except BaseException as e:  # noqa: BLE001
        res = {
            "facet": facet.name,
            "error": "".join(
                traceback.format_exception(type(e), e, e.__traceback__)
            )[-4000:],
        }
    try:
        conn.send(res)
    finally:
        conn.close()


def _merge(parts):
    """Adds up the shards of one facet."""
    for r in parts:
        if r.get("error"):
            bad = [q for q in parts if q.get("failure")]
            if not bad:
                return {"facet": r["facet"], "error": r["error"]}
    parts = [r for r in parts if not r.get("error")]
    out = parts[0]
    for r in parts[1:]:
        out["evaluations"] += r["evaluations"]
        out["distinct"] |= r["distinct"]
        out["nontrivial"] |= r["nontrivial"]
        for k in ("labels", "excluded"):
            for lb, n in r[k].items():
                out[k][lb] = out[k].get(lb, 0) + n
        out["samples"] = (out["samples"] + r["samples"])[:4]
        out["stopped_early"] |= r["stopped_early"]
        out["seconds"] = round(out["seconds"] + r["seconds"], 2)
    fails = [r["failure"] for r in parts if r["failure"]]
    if fails:
        fails.sort(
            key=lambda f: (not f["standalone"], len(dumps(f["case"])))
        )
        out["failure"] = fails[0]
    out["distinct"] = len(out["distinct"])
    out["nontrivial"] = len(out["nontrivial"])
    return out


def run_all(reg, tier, seed, scale=1.0, only=None, jobs=8):
    """Every facet, cut into shards, each shard in its own forked process."""
    ctx = mp.get_context("fork")
    todo = [f for f in reg.facets if not only or f.name in only]
    queue = []
    for f in todo:
        n = (f.quick if tier == "quick" else f.thorough) * scale
        # independent of the number of cores: the shards fix the seeds
        shards = max(1, min(4, int(n // 150))) if f.strategy is not None else 1
        queue += [(f, k, shards) for k in range(shards)]
    queue.sort(key=lambda t: t[1])
    running, results = [], {}
    while queue or running:
        while queue and len(running) < jobs:
            f, k, shards = queue.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(
                target=_worker,
                args=(b, reg.prop, f, tier, seed, scale, k, shards),
            )
            p.start()
            b.close()
            running.append((f, k, p, a))
        mp.connection.wait([r[3] for r in running], timeout=5)
        still = []
        for f, k, p, a in running:
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = {
                        "facet": f.name,
                        "error": f"worker died, exit code {p.exitcode}",
                    }
                results.setdefault(f.name, {})[k] = res
                p.join()
            else:
                still.append((f, k, p, a))
        running = still
    return [
        _merge([results[f.name][k] for k in sorted(results[f.name])])
        for f in todo
    ]
