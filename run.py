#!/opt/venv/bin/python
"""run.py <PROPERTY> [--replay FILE] [--facet NAME]... [--scale X]

Decides one property of hrosailing by generated-input search.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import env  # noqa: E402  (must come first)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--tier", default=env.TIER)
    ap.add_argument("--seed", type=int, default=env.SEED)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from harness import core, known

    import hrosailing

    root = os.path.realpath(os.path.dirname(hrosailing.__file__))
    if not root.startswith(os.path.realpath(env.REPO)):
        print(f"ERROR hrosailing imported from {root}, not {env.REPO}")
        return 2
    reg = importlib.import_module(f"checks.{a.prop.lower()}").REG

    if a.replay:
        with open(a.replay, encoding="utf-8") as fh:
            rec = json.load(fh)
        facet = next(f for f in reg.facets if f.name == rec["facet"])
        try:
            _, msg = core.run_case(facet, rec["case"], strict=True)
        except core.CaseTimeout:
            msg = "did not finish"
        if msg is None:
            print(f"replay of {a.replay}: property holds for this case")
            return 0
        print(f"replay of {a.replay}: {msg}")
        print(f"VIOLATION property={reg.prop} replay={a.replay}")
        return 1

    errors, found = [], []
    for rec in known.load(reg.prop):
        facet = next(f for f in reg.facets if f.name == rec["facet"])
        try:
            _, msg = core.run_case(facet, rec["case"], strict=True)
        except core.CaseTimeout:
            msg = "did not finish"
        except Exception as e:  # noqa: BLE001
            errors.append(f"known finding {rec['finding']}: {e}")
            continue
        if msg is not None:
            print(
                f"KNOWN-FINDING: property={reg.prop} {rec['finding']}"
                f" {rec['what']}"
            )
            found.append(rec["finding"])
        else:
            print(f"note: known finding {rec['finding']} no longer fails")

    results = core.run_all(
        reg, a.tier, a.seed, a.scale, only=a.facet, jobs=a.jobs
    )
    violations = []
    for r in results:
        if r.get("error"):
            errors.append(f"{r['facet']}: {r['error']}")
            continue
        if a.verbose:
            print(
                f"  {r['facet']}: {r['evaluations']} cases,"
                f" {r['nontrivial']} non-trivial, {r['seconds']} s,"
                f" labels {dict(sorted(r['labels'].items()))}"
                + (f" excluded {r['excluded']}" if r["excluded"] else "")
                + (" STOPPED EARLY" if r["stopped_early"] else "")
            )
        if r["failure"]:
            violations.append(r)

    ok = [r for r in results if not r.get("error")]
    evidence = {
        "property": reg.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in ok),
            "distinct_nontrivial": sum(r["nontrivial"] for r in ok),
            "rule": " | ".join(f"{r['facet']}: {r['rule']}" for r in ok),
            "samples": [
                {"facet": r["facet"], "case": s}
                for r in ok
                for s in r["samples"][:3]
            ],
            "facets": {
                r["facet"]: {
                    "evaluations": r["evaluations"],
                    "distinct": r["distinct"],
                    "distinct_nontrivial": r["nontrivial"],
                    "labels": dict(sorted(r["labels"].items())),
                    "excluded_as_known_finding": r["excluded"],
                    "stopped_early": r["stopped_early"],
                    "seconds": r["seconds"],
                }
                for r in ok
            },
            "known_findings_reproduced": found,
        },
        "assumptions": reg.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(
        os.path.join(env.VERIF, "evidence", f"{reg.prop}.json"),
        "w",
        encoding="utf-8",
    ) as fh:
        json.dump(evidence, fh, indent=1, default=core._default)

    for r in violations:
        os.makedirs(os.path.join(env.VERIF, "replays"), exist_ok=True)
        path = os.path.join("replays", f"{reg.prop}-{r['facet']}.json")
        with open(os.path.join(env.VERIF, path), "w", encoding="utf-8") as fh:
            json.dump(
                {
                    "property": reg.prop,
                    "facet": r["facet"],
                    "seed": a.seed,
                    "tier": a.tier,
                    "message": r["failure"]["message"],
                    "standalone": r["failure"]["standalone"],
                    "rerun": f"VERIF_SEED={a.seed} python run.py {reg.prop}"
                    f" --facet {r['facet']}",
                    "case": r["failure"]["case"],
                },
                fh,
                indent=1,
            )
        print(f"{r['facet']}: {r['failure']['message'][:800]}")
        print(f"  case: {core.dumps(r['failure']['case'])[:1500]}")
        print(f"VIOLATION property={reg.prop} replay={path}")
    for e in errors:
        print(f"ERROR {e}")
    print(
        f"{reg.prop} tier={a.tier} seed={a.seed}:"
        f" {evidence['coverage']['evaluations']} cases,"
        f" {evidence['coverage']['distinct_nontrivial']} distinct non-trivial,"
        f" {len(violations)} violated facet(s), {evidence['wall_s']} s"
    )
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
