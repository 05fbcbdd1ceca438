"""Verify the planted bugs: python3 tools/seedtest.py [ID ...] [--all-checks] [--no-check]

For each seeded/<id>: patch applies to /repo HEAD in a scratch copy, the stable tests
pass, demo.sh fails there and passes on /repo, and the property's quick check reports."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def main():
    S = os.environ.get("SEED_DIR", f"{V}/seeded")
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(S))
    base = json.load(open("/opt/vp/BASELINE.json"))
    bad = 0
    for i in ids:
        d = f"{S}/{i}"
        meta = json.load(open(f"{d}/meta.json"))
        wt = tempfile.mkdtemp(prefix="seed")
        try:
            subprocess.check_call(["bash", "-c", f"git -C /repo archive HEAD | tar -x -C {wt}"])
            sh(["git", "init", "-q"], wt)
            rc, out = sh(["git", "apply", f"{d}/patch.diff"], wt)
            if rc:
                print(i, "PATCH FAILS", out); bad += 1; continue
            rc0, o0 = sh(["bash", f"{d}/demo.sh"], "/repo", t=300)
            rc1, o1 = sh(["bash", f"{d}/demo.sh"], wt, t=300)
            msg = f"demo {rc0}/{rc1}"
            if rc0 != 0 or rc1 == 0:
                msg += " DEMO-BAD " + o0[-300:] + o1[-300:]; bad += 1
            if "--no-tests" not in sys.argv:
                rct, ot = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider",
                              "--deselect", "nothing", "--maxfail=1000", "tests"], wt)
                last = [l for l in ot.splitlines() if "passed" in l][-1:]
                msg += " tests:" + "".join(last)
            if "--no-check" not in sys.argv:
                props = [meta["property"]]
                if "--all-checks" in sys.argv:
                    props = sorted(f[:-3].upper() for f in os.listdir(f"{V}/checks") if f.startswith("c") and f.endswith(".py"))
                caught = []
                for p in props:
                    rcc, oc = sh([f"{V}/run.sh", p, "quick"], V, {"HRO_REPO": wt, "VERIF_SEED": "1"})
                    if rcc == 1 and f"VIOLATION property={p}" in oc:
                        caught.append(p)
                    elif rcc not in (0, 1):
                        caught.append(p + "?")
                msg += " caught by " + (",".join(caught) or "NOTHING")
            print(i, meta["property"], msg, flush=True)
        finally:
            shutil.rmtree(wt, ignore_errors=True)
    return bad


if __name__ == "__main__":
    sys.exit(1 if main() else 0)
