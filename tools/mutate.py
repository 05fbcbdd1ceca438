"""Mutation testing of the checks: small changes of the library that its own tests accept.

python3 tools/mutate.py WORKDIR OUT.jsonl [--files a.py,b.py] [--share 0.2] [--seed 1] [--jobs 4] [--scale 1]

Works on scratch copies of /repo and /verif in WORKDIR (which is created); every
mutant is run against the repository's tests and, where these pass, against the
checks of the properties concerned until one of them reports it."""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WHICH = {
    "core/computing.py": "C10 C09 C20 C19 C17 C07 C23 C35",
    "core/data.py": "C11 C12 C13 C33 C14 C35",
    "core/constants.py": "C12 C33 C17 C20",
    "core/statistics.py": "C28 C34 C14",
    "core/modelfunctions/__init__.py": "C36 C09",
    "core/modelfunctions/_models2d.py": "C36 C09",
    "cruising/basics.py": "C26 C27 C35",
    "models/globe_model.py": "C25 C27 C35",
    "models/influencemodel.py": "C23 C27 C26 C35",
    "models/weather_model.py": "C24 C34 C27 C35",
    "pipeline/expander.py": "C34 C28",
    "pipeline/extensions.py": "C29 C28 C35",
    "pipeline/pipeline.py": "C28",
    "pipeline/quality_assurance.py": "C30",
    "plotting/projections.py": "C31 C32",
    "polardiagram/_basepolardiagram.py": "C07 C08 C31 C35",
    "polardiagram/_polardiagramtable.py": "C03 C04 C02 C01 C06 C07 C35",
    "polardiagram/_polardiagrampointcloud.py": "C05 C01 C06 C07 C35",
    "polardiagram/_polardiagramcurve.py": "C09 C01 C06 C07 C35",
    "polardiagram/_polardiagrammultisails.py": "C08 C01 C06 C07 C35",
    "polardiagram/_reading.py": "C01 C02",
    "processing/datahandler.py": "C33 C28",
    "processing/filter.py": "C16",
    "processing/imputator.py": "C14",
    "processing/injector.py": "C22 C28",
    "processing/interpolator.py": "C19 C05",
    "processing/neighbourhood.py": "C20 C05",
    "processing/regressor.py": "C22",
    "processing/sampler.py": "C21",
    "processing/smoother.py": "C15",
    "processing/weigher.py": "C17 C18",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor",
         "argmin": "argmax", "argmax": "argmin", "deg2rad": "rad2deg", "rad2deg": "deg2rad", "append": "insert_", "mean": "sum",
         "bisect_left": "bisect_right", "zeros": "ones", "ones": "zeros", "column_stack": "row_stack"}
DROP = {"copy", "sorted", "abs", "list", "reversed", "flip", "float", "sqrt", "set", "lower", "strip"}


def mutants(tree):
    """-> [(node index in ast.walk, kind)]"""
    out = []
    docs = set()
    for n in ast.walk(tree):
        body = getattr(n, "body", None)
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and body:
            f = body[0]
            if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
                docs.add(id(f)), docs.add(id(f.value))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__", "__str__"):
            skip.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(ast.walk(tree)):
        if id(n) in docs or id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((i, "cmp"))
            if type(n.ops[0]) in FLIP:
                out.append((i, "flip"))
        elif isinstance(n, ast.BinOp):
            if type(n.op) in BIN:
                out.append((i, "bin"))
            elif isinstance(n.op, ast.Mod) and not isinstance(n.left, (ast.Constant, ast.JoinedStr)):
                out.append((i, "left"))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            out.append((i, "bin"))
            out.append((i, "pass"))
        elif isinstance(n, ast.UnaryOp):
            out.append((i, "unary"))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool"))
            out.append((i, "first"))
            out.append((i, "last"))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                out.append((i, "not"))
            elif isinstance(n.value, int):
                out += [(i, "+1"), (i, "-1")] if n.value else [(i, "+1")]
            elif isinstance(n.value, float):
                out.append((i, "*1.1"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out += [(i, "true"), (i, "false")]
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if name in NAMES:
                out.append((i, "name"))
            if name in DROP and (n.args or isinstance(n.func, ast.Attribute)):
                out.append((i, "drop"))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                out.append((i, "swap"))
            for k in range(len(n.keywords)):
                out.append((i, f"kw{k}"))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append((i, "pass"))
        elif isinstance(n, (ast.Assign, ast.Delete)):
            if isinstance(n, ast.Delete) or isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                out.append((i, "pass"))
        elif isinstance(n, ast.Raise):
            out.append((i, "pass"))
        elif isinstance(n, ast.Continue):
            out.append((i, "break"))
        elif isinstance(n, ast.Break):
            out.append((i, "continue"))
        elif isinstance(n, ast.Slice):
            if n.lower is not None or n.upper is not None:
                out.append((i, "slice"))
    return out


def mutate(source, index, kind):
    """-> mutated source, description"""
    tree = ast.parse(source)
    n = list(ast.walk(tree))[index]
    before = ast.unparse(n).split("\n")[0]
    line = getattr(n, "lineno", 0)
    new = n
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "flip":
        n.ops[0] = FLIP[type(n.ops[0])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "left":
        new = n.left
    elif kind == "unary":
        new = n.operand
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "first":
        new = n.values[0]
    elif kind == "last":
        new = n.values[-1]
    elif kind == "not":
        n.value = not n.value
    elif kind in ("+1", "-1"):
        n.value += int(kind)
    elif kind == "*1.1":
        n.value = n.value * 1.1 if n.value else 0.1
    elif kind in ("true", "false"):
        n.test = ast.Constant(kind == "true")
    elif kind == "name":
        if isinstance(n.func, ast.Attribute):
            n.func.attr = NAMES[n.func.attr]
        else:
            n.func.id = NAMES[n.func.id]
    elif kind == "drop":
        new = n.args[0] if n.args else n.func.value
    elif kind == "swap":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind.startswith("kw"):
        del n.keywords[int(kind[2:])]
    elif kind == "pass":
        new = ast.Pass()
    elif kind == "break":
        new = ast.Break()
    elif kind == "continue":
        new = ast.Continue()
    elif kind == "slice":
        if n.lower is not None:
            n.lower = ast.BinOp(n.lower, ast.Add(), ast.Constant(1))
        else:
            n.upper = ast.BinOp(n.upper, ast.Sub(), ast.Constant(1))
    after = ast.unparse(new).split("\n")[0]
    if new is not n:

        class R(ast.NodeTransformer):
            def visit(self, x):
                return ast.copy_location(new, n) if x is n else self.generic_visit(x)

        tree = R().visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree)), f"{line}: {before}  ->  {after}"


def run(cmd, cwd, limit, env=None):
    p = subprocess.Popen(
        ["bash", "-c", "ulimit -v 12000000; exec " + cmd], cwd=cwd, env=dict(os.environ, **(env or {})),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
    )
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"


def worker(k, jobs, results, work, scale):
    repo, verif = f"{work}/repo{k}", f"{work}/verif{k}"
    env = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "VERIF_SHRINK": "0"}
    while True:
        job = jobs.get()
        if job is None:
            results.put(None)
            return
        path, index, kind = job
        f = f"{repo}/hrosailing/{path}"
        with open(f, encoding="utf-8") as fh:
            src = fh.read()
        rec = {"file": path, "index": index, "kind": kind}
        try:
            text, rec["what"] = mutate(src, index, kind)
            with open(f, "w", encoding="utf-8") as fh:
                fh.write(text)
            rc, out = run(
                f"{PY} -m pytest -q -x -p no:cacheprovider --timeout=60 --no-header --tb=no"
                " --deselect tests/test_processing/test_weigher/test_CylindricMeanWeigher.py::TestCylindricMeanWeigher"
                "::test__calculate_weight --deselect tests/test_polardiagram/test_polardiagrampointcloud/"
                "test_polar_diagram_pointcloud.py::TestPolarDiagramPointCloud"
                "::test_ws_to_slices_with_interpolator_should_interpolate tests",
                repo, 180, env,
            )
            last = out.strip().splitlines()[-1] if out.strip() else ""
            if rc != 0:
                rec["by"] = "tests"
                rec["how"] = last[:120]
            else:
                rec["by"] = None
                tried = []
                for c in WHICH[path].split():
                    rc, out = run(f"./run.sh {c} quick --scale {scale}", verif, 600, dict(env, HRO_REPO=repo))
                    tried.append(f"{c}={rc}")
                    if rc == 1 and f"VIOLATION property={c}" in out:
                        rec["by"] = c
                        lines = [x for x in out.splitlines() if not x.startswith(("VIOL", "  case", "C"))]
                        rec["how"] = (lines or [""])[0][:200]
                        break
                    if rc not in (0, 1):
                        rec["by"] = f"{c}?"
                        rec["how"] = out[-300:]
                        break
                rec["tried"] = tried
        except Exception as e:  # noqa: BLE001
            rec["by"] = "broken"
            rec["how"] = repr(e)[:200]
        finally:
            with open(f, "w", encoding="utf-8") as fh:
                fh.write(src)
        results.put(rec)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("work")
    a.add_argument("out")
    a.add_argument("--files", default=",".join(WHICH))
    a.add_argument("--share", type=float, default=1.0)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--jobs", type=int, default=4)
    a.add_argument("--scale", default="1")
    a = a.parse_args()
    os.makedirs(a.work, exist_ok=True)
    done = set()
    if os.path.exists(a.out):
        done = {(r["file"], r["index"], r["kind"]) for r in map(json.loads, open(a.out))}
    rnd = random.Random(a.seed)
    todo = []
    for path in a.files.split(","):
        with open(f"/repo/hrosailing/{path}", encoding="utf-8") as fh:
            found = mutants(ast.parse(fh.read()))
        todo += [(path, *m) for m in found if rnd.random() < a.share and (path, *m) not in done]
    rnd.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    jobs, results = mp.Queue(), mp.Queue()
    for t in todo:
        jobs.put(t)
    ps = []
    for k in range(a.jobs):
        jobs.put(None)
        for name, src in (("repo", "/repo"), ("verif", V)):
            d = f"{a.work}/{name}{k}"
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(src, d, ignore=shutil.ignore_patterns(".git", "__pycache__", "evidence", "seeded", "replays"))
        p = mp.Process(target=worker, args=(k, jobs, results, a.work, a.scale))
        p.start()
        ps.append(p)
    left = a.jobs
    n = 0
    with open(a.out, "a", encoding="utf-8") as out:
        while left:
            r = results.get()
            if r is None:
                left -= 1
                continue
            n += 1
            out.write(json.dumps(r) + "\n")
            out.flush()
    for p in ps:
        p.join()
    for k in range(a.jobs):
        for name in ("repo", "verif"):
            shutil.rmtree(f"{a.work}/{name}{k}", ignore_errors=True)
    print("done", n)


if __name__ == "__main__":
    main()
