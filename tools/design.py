"""Writes DESIGN.md from design_text.md, the registered facets and seeded/*/meta.json."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import harness.env  # noqa: E402,F401


def facets(pid):
    reg = importlib.import_module("checks." + pid.lower()).REG
    fs = reg.facets.values() if isinstance(reg.facets, dict) else reg.facets
    return [(f.name, f.quick, f.rule) for f in fs], reg.assumptions


def sections(text):
    """design_text.md: '@@ Cxx' starts the paragraph of a property"""
    head, *parts = text.split("\n@@ ")
    out, tail = {}, ""
    for p in parts:
        pid, _, body = p.partition("\n")
        if pid.strip() == "END":
            tail = body
        else:
            out[pid.strip()] = body.strip()
    return head, out, tail


def main():
    head, texts, tail = sections(open(os.path.join(HERE, "tools", "design_text.md"), encoding="utf-8").read())
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    bugs = {}
    for p in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(p, encoding="utf-8"))
        bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m))
    lines = [head.strip(), "", "## 4. The properties, one by one", ""]
    lines += ["The lists of facets, case counts and rules below are taken from the checks themselves (`tools/design.py`).", ""]
    for p in props:
        pid = p["id"]
        fs, assume = facets(pid)
        lines += [f"### {pid} {p['title']}", "", texts.get(pid, "(text missing)"), "", "Facets (cases in the quick tier; thorough runs 10 times as many):", ""]
        for n, q, r in fs:
            lines.append(f"- `{n}` ({q}): {r}")
        lines += ["", "Assumed: " + "; ".join(assume) + ".", ""]
        if pid in bugs:
            lines.append("Planted: " + ", ".join(f"{b} ({m['needs']})" for b, m in bugs[pid]) + ".")
            lines.append("")
    lines.append(tail.strip())
    with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write("\n".join(lines) + "\n")
    missing = [p["id"] for p in props if p["id"] not in texts]
    print(len(lines), "lines; no text for", missing)


if __name__ == "__main__":
    main()
