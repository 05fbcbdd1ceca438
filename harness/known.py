"""Reads known_findings.txt (never writes it)."""
import json
import os

from . import env

PATH = os.path.join(env.VERIF, "known_findings.txt")


def load(prop):
    """The unrepaired findings of one property: JSON lines with the keys
    property, finding, facet, case, what."""
    out = []
    if not os.path.exists(PATH):
        return out
    with open(PATH, encoding="utf-8") as fh:
        for line in fh:
            line = line.strip()
            if line.startswith("{"):
                rec = json.loads(line)
                if rec["property"] == prop:
                    out.append(rec)
    return out
