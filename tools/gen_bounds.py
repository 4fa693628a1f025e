#!/opt/venv/bin/python
"""Writes BOUNDS.md: every case with its tier and bounds (from the harnesses)."""
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from symex import run  # noqa: E402

run.bootstrap()
from symex import harness  # noqa: E402

out = ["# Cases and bounds", "",
       "Generated by `tools/gen_bounds.py` from the harnesses. The thorough tier runs the quick cases as well.", ""]
for f in sorted(os.listdir(os.path.join(ROOT, "props"))):
    if f[0] == "c" and f[1:3].isdigit():
        m = importlib.import_module("props." + f[:-3])
        out += ["## " + f[:-3].upper() + ": " + (m.__doc__ or "").split(":", 1)[-1].strip().replace("\n", " "), ""]
        for a in getattr(m, "ASSUMPTIONS", []):
            out.append("*assumes:* " + a + "  ")
        out.append("")
        seen = set()
        for c in harness.CASES:
            if c.prop == f[:-3].upper() and c.name not in seen:
                seen.add(c.name)
                out.append("* `%s` (%s): %s" % (c.name, c.tier, " ".join(str(c.bounds).split())))
        out.append("")
open(os.path.join(ROOT, "BOUNDS.md"), "w").write("\n".join(out))
