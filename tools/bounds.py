"""writes BOUNDS.md: the harnesses of every property with their bounds (run with /opt/venv/bin/python)"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symex import run  # noqa: sets the module path up
out = ["# Harnesses and bounds", "",
       "Written by `tools/bounds.py` from the harness modules. Values in parentheses are those of the thorough tier.", ""]
for i in range(1, 40):
    if not os.path.exists("%s/harness/c%02d.py" % (HERE, i)):
        continue
    m = importlib.import_module("harness.c%02d" % i)
    out.append("## C%02d %s" % (i, m.__doc__.strip().split(": ", 1)[-1].split("\n")[0]))
    for h in m.HARNESSES:
        out.append("- `%s`%s: %s" % (h.name, "" if h.only is None else " (%s only)" % h.only, h.bounds))
    for a in getattr(m, "ASSUMPTIONS", []):
        out.append("- assumption: " + a)
    out.append("")
open(HERE + "/BOUNDS.md", "w").write("\n".join(out))
