#!/usr/bin/env python3
# coding=utf-8
"""plant.py [ids...] : (re)creates seeded/<id>/ from tools/bugs/*.py, verifies each bug in a scratch copy of /repo
(tests pass, demo passes without and fails with the change) and tells whether the check of its property catches it.
  --nocheck   only create and verify        --all-props   run every check, not only the one of the bug's property
  --checkonly do not repeat tests and demos"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONUTF8="1")
BUGS = []


def bug(id_, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id_, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONUTF8=1\n' \
          'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = '''import os, shutil, sys, tempfile
import bpmn_python.bpmn_diagram_rep as rep
OUT = tempfile.mkdtemp() + "/"
import atexit; atexit.register(shutil.rmtree, OUT, True)
BPMN = """<?xml version="1.0" encoding="UTF-8"?>
<definitions xmlns="http://www.omg.org/spec/BPMN/20100524/MODEL" xmlns:bpmndi="http://www.omg.org/spec/BPMN/20100524/DI"
 xmlns:omgdc="http://www.omg.org/spec/DD/20100524/DC" xmlns:omgdi="http://www.omg.org/spec/DD/20100524/DI">
%s<bpmndi:BPMNDiagram id="d1"><bpmndi:BPMNPlane id="p1" bpmnElement="P">%s</bpmndi:BPMNPlane></bpmndi:BPMNDiagram></definitions>"""
def shape(i, x=0, y=0, w=100, h=80, extra=""):
    return '<bpmndi:BPMNShape id="%s_s" bpmnElement="%s" %s><omgdc:Bounds x="%s" y="%s" width="%s" height="%s"/></bpmndi:BPMNShape>' % (i, i, extra, x, y, w, h)
def edge(i, *pts):
    return '<bpmndi:BPMNEdge id="%s_s" bpmnElement="%s">%s</bpmndi:BPMNEdge>' % (i, i, "".join('<omgdi:waypoint x="%s" y="%s"/>' % p for p in pts))
def write(text, name="in.bpmn"):
    with open(OUT + name, "w", encoding="utf-8") as f:
        f.write(text)
    return OUT + name
def load(model, di="", name="in.bpmn"):
    d = rep.BpmnDiagramGraph()
    d.load_diagram_from_xml_file(write(BPMN % (model, di), name))
    return d
def again(d, name="out.bpmn"):
    d.export_xml_file(OUT, name)
    e = rep.BpmnDiagramGraph()
    e.load_diagram_from_xml_file(OUT + name)
    return e
def load_csv(rows, name="in.csv"):
    d = rep.BpmnDiagramGraph()
    d.load_diagram_from_csv_file(write("Order,Activity,Condition,Who,Subprocess,Terminated\\n" + rows, name))
    return d
def new():
    d = rep.BpmnDiagramGraph()
    d.create_new_diagram_graph("d")
    return d, d.add_process_to_diagram("p")
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def work(b, opts):
    tmp = tempfile.mkdtemp(prefix="bug_")
    res = []
    try:
        clean, bad = tmp + "/clean", tmp + "/bad"
        for d in (clean, bad):
            subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        for path, old, new, *after in b["edits"]:
            # the only occurrence, or the first one after a text that occurs once
            text = open(bad + "/" + path).read()
            start = 0
            if after:
                if text.count(after[0]) != 1:
                    return b["id"], "EDIT-PROBLEM: %d matches of anchor %r" % (text.count(after[0]), after[0])
                start = text.index(after[0])
            n = text.count(old, start)
            if n < 1 or n > 1 and not after:
                return b["id"], "EDIT-PROBLEM: %d matches in %s of %r" % (n, path, old[:60])
            open(bad + "/" + path, "w").write(text[:start] + text[start:].replace(old, new, 1))
        diff = sh(["git", "diff"], bad).stdout
        dest = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(dest, exist_ok=True)
        open(dest + "/patch.diff", "w").write(diff)
        open(dest + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(dest + "/demo.sh", 0o755)
        open(dest + "/demo.py", "w").write(HEAD + b["demo"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(dest + "/meta.json", "w"), indent=1)
        if "--checkonly" not in opts:
            r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o",
                    "python_files=test_*.py *_test.py manually_generated_*.py", "tests"], bad)
            m = re.search(r"(\d+) passed", r.stdout)
            if r.returncode or not m or int(m.group(1)) < 83:
                res.append("TESTS-NOTICE(%s)" % r.stdout.strip().splitlines()[-1])
            r = sh(["bash", dest + "/demo.sh"], clean)
            if r.returncode:
                res.append("DEMO-FAILS-ON-CLEAN " + r.stdout[-300:])
            r = sh(["bash", dest + "/demo.sh"], bad)
            if not r.returncode:
                res.append("DEMO-PASSES-ON-BUG")
        if "--nocheck" not in opts:
            props = [b["prop"]]
            if "--all-props" in opts:
                props = sorted(os.path.basename(p)[:3].upper() for p in glob.glob(HERE + "/harness/c[0-9][0-9].py"))
            for p in props:
                v = tmp + "/verif"
                shutil.rmtree(v, ignore_errors=True)
                shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
                os.makedirs(v + "/evidence")
                r = subprocess.run([v + "/check.sh", p, "quick"], cwd=v, env=dict(ENV, VERIF_REPO=bad), text=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                caught = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
                line = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "what" in x.lower()][:2]
                res.append("%s:%s %s" % (p, "caught" if caught else "MISSED rc=%d" % r.returncode, " ".join(line)[:200]))
                if r.returncode not in (0, 1):
                    res.append(r.stdout[-800:])
        return b["id"], " | ".join(res) or "ok"
    finally:
        shutil.rmtree(tmp)


def main():
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    for f in sorted(glob.glob(os.path.join(HERE, "tools/bugs/*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"bug": bug})
    todo = [b for b in BUGS if not ids or b["id"] in ids or any(i.endswith("*") and b["id"].startswith(i[:-1]) for i in ids)]
    with cf.ThreadPoolExecutor(3) as ex:
        for f in cf.as_completed([ex.submit(work, b, opts) for b in todo]):
            print(*f.result(), flush=True)


main()
