#!/usr/bin/env python3
# coding=utf-8
"""trial.py FILE.py [names...] : applies each change of FILE.py (T(name, props, edits[, quiet=True])) to a scratch copy
of /repo, runs the repository's tests and the checks of the given properties on it.
quiet=True: the change keeps the behaviour, every check has to stay quiet."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONUTF8="1", VERIF_JOBS="4")
P = "bpmn_python/"
NAMES = dict(P=P, IMP=P + "bpmn_diagram_import.py", EXP=P + "bpmn_diagram_export.py", REP=P + "bpmn_diagram_rep.py",
             LAY=P + "bpmn_diagram_layouter.py", MET=P + "bpmn_diagram_metrics.py", LM=P + "diagram_layout_metrics.py",
             CI=P + "bpmn_process_csv_import.py", CE=P + "bpmn_process_csv_export.py", IU=P + "bpmn_import_utils.py",
             VIS=P + "bpmn_diagram_visualizer.py", G=P + "graph/classes/")
LIST = []


def T(name, props, edits, quiet=False):
    LIST.append((name, props.split(), edits, quiet))


def work(t):
    name, props, edits, quiet = t
    tmp = tempfile.mkdtemp(prefix="trial_")
    try:
        bad = tmp + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", bad], check=True)
        for path, old, new, *after in edits:
            text = open(bad + "/" + path).read()
            start = 0
            if old.startswith("@func:"):
                # the whole function of that name is replaced
                import ast
                ds = [d for d in ast.walk(ast.parse(text)) if isinstance(d, ast.FunctionDef) and d.name == old[6:]]
                if len(ds) != 1:
                    return name, "EDIT-PROBLEM: %d functions %s" % (len(ds), old)
                lines = text.split("\n")
                lo = min([ds[0].lineno] + [x.lineno for x in ds[0].decorator_list]) - 1
                lines[lo:ds[0].end_lineno] = new.strip("\n").split("\n")
                open(bad + "/" + path, "w").write("\n".join(lines))
                continue
            if after:
                if text.count(after[0]) != 1:
                    return name, "EDIT-PROBLEM: %d matches of anchor %r" % (text.count(after[0]), after[0])
                start = text.index(after[0])
            n = text.count(old, start)
            if n < 1 or n > 1 and not after:
                return name, "EDIT-PROBLEM: %d matches in %s of %r" % (n, path, old[:60])
            open(bad + "/" + path, "w").write(text[:start] + text[start:].replace(old, new, 1))
        res = []
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o",
                            "python_files=test_*.py *_test.py manually_generated_*.py", "tests"], cwd=bad, env=ENV, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        m = re.search(r"(\d+) passed", r.stdout)
        if r.returncode or not m or int(m.group(1)) < 83:
            res.append("TESTS(%s)" % r.stdout.strip().splitlines()[-1])
        for p in props:
            v = tmp + "/verif"
            shutil.rmtree(v, ignore_errors=True)
            shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
            os.makedirs(v + "/evidence")
            r = subprocess.run([v + "/check.sh", p, "quick"], cwd=v, env=dict(ENV, VERIF_REPO=bad, VERIF_VERBOSE="1"), text=True,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            caught = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
            line = [x for x in r.stdout.splitlines() if "VIOLATION" in x][:1]
            odd = set(re.findall(r"(?:disc|spur|unk)=[1-9]\d*", r.stdout))
            if quiet:
                res.append("%s:%s" % (p, "quiet" if r.returncode == 0 else "ALARM rc=%d %s" % (r.returncode, r.stdout[-600:])))
                if "exhausted=False" in r.stdout:
                    res.append("(not exhausted)")
            else:
                res.append("%s:%s" % (p, "caught" if caught else "MISSED rc=%d" % r.returncode))
            if odd:
                res.append(" ".join(sorted(odd)))
            if r.returncode not in (0, 1):
                res.append(r.stdout[-800:])
        return name, " | ".join(res)
    finally:
        shutil.rmtree(tmp)


def main():
    with open(sys.argv[1]) as f:
        exec(compile(f.read(), sys.argv[1], "exec"), dict(NAMES, T=T))
    todo = [t for t in LIST if not sys.argv[2:] or t[0] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(int(os.environ.get("TRIALS", "3"))) as ex:
        for f in cf.as_completed([ex.submit(work, t) for t in todo]):
            print(*f.result(), flush=True)


main()
