"""
Mutation of /repo's sources, to find what the checks do not see.  Development aid, no check uses it.

    python3 tools/mutate.py OUT.jsonl [--files a,b] [--n N] [--seed S] [--jobs J]

Each mutant is tried on the repository's own tests (killed there: uninteresting) and then on the checks of the
properties its file is relevant for, until one reports a violation.
"""
import argparse
import ast
import concurrent.futures as cf
import glob
import json
import os
import queue
import random
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = {
    "bpmn_diagram_import": "C01 C07 C21 C04 C03 C02 C05 C20",
    "bpmn_import_utils": "C01 C02 C07 C10",
    "bpmn_diagram_export": "C02 C05 C03 C04 C20 C22",
    "bpmn_diagram_layouter": "C12 C13 C22",
    "bpmn_diagram_metrics": "C14 C15 C17 C20",
    "diagram_layout_metrics": "C17 C16",
    "bpmn_diagram_rep": "C06 C08 C21 C07 C01 C20 C02",
    "bpmn_diagram_visualizer": "C19 C20",
    "bpmn_process_csv_export": "C09 C11 C20",
    "bpmn_process_csv_import": "C10 C11 C22 C07 C21",
    "bpmn_python_consts": "C01 C06 C02 C09",
    "grid_cell_class": "C12 C13",
    "bpmn_diagram_exception": "C06",
}
PAIRS = [("height", "width"), ("x", "y"), ("incoming_flow", "outgoing_flow"), ("source_ref", "target_ref"), ("name", "id"),
         ("node_name", "id"), ("start_event", "end_event"), ("task", "user_task"), ("process", "id"),
         ("intermediate_catch_event", "intermediate_throw_event")]
SWAP = {}
for a, b in PAIRS:
    SWAP.setdefault(a, []).append(b)
    SWAP.setdefault(b, []).append(a)
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    tree = ast.parse(src)
    raw = src.encode()
    assert len(raw) == len(src) or True

    def off(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]

    out = []

    def rep(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, src[:a] + new + src[b:], src[a:b].strip()[:70], new.strip()[:70]))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n.value)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            rep(n, "(%s %s %s)" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "compare")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join("(" + text(v) + ")" for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                o = " and " if isinstance(n.op, ast.And) else " or "
                rep(n, "(" + o.join("(" + text(v) + ")" for j, v in enumerate(n.values) if j != i) + ")", "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(" + text(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            new = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}[type(n.op)]
            if not any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
                rep(n, "(%s %s %s)" % (text(n.left), new, text(n.right)), "arith")
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), "const")
                if n.value:
                    rep(n, str(n.value - 1), "const")
            elif isinstance(n.value, str):
                rep(n, repr("" if n.value else "x"), "const")
        elif isinstance(n, ast.If):
            rep(n.test, "True", "if")
            rep(n.test, "False", "if")
        elif isinstance(n, ast.IfExp):
            rep(n, "(%s)" % text(n.body), "ifexp")
            rep(n, "(%s)" % text(n.orelse), "ifexp")
        elif isinstance(n, ast.While):
            rep(n.test, "(%s) and False" % text(n.test), "while")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Return)) or isinstance(n, ast.Expr) and n.value not in docs:
            if not (isinstance(n, ast.Return) and n.value is None):
                rep(n, "pass" if not isinstance(n, ast.Return) else "return None", "delete")
        elif isinstance(n, ast.Break):
            rep(n, "continue", "break")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "continue")
            rep(n, "pass", "continue")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and text(n).startswith("consts.Consts."):
            for o in SWAP[n.attr]:
                rep(n, "consts.Consts." + o, "swap")
        if isinstance(n, ast.For):
            rep(n.iter, "list(%s)[1:]" % text(n.iter), "for")
            rep(n.iter, "list(%s)[:-1]" % text(n.iter), "for")
            rep(n.iter, "list(%s)[::-1]" % text(n.iter), "for reversed")
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            for i in range(len(n.args) - 1):
                a = [text(x) for x in n.args]
                a[i], a[i + 1] = a[i + 1], a[i]
                rep(n, "%s(%s)" % (text(n.func), ", ".join(a)), "args")
    res = []
    for m in out:
        try:
            compile(m[2], path, "exec")
        except SyntaxError:
            continue
        res.append(m)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--n", type=int, default=10 ** 9)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--tests-only", action="store_true")
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"], d["old"], d["new"]))
    todo = []
    root = "/repo/bpmn_python"
    for p in sorted(glob.glob(root + "/**/*.py", recursive=True)):
        base = os.path.basename(p)[:-3]
        props = PROPS.get(base) or ("C18" if "/graph/" in p else None)
        if props is None or base == "__init__" or a.files and base not in a.files.split(",") and \
                not ("graph" in a.files.split(",") and "/graph/" in p):
            continue
        for m in mutants(p):
            key = (os.path.relpath(p, "/repo"), m[0], m[1], m[3], m[4])
            if key not in done:
                todo.append((key, m[2], props.split()))
    random.Random(a.seed).shuffle(todo)
    todo = todo[:a.n]
    print(len(todo), "mutants")
    base = tempfile.mkdtemp(prefix="mut_")
    slots = queue.Queue()
    for i in range(a.jobs):
        d = "%s/%d" % (base, i)
        os.makedirs(d)
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
        os.makedirs(d + "/verif/evidence")
        slots.put(d)

    def work(item):
        key, text, props = item
        d = slots.get()
        f = d + "/repo/" + key[0]
        orig = open(f).read()
        rec = {"file": key[0], "line": key[1], "what": key[2], "old": key[3], "new": key[4]}
        try:
            open(f, "w").write(text)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", VERIF_REPO=d + "/repo", VERIF_JOBS="3",
                       TMPDIR=d)
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "-o",
                                    "python_files=test_*.py *_test.py manually_generated_*.py", "tests"], cwd=d + "/repo", env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                m = re.search(r"(\d+) passed", r.stdout)
                ok = not r.returncode and m and int(m.group(1)) >= 83
            except subprocess.TimeoutExpired:
                ok = False
            subprocess.run("git checkout -q -- tests output 2>/dev/null; git clean -fdq tests output", shell=True, cwd=d + "/repo")
            if not ok:
                rec["result"] = "tests"
            elif a.tests_only:
                rec["result"] = "survives tests"
            else:
                rec["result"] = "SURVIVES"
                for p in props:
                    try:
                        r = subprocess.run([d + "/verif/check.sh", p, "quick"], cwd=d + "/verif", env=env, text=True, timeout=900,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                        out, rc = r.stdout, r.returncode
                    except subprocess.TimeoutExpired:
                        out, rc = "", 124
                    bad = [l for l in out.splitlines() if re.search(r"(disc|spur|pins)=[1-9]|no verdict|exhausted=False|MISSING", l)]
                    if bad:
                        rec.setdefault("notes", []).extend(p + " " + b[:160] for b in bad[:3])
                    if rc not in (0, 1):
                        rec.setdefault("notes", []).append("%s rc=%s %s" % (p, rc, out[-300:]))
                    if rc == 1:
                        rec["result"] = p
                        break
        finally:
            open(f, "w").write(orig)
            shutil.rmtree(d + "/verif/replays", ignore_errors=True)
            slots.put(d)
        return rec

    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as o:
            for fu in cf.as_completed([ex.submit(work, t) for t in todo]):
                o.write(json.dumps(fu.result()) + "\n")
                o.flush()
    finally:
        shutil.rmtree(base)


main()
