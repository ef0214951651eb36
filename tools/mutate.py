"""Mutation sweep (development tool, registered nowhere): applies small syntactic changes to scratch copies of the
project, keeps those the existing tests accept, and reports which of them no check notices.

python3-vt tools/mutate.py OUTDIR [--workers N] [--files REGEX] [--sample N] [--seed N] [--scale X]
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
CHECKS = [
    (r"container/(utils|set)|tile/definition", "C02 C01 C03 C04 C11 C07"),
    (r"pattern/win\.py", "C03 C04 C08 C05"),
    (r"pattern/reasoning", "C06 C07 C08 C05 C25"),
    (r"distribution", "C27 C28"),
    (r"win_rate_demo", "C28"),
    (r"category", "C09"),
    (r"stage", "C10 C32 C14"),
    (r"value/tile|const\.py", "C11 C15 C25"),
    (r"value/meld", "C12 C17 C16 C15 C18"),
    (r"utils/bit", "C13 C12"),
    (r"gametype", "C13 C14"),
    (r"record/reader", "C14 C29 C16 C19 C15 C26"),
    (r"record/player|record/__init__", "C32 C14 C15 C17"),
    (r"record/state", "C15 C12 C25"),
    (r"utils/event", "C17 C16 C32 C14 C15 C18"),
    (r"util_functions", "C24 C33 C21"),
    (r"builder", "C31 C30 C19"),
    (r"xml_macher", "C30 C19 C18"),
    (r"universe/translator|universe/interpreter|universe/tenhou/__init__", "C30 C19 C18 C22"),
    (r"event_definition", "C18 C19 C22"),
    (r"universe/format|property_manager", "C20 C33 C18 C21 C22 C19"),
    (r"universe/command", "C20 C33 C19 C21 C18"),
    (r"universe/executor", "C23 C22 C21 C18 C19"),
    (r"tenhou_record_check", "C11 C26 C25"),
    (r"record/checker", "C26 C29"),
    (r"universe_paifu_convert", "C29"),
    (r".", "C16 C17 C18 C14 C20"),
]
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mod], ast.Mod: [ast.FloorDiv],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift],
       ast.Div: [ast.Mult]}


def variants(node):
    """[(description, function(node) -> replacement or None for in-place)] for one node."""
    out = []
    if isinstance(node, ast.Compare):
        for op in CMP.get(type(node.ops[0]), []):
            out.append(("cmp " + op.__name__, lambda n, op=op: setattr(n, "ops", [op()] + n.ops[1:])))
    if isinstance(node, ast.BinOp):
        for op in BIN.get(type(node.op), []):
            out.append(("bin " + op.__name__, lambda n, op=op: setattr(n, "op", op())))
    if isinstance(node, ast.AugAssign):
        for op in BIN.get(type(node.op), []):
            out.append(("aug " + op.__name__, lambda n, op=op: setattr(n, "op", op())))
    if isinstance(node, ast.BoolOp):
        out.append(("boolop", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
        if len(node.values) > 1:
            for i in range(len(node.values)):
                out.append(("drop operand %d" % i, lambda n, i=i: n.values.pop(i)))
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        out.append(("negate test", lambda n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
    if isinstance(node, ast.comprehension) and node.ifs:
        out.append(("drop filter", lambda n: setattr(n, "ifs", [])))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        out.append(("drop not", lambda n: setattr(n, "op", ast.Not()) or setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand))))
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            out.append(("flip", lambda n: setattr(n, "value", not n.value)))
        elif isinstance(node.value, int):
            out.append(("+1", lambda n: setattr(n, "value", n.value + 1)))
            out.append(("-1", lambda n: setattr(n, "value", n.value - 1)))
        elif isinstance(node.value, str) and node.value:
            out.append(("str", lambda n: setattr(n, "value", n.value[:-1] if len(n.value) > 1 else n.value + "x")))
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            out.append(("drop kw %s" % node.keywords[i].arg, lambda n, i=i: n.keywords.pop(i)))
        if len(node.args) == 2:
            out.append(("swap args", lambda n: n.args.reverse()))
        if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "set", "list", "tuple", "reversed") and len(node.args) == 1:
            out.append(("unwrap call", "unwrap"))
        if isinstance(node.func, ast.Name) and node.func.id in ("min", "max", "any", "all"):
            m = {"min": "max", "max": "min", "any": "all", "all": "any"}[node.func.id]
            out.append(("to " + m, lambda n, m=m: setattr(n.func, "id", m)))
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        for f in ("lower", "upper", "step"):
            if getattr(node.slice, f) is not None:
                out.append(("drop slice " + f, lambda n, f=f: setattr(n.slice, f, None)))
    if isinstance(node, ast.Return) and node.value is not None and not isinstance(node.value, ast.Constant):
        out.append(("return None", lambda n: setattr(n, "value", ast.Constant(None))))
    if isinstance(node, (ast.Break,)):
        out.append(("break->continue", "continue"))
    if isinstance(node, (ast.Continue,)):
        out.append(("continue->break", "break"))
    return out


def key(m):
    return m["file"], m["kind"], m.get("k"), m.get("vi"), m.get("si")


def statements(tree):
    """(parent list, index) of removable statements."""
    for node in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            body = getattr(node, field, None)
            if isinstance(body, list):
                for i, s in enumerate(body):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        yield node, field, i


def mutants(path, rel):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    base = ast.parse(src)
    nodes = list(ast.walk(base))
    out = []
    lines = src.split("\n")
    for k, node in enumerate(nodes):
        if "logg" in lines[getattr(node, "lineno", 1) - 1]:
            continue
        for vi, (name, _) in enumerate(variants(node)):
            out.append({"file": rel, "kind": "node", "k": k, "vi": vi, "name": name,
                        "line": getattr(node, "lineno", 0)})
    for si, (node, field, i) in enumerate(statements(base)):
        out.append({"file": rel, "kind": "stmt", "si": si, "name": "delete statement",
                    "line": getattr(node, field)[i].lineno})
    return out


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return self.new
        return self.generic_visit(node)


def render(src, m):
    tree = ast.parse(src)
    if m["kind"] == "stmt":
        node, field, i = list(statements(tree))[m["si"]]
        getattr(node, field)[i] = ast.copy_location(ast.Pass(), getattr(node, field)[i])
    else:
        node = list(ast.walk(tree))[m["k"]]
        name, fn = variants(node)[m["vi"]]
        if fn == "unwrap":
            Replace(node, node.args[0]).visit(tree)
        elif fn == "continue":
            Replace(node, ast.Continue()).visit(tree)
        elif fn == "break":
            Replace(node, ast.Break()).visit(tree)
        else:
            fn(node)
    return ast.unparse(ast.fix_missing_locations(tree)) + "\n"


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8", HOME="/root",
           PATH="/opt/pypyvenv/bin:/usr/local/bin:/usr/bin:/bin")


def run(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""


def judge(m, copy_dir, scale):
    path = os.path.join(copy_dir, m["file"])
    orig = os.path.join("/repo", m["file"])
    with open(orig, encoding="utf-8") as f:
        src = f.read()
    try:
        text = render(src, m)
    except Exception as e:
        return "invalid", str(e)[:80]
    if ast.dump(ast.parse(text)) == ast.dump(ast.parse(src)):
        return "same", ""
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    try:
        rc, out = run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=120",
                       "--ignore=tests/test_checker.py", "--ignore=tests/paifu/test_tenhouRecord.py", "tests"],
                      copy_dir, 240)
        if rc != 0:
            return "tests", ""
        checks = next(c for r, c in CHECKS if re.search(r, m["file"])).split()
        odd = []
        for c in checks:
            rc, out = run(["bash", os.path.join(ROOT, "check.sh"), c, "--no-evidence", "--shards", "1", "--scale",
                           str(scale)], ROOT, 400, dict(ENV, VERIF_REPO=copy_dir))
            if rc == 1 and "VIOLATION" in out:
                return "caught", c
            if rc != 0:
                odd.append("%s:%s" % (c, rc))
        return "survived", " ".join(odd)
    finally:
        shutil.copyfile(orig, path)


def worker(k, jobs, results, outdir, scale):
    copy_dir = os.path.join(outdir, "w%d" % k)
    if os.path.exists(copy_dir):
        shutil.rmtree(copy_dir)
    shutil.copytree("/repo", copy_dir, symlinks=True)
    while True:
        m = jobs.get()
        if m is None:
            break
        t = time.time()
        try:
            verdict, info = judge(m, copy_dir, scale)
        except Exception as e:
            verdict, info = "error", repr(e)[:200]
        results.put(dict(m, verdict=verdict, info=info, t=round(time.time() - t, 1)))
    shutil.rmtree(copy_dir)
    results.put(None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("outdir")
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--files", default=".")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--scale", type=float, default=0.15)
    ap.add_argument("--only", help="json lines file of mutants to judge again (verdict survived)")
    ap.add_argument("--skip", help="json lines file of mutants judged already")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    os.makedirs(a.outdir, exist_ok=True)
    if a.only:
        todo = [json.loads(x) for x in open(a.only)]
        todo = [m for m in todo if m["verdict"] == "survived"]
    else:
        todo = []
        for base, _, files in os.walk("/repo/mahjong"):
            for f in sorted(files):
                rel = os.path.relpath(os.path.join(base, f), "/repo")
                if f.endswith(".py") and re.search(a.files, rel):
                    todo += mutants(os.path.join(base, f), rel)
        random.Random(a.seed).shuffle(todo)
        if a.sample:
            todo = todo[:a.sample]
    if a.skip:
        done = {key(json.loads(x)) for x in open(a.skip)}
        todo = [m for m in todo if key(m) not in done]
    print(len(todo), "mutants")
    if a.list:
        return
    jobs, results = mp.Queue(), mp.Queue()
    for m in todo:
        jobs.put(m)
    for _ in range(a.workers):
        jobs.put(None)
    ps = [mp.Process(target=worker, args=(k, jobs, results, a.outdir, a.scale)) for k in range(a.workers)]
    for p in ps:
        p.start()
    left = a.workers
    with open(os.path.join(a.outdir, "results.jsonl"), "a") as f:
        while left:
            r = results.get()
            if r is None:
                left -= 1
                continue
            f.write(json.dumps(r) + "\n")
            f.flush()
    print("done")


main()
