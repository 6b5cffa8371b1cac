"""Small source mutations, to see what the test suite and the checks notice.

mutate.py list                       all mutants as JSON lines
mutate.py tests IN OUT WORKERS       those of IN that the test suite does not notice
mutate.py checks IN OUT RUNS         which check notices each of IN"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import shutil
import subprocess
import sys

REPO = os.environ.get("MUTATE_REPO", "/repo")
FILES = ["process.py", "parse.py", "serialize.py", "map.py", "validate.py", "resolve/resolver.py", "resolve/graph.py",
         "resolve/graph_builder.py", "resolve/graph_elements.py", "resolve/logger.py", "util/xml_parse.py",
         "util/html_generator.py", "util/process_parse_model_convert.py", "model/process.py", "model/types.py"]
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}

SWAP = {"min": "max", "max": "min", "any": "all", "all": "any"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(rel):
    path = os.path.join(REPO, "src/svdsuite", rel)
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for x in lines:
        offs.append(offs[-1] + len(x.encode()) + 1)

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, kind):
        a, b = pos(n)
        out.append({"file": rel, "line": n.lineno, "a": a, "b": b, "new": new, "kind": kind, "old": seg(src, n)[:80]})
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"{seg(src, n.left)} {CMP[type(n.ops[0])]} {seg(src, n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(" + seg(src, v) + ")" for v in n.values) + ")", "bool")
            for k in range(len(n.values)):
                o2 = " and " if isinstance(n.op, ast.And) else " or "
                rest = [v for j, v in enumerate(n.values) if j != k]
                add(n, "(" + o2.join("(" + seg(src, v) + ")" for v in rest) + ")", "drop-cond")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str(n.value + 1), "const")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
            if not any(isinstance(x, (ast.JoinedStr,)) for x in (n.left, n.right)):
                add(n, f"({seg(src, n.left)}) {'-' if isinstance(n.op, ast.Add) else '+'} ({seg(src, n.right)})", "arith")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, f"(not ({seg(src, n.test)}))", "negate")
            add(n.test, "False", "never")
        elif isinstance(n, ast.IfExp):
            add(n, f"({seg(src, n.orelse)})", "ifexp-else")
            add(n, f"({seg(src, n.body)})", "ifexp-body")
        elif isinstance(n, (ast.Continue, ast.Break, ast.Raise)):
            add(n, "pass", "stmt")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "call")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
            add(n, "pass", "assign")
        elif isinstance(n, ast.For):
            add(n.iter, f"list({seg(src, n.iter)})[::-1]", "reversed")
            add(n.iter, f"list({seg(src, n.iter)})[:-1]", "all-but-last")
            add(n.iter, f"list({seg(src, n.iter)})[:1]", "first-only")
        elif isinstance(n, ast.Call):
            f = seg(src, n.func)
            if f in SWAP:
                add(n.func, SWAP[f], "swap")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("lower", "upper", "strip", "copy") and not n.args:
                add(n, seg(src, n.func.value), "no-" + n.func.attr)
            if f == "or_if_none":
                add(n, "(" + seg(src, n.args[0]) + ")", "no-inherit")
            if f == "sorted":
                add(n, "list(" + seg(src, n.args[0]) + ")", "unsorted")
            if f in ("list", "copy.copy", "copy.deepcopy"):
                if n.args:
                    add(n, "(" + seg(src, n.args[0]) + ")", "no-copy")
            for k in n.keywords:
                if k.arg and not (isinstance(k.value, ast.Constant) and k.value.value is None):
                    add(k.value, "None", "kw-none")
    return out


def apply(w, m):
    p = os.path.join(w, "src/svdsuite", m["file"])
    src = open(os.path.join(REPO, "src/svdsuite", m["file"]), "rb").read()
    new = src[:m["a"]] + m["new"].encode() + src[m["b"]:]
    try:
        compile(new, p, "exec")
    except SyntaxError:
        return False
    open(p, "wb").write(new)
    return True


def restore(w, m):
    shutil.copy(os.path.join(REPO, "src/svdsuite", m["file"]), os.path.join(w, "src/svdsuite", m["file"]))


def copies(n):
    q = queue.Queue()
    for k in range(n):
        w = f"/tmp/mutcopy{os.getpid()}_{k}"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree(REPO, w, symlinks=True)
        q.put(w)
    return q


def env(w):
    return {**os.environ, "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0", "PYTHONPATH": w + "/src", "PYTHONDONTWRITEBYTECODE": "1"}


def tests(w, m):
    if not apply(w, m):
        return False
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w, env=env(w),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=90)
        return r.returncode == 0
    except subprocess.TimeoutExpired:
        return False
    finally:
        restore(w, m)


WHICH = {"map.py": ["M01", "W01"], "validate.py": ["V01", "D03", "D06"],
         "parse.py": ["D05", "W03", "D04", "R01", "R05", "V02"], "serialize.py": ["D05", "V02", "D01"],
         "resolve/logger.py": ["L01", "C01"], "util/html_generator.py": ["L01", "D06", "F01"],
         "util/xml_parse.py": ["W03", "D04", "D03", "V01"], "util/process_parse_model_convert.py": ["D05", "V02", "C02"]}
REST = ["R02", "R05", "R06", "R03", "R01", "R04", "M01", "W01", "W02", "L01", "D05", "H01"]


def check(w, m, runs):
    if not apply(w, m):
        return None
    try:
        for p in WHICH.get(m["file"], REST):
            r = subprocess.run(["/opt/venv/bin/python", "/verif/check.py", p, "--runs", str(runs), "--workers", "4"], cwd="/verif",
                               env={**os.environ, "SIM_REPO": w, "SIM_NOMIN": "1"}, capture_output=True, timeout=900)
            if r.returncode:
                return [p, r.returncode, r.stdout.decode()[-600:] if r.returncode != 1 else ""]
        return None
    finally:
        restore(w, m)


def main():
    if sys.argv[1] == "list":
        for f in FILES:
            for m in mutants(f):
                print(json.dumps(m))
        return
    ms = [json.loads(x) for x in open(sys.argv[2])]
    out = open(sys.argv[3], "a")
    k = int(sys.argv[4])
    n = k if sys.argv[1] == "tests" else 2
    q = copies(n)

    def job(m):
        w = q.get()
        try:
            return m, tests(w, m) if sys.argv[1] == "tests" else check(w, m, k)
        finally:
            q.put(w)
    with cf.ThreadPoolExecutor(n) as ex:
        for m, r in ex.map(job, ms):
            if sys.argv[1] == "tests":
                if r:
                    out.write(json.dumps(m) + "\n")
            else:
                out.write(json.dumps({**m, "by": r}) + "\n")
            out.flush()
    while not q.empty():
        shutil.rmtree(q.get(), ignore_errors=True)


main()
