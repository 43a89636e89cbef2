#!/usr/bin/env python3
"""Development tool, not a check: systematic mutants of the implementation that survive its own tests,
to find out what the checks miss.   mutate.py list OUT.json | tests IN.json OUT.json | checks IN.json OUT.json"""
import ast
import concurrent.futures
import json
import os
import queue
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("PD_REPO", "/repo")
WORK = os.environ.get("WORK", "/tmp/mut")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "python_dice/src/*.py"], stdout=subprocess.PIPE, check=True)
    return [f for f in out.stdout.decode().split() if not f.endswith("__init__.py") and "/i_" not in f]


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", "=="], ast.Gt: [">=", "<"], ast.GtE: [">", "=="], ast.Eq: ["!=", "<=", ">="],
       ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
CMPTXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in",
          ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["+"]), ast.FloorDiv: ("//", ["*"]),
       ast.Div: ("/", ["*", "//"]), ast.BitAnd: ("&", ["|"]), ast.BitOr: ("|", ["&"]), ast.Mod: ("%", ["//"])}
NAMES = {"max": "min", "min": "max", "all": "any", "any": "all", "union": "intersection", "intersection": "union",
         "sorted": "list", "list": "reversed", "at_least": "at_most", "at_most": "at_least", "keys": "values",
         "left": "right", "append": "extend", "copy": None}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x))

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return src[a:b]

    out = []

    def add(a, b, new, what):
        if src[a:b] != new:
            out.append({"file": path, "a": a, "b": b, "old": src[a:b], "new": new, "what": what,
                        "line": src.count("\n", 0, a) + 1})

    tree = ast.parse(src)
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and isinstance(node, ast.FunctionDef):
            for st in ast.walk(node):
                pass
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            _, l = span(node.left)
            r, _ = span(node.comparators[0])
            for new in CMP.get(type(node.ops[0]), []):
                add(l, r, " %s " % new, "compare")
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            _, l = span(node.left)
            r, _ = span(node.right)
            gap = src[l:r]
            t, news = BIN[type(node.op)]
            for new in news:
                add(l, r, gap.replace(t, new, 1), "binop")
            add(*span(node), seg(node.left), "left only")
            add(*span(node), seg(node.right), "right only")
        if isinstance(node, ast.BoolOp):
            a, b = node.values[0], node.values[-1]
            add(*span(node), seg(a), "first only")
            add(*span(node), seg(b), "last only")
            _, l = span(node.values[0])
            r, _ = span(node.values[1])
            t = "and" if isinstance(node.op, ast.And) else "or"
            add(l, r, src[l:r].replace(t, "or" if t == "and" else "and"), "boolop")
        if isinstance(node, ast.UnaryOp):
            add(*span(node), seg(node.operand), "drop unary")
        if isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
            add(*span(node), str(node.value + 1), "const")
            add(*span(node), "(%d)" % (node.value - 1), "const")
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            add(*span(node), str(not node.value), "const")
        if isinstance(node, ast.Constant) and isinstance(node.value, str) and len(node.value) > 0:
            s = seg(node)
            if any(c in s for c in "*+?[|\\"):
                for m in re.finditer(r"\*|\+(?!\")|\?", s):
                    for new in ("*", "+", "?", ""):
                        if new != m.group(0):
                            add(span(node)[0] + m.start(), span(node)[0] + m.end(), new, "regex")
            if s[:1] in "\"'" and len(s) > 2:
                add(*span(node), s[0] + s[1:-1] + "Z" + s[0], "string")
        if isinstance(node, ast.IfExp):
            add(*span(node), seg(node.body), "ifexp body")
            add(*span(node), seg(node.orelse), "ifexp else")
        if isinstance(node, (ast.If, ast.While)):
            add(*span(node.test), "not (%s)" % seg(node.test), "negate")
            add(*span(node.test), "False", "never")
            if isinstance(node, ast.If):
                add(*span(node.test), "True", "always")
        if isinstance(node, (ast.Name, ast.Attribute)):
            nm = node.id if isinstance(node, ast.Name) else node.attr
            if nm in NAMES and NAMES[nm]:
                _, b = span(node)
                add(b - len(nm), b, NAMES[nm], "name")
        if isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy",):
                add(*span(node), seg(f.value), "no copy")
            if isinstance(f, ast.Name) and f.id in ("sorted", "list", "set", "dict", "abs", "int", "bool", "reversed", "tuple", "float") and len(node.args) == 1:
                add(*span(node), seg(node.args[0]), "no " + f.id)
            if len(node.args) == 2:
                x, y = node.args
                add(span(x)[0], span(y)[1], seg(y) + ", " + seg(x), "swap args")
            if len(node.args) >= 1 and not (isinstance(f, ast.Name) and f.id in ("sorted", "list", "set")):
                x = node.args[-1]
                if len(node.args) > 1:
                    add(span(node.args[-2])[1], span(x)[1], "", "drop arg")
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Break, ast.Continue, ast.Delete)):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                continue
            add(*span(node), "pass", "drop statement")
            if isinstance(node, ast.AugAssign):
                add(*span(node), seg(node.target) + " = " + seg(node.value), "aug to assign")
            if isinstance(node, ast.Return) and node.value is not None:
                if isinstance(node.value, ast.Call) and node.value.args:
                    add(*span(node.value), seg(node.value.args[0]), "return arg")
        if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            sl = node.slice
            if sl.lower is not None:
                add(*span(sl.lower), "(%s) + 1" % seg(sl.lower), "slice")
            if sl.upper is not None:
                add(*span(sl.upper), "(%s) - 1" % seg(sl.upper), "slice")
        if isinstance(node, ast.comprehension):
            for c in node.ifs:
                add(*span(c), "True", "no filter")
    good = []
    seen = set()
    for m in out:
        new = src[:m["a"]] + m["new"] + src[m["b"]:]
        if new in seen:
            continue
        seen.add(new)
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                good.append(m)
        except SyntaxError:
            pass
    return good


def apply(m, root):
    p = os.path.join(root, m["file"])
    src = open(os.path.join(REPO, m["file"])).read()
    with open(p, "w") as f:
        f.write(src[: m["a"]] + m["new"] + src[m["b"]:])


def undo(m, root):
    shutil.copyfile(os.path.join(REPO, m["file"]), os.path.join(root, m["file"]))


def pool_run(items, fn, n, out):
    roots = queue.Queue()
    os.makedirs(WORK, exist_ok=True)
    for k in range(n):
        r = os.path.join(WORK, "w%d" % k)
        if os.path.isdir(r):
            shutil.rmtree(r)
        shutil.copytree(REPO, r)
        roots.put(r)

    def one(m):
        r = roots.get()
        try:
            apply(m, r)
            return fn(m, r)
        finally:
            undo(m, r)
            roots.put(r)

    res = []
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for k, x in enumerate(ex.map(one, items)):
            if x is not None:
                res.append(x)
            with open(out, "w") as f:
                json.dump(res, f, indent=1)
            print(k + 1, len(items), len(res), flush=True)


def test(m, root):
    """None if the repository's tests notice; its own test file first, the slow mocked merger tests only where they matter"""
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH=root + ":/tmp/mutplug", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(WORK, "hyp"))
    base = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "noshrink", "--timeout=100",
            "--hypothesis-seed=0"]
    name = "test_" + os.path.basename(m["file"])
    own = [os.path.join(d, f) for d, _, fs in os.walk(os.path.join(root, "python_dice/test")) for f in fs if f == name]
    runs = [own] if own else []
    rest = ["."]
    for f in own:
        rest += ["--ignore", f]
    if "/constraint_merger" not in m["file"]:
        rest += ["--ignore", "python_dice/test/constraint/test_constraint_merger.py"]
    runs.append(rest)
    for r in runs:
        try:
            p = subprocess.run(base + r, cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        except subprocess.TimeoutExpired:
            return None
        if p.returncode != 0:
            return None
    return m


# the checks most likely to notice a change of a file, in this order; the rest is not asked unless ALL=1
LIKELY = [("constraint/", "C13 C04 C12 C03"), ("dice_expression_helper", "C01 C17 C10 C15 C02"), ("expression/dice_expression", "C01 C06 C07 C05 C14 C15"),
          ("drop_keep", "C02 C06 C07 C05 C14 C15"), ("integer_division", "C09 C03 C06 C05 C15"), ("var_assignment", "C11 C04 C05 C14 C15 C06"),
          ("get_var", "C11 C04 C06 C14 C15 C05"), ("expression/", "C03 C06 C05 C10 C14 C15 C09 C07"), ("distribution_state", "C11 C04 C06 C12"),
          ("probability_distribution.py", "C08 C03 C16 C09 C04 C12 C05"), ("probability_outcome", "C03 C04 C12 C08"), ("probability_distribution", "C03 C08 C11"),
          ("lexer", "C17 C10 C15"), ("parser", "C10 C17 C11 C12 C15"), ("interpreter", "C11 C08 C14 C16 C06 C12"), ("syntax", "C10 C17 C15 C01 C02")]


def checks(m, root):
    m = dict(m, caught={})
    props = ["C%02d" % k for k in range(1, 18)]
    if not os.environ.get("ALL"):
        props = next(v for k, v in LIKELY if k in m["file"]).split()
    for prop in props:
        env = dict(os.environ, PD_REPO=root, VERIF_TIER="quick", VERIF_SEED="1")
        p = subprocess.run(["python3", os.path.join(VERIF, "tools", "check.py"), prop], cwd=VERIF, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            m["caught"][prop] = p.returncode
            m.setdefault("say", {})[prop] = p.stdout.decode("utf-8", "replace")[-600:]
            if p.returncode == 1 and not os.environ.get("ALL"):
                break
    print(m["file"], m["line"], m["old"], "->", m["new"], m["caught"], flush=True)
    return m


def main():
    if sys.argv[1] == "list":
        ms = [m for f in files() for m in mutants(f)]
        json.dump(ms, open(sys.argv[2], "w"), indent=1)
        print(len(ms))
    elif sys.argv[1] == "tests":
        pool_run(json.load(open(sys.argv[2])), test, int(os.environ.get("N", "7")), sys.argv[3])
    elif sys.argv[1] == "checks":
        pool_run(json.load(open(sys.argv[2])), checks, int(os.environ.get("N", "1")), sys.argv[3])


if __name__ == "__main__":
    main()
