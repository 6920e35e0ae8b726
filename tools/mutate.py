"""Small mutants of a source file, run against the checks that should notice them (a tool for finding blind spots; no
check uses it).  usage: mutate.py COPY_OF_REPO FILE CHECK[,CHECK...] [--every n] [--offset k] [--log FILE] [--only i,j]"""
import ast
import os
import subprocess
import sys
import time

SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Mod: "//", ast.Div: "*"}
SKIPCALL = ("logger", "log", "print", "warn", "super", "click", "LOGGING")


def src(code, n):
    return ast.get_source_segment(code, n)


def mutants(code):
    tree = ast.parse(code)
    lines = code.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    raw = code.encode()

    def off(line, col):
        return starts[line - 1] + col

    def rep(n, new):
        a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        return raw[:a] + new.encode() + raw[b:]

    def skip(n):
        """logging, docstrings, raising messages, annotations"""
        return False

    def walk(node, infn):
        for field, val in ast.iter_fields(node):
            if field in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            for ch in val if isinstance(val, list) else [val]:
                if not isinstance(ch, ast.AST):
                    continue
                if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                    continue
                if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Call) and (src(code, ch.value.func) or "").split(".")[0] in SKIPCALL:
                    continue
                if isinstance(ch, (ast.Raise, ast.Assert, ast.JoinedStr, ast.Import, ast.ImportFrom)):
                    if isinstance(ch, (ast.Raise, ast.Assert)):
                        yield ch, "pass"
                    continue
                if isinstance(ch, ast.If) and (src(code, ch.test) or "") == "TYPE_CHECKING":
                    continue
                inner = infn or isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef))
                if infn:
                    yield from one(ch)
                yield from walk(ch, inner)

    def one(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            yield n, f"({src(code, n.left)} {SWAP[type(n.ops[0])]} {src(code, n.comparators[0])})"
        if isinstance(n, ast.BinOp) and type(n.op) in ARITH and not isinstance(n.left, ast.JoinedStr) and not isinstance(n.right, ast.JoinedStr):
            yield n, f"({src(code, n.left)} {ARITH[type(n.op)]} {src(code, n.right)})"
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield n, "(" + op.join("(" + src(code, v) + ")" for v in n.values) + ")"
            for k in range(len(n.values)):
                rest = [v for i, v in enumerate(n.values) if i != k]
                yield n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(" + src(code, v) + ")" for v in rest) + ")"
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, ast.Compare):
            yield n.test, f"(not ({src(code, n.test)}))"
        if isinstance(n, ast.If):
            yield n.test, "False"
        if isinstance(n, ast.Constant) and type(n.value) is int and n.value not in (120,):
            yield n, str(n.value + 1)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n, str(not n.value)
        if isinstance(n, ast.Break):
            yield n, "continue"
        if isinstance(n, ast.Continue):
            yield n, "pass"
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
            yield n, "pass"
        if isinstance(n, ast.AugAssign):
            yield n, "pass"
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            yield n, "pass"
        if isinstance(n, ast.Delete):
            yield n, "pass"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "tuple", "dict") and len(n.args) == 1 and not n.keywords:
            yield n, f"({src(code, n.args[0])})" if not isinstance(n.args[0], ast.GeneratorExp) else f"list{src(code, n.args[0])}"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            yield n.func, "max" if n.func.id == "min" else "min"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy") and (n.args or n.func.attr == "copy"):
            yield n, f"({src(code, n.args[0] if n.args else n.func.value)})"
        if isinstance(n, ast.With) and any("lock" in (src(code, i.context_expr) or "").lower() for i in n.items):
            for i in n.items:
                yield i.context_expr, "__import__('contextlib').nullcontext()"

    for n, new in walk(tree, False):
        try:
            m = rep(n, new)
            ast.parse(m.decode())
        except Exception:  # noqa: BLE001
            continue
        yield n.lineno, (src(code, n) or "").split("\n")[0][:90], new[:90], m


def main():
    repo, f, checks = sys.argv[1:4]
    opt = dict(zip(sys.argv[4::2], sys.argv[5::2]))
    every, offset = int(opt.get("--every", 1)), int(opt.get("--offset", 0))
    only = [int(x) for x in opt["--only"].split(",")] if "--only" in opt else None
    log = open(opt.get("--log", "/dev/stdout"), "a")
    path = os.path.join(repo, f)
    code = open(path).read()
    ms = list(mutants(code))
    print(f"#### {f}: {len(ms)} mutants", file=log, flush=True)
    if checks == "list":
        for i, (line, old, new, _) in enumerate(ms):
            print(i, line, old, "->", new, file=log)
        return
    for i, (line, old, new, m) in enumerate(ms):
        if (only is not None and i not in only) or (only is None and i % every != offset):
            continue
        open(path, "wb").write(m)
        t = time.time()
        verdict = "SURVIVED"
        try:
            for c in checks.split(","):
                try:
                    r = subprocess.run(["/verif/run.sh", c], env=dict(os.environ, VERIF_REPO=repo, VERIF_FIRST="1"), capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    verdict = f"TIMEOUT {c}"
                    break
                if r.returncode == 1:
                    k = [x for x in r.stdout.splitlines() if x.startswith("---")]
                    verdict = f"caught {c} {k[0][4:60] if k else ''}"
                    break
                if r.returncode != 0:
                    e = (r.stdout + r.stderr).strip().splitlines()
                    verdict = f"ERROR {c} rc={r.returncode} {e[-1][:150] if e else ''}"
                    break
        finally:
            open(path, "w").write(code)
        print(f"{i} L{line} {old!r} -> {new!r}: {verdict} ({time.time() - t:.0f}s)", file=log, flush=True)


main()
