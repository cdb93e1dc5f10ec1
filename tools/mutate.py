"""Measure the checks with small syntactic changes of the code.

  python3 tools/mutate.py FILE CHECK[,CHECK...] [--n 40] [--seed 1] [--jobs 2] [--lines A-B] [--log FILE]

Draws n of the possible small changes of FILE (comparison, arithmetic, constant, condition, statement), makes each in a scratch copy of
/repo, runs the checks in turn until one reports it, and then the stable tests on those no check reported.  Nothing is changed in /repo.
A change nobody reports is either without effect or a gap.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def changes(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    raw = src.encode()

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def txt(n):
        return raw[pos(n):pos(n, True)].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "njit", "spec"):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("warn", "add_argument", "print"):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip.update(id(m) for m in ast.walk(d))
            for a in n.args.args:
                if a.annotation:
                    skip.update(id(m) for m in ast.walk(a.annotation))
            if n.returns:
                skip.update(id(m) for m in ast.walk(n.returns))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in txt(n.test):
            skip.update(id(m) for m in ast.walk(n))
    out = []

    def add(a, b, new, n):
        out.append((n.lineno, a, b, new))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for op in CMP[type(n.ops[0])]:
                add(pos(n), pos(n, True), f"{par(txt(n.left), n.left)} {op} {par(txt(n.comparators[0]), n.comparators[0])}", n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(pos(n), pos(n, True), f"(({txt(n.left)}) {BIN[type(n.op)]} ({txt(n.right)}))", n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(pos(n), pos(n, True), str(not n.value), n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(pos(n), pos(n, True), str(n.value + 1), n)
            if n.value > 0:
                add(pos(n), pos(n, True), str(n.value - 1), n)
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(pos(n), pos(n, True), repr(n.value * 1.2 if n.value else 0.1), n)
        elif isinstance(n, (ast.If, ast.While)):
            add(pos(n.test), pos(n.test, True), f"(not ({txt(n.test)}))", n)
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(pos(n), pos(n, True), op.join(f"({txt(v)})" for v in n.values), n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) :
            add(pos(n), pos(n, True), f"({txt(n.operand)})", n)
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            f = txt(n.func)
            for x, y in (("min", "max"), ("max", "min"), ("minimum", "maximum"), ("maximum", "minimum"), ("nansum", "nanmean"), ("nanmin", "nanmax")):
                if f.split(".")[-1] == x:
                    add(pos(n.func), pos(n.func, True), f[:len(f) - len(x)] + y, n)
        if isinstance(n, (ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if not (isinstance(n, ast.Expr) and id(n.value) in skip):
                add(pos(n), pos(n, True), "pass", n)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(pos(n), pos(n, True), "pass", n)
    seen, uniq = set(), []
    for c in out:
        if c[1:] not in seen:
            seen.add(c[1:])
            uniq.append(c)
    return raw, uniq


def par(t, n):
    return t if isinstance(n, (ast.Name, ast.Attribute, ast.Call, ast.Constant, ast.Subscript)) else f"({t})"


ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PATH="/opt/venv/bin:" + os.environ["PATH"])


def one(k, file, raw, c, checks, tests):
    line, a, b, new = c
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    work = os.path.join(base, "repo")
    r = dict(file=file, line=line, old=raw[a:b].decode(), new=new)
    try:
        shutil.copytree("/repo", work, symlinks=True)
        with open(os.path.join(work, file), "wb") as f:
            f.write(raw[:a] + new.encode() + raw[b:])
        try:
            compile((raw[:a] + new.encode() + raw[b:]), file, "exec")
        except SyntaxError:
            r["verdict"] = "syntax"
            return r
        r["verdict"] = "SURVIVED"
        r["checks"] = {}
        for ck in checks:
            os.makedirs(os.path.join(base, "out"), exist_ok=True)
            try:
                p = subprocess.run(["bash", os.path.join(HERE, "check.sh"), ck, "quick"], cwd=HERE, env=dict(ENV, PBT_REPO=work, PBT_OUT=os.path.join(base, "out")),
                                   capture_output=True, text=True, timeout=900)
                rc, out = p.returncode, p.stdout + p.stderr
            except subprocess.TimeoutExpired:
                rc, out = "timeout", ""
            r["checks"][ck] = rc
            if rc == 1 and "VIOLATION" in out:
                r["verdict"] = f"caught by {ck}"
                r["said"] = out.strip().splitlines()[-1][:200]
                break
            if rc != 0:
                r["verdict"] = f"{ck} exit {rc}"
                r["said"] = out.strip()[-300:]
        if r["verdict"] == "SURVIVED" and tests:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=work, env=ENV, capture_output=True, text=True, timeout=900)
            r["verdict"] = "SURVIVED" if p.returncode == 0 else "survived, tests fail"
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--lines")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--log")
    a = ap.parse_args()
    raw, cs = changes(open(os.path.join("/repo", a.file)).read())
    if a.lines:
        rngs = [tuple(map(int, x.split("-"))) for x in a.lines.split(",")]
        cs = [c for c in cs if any(lo <= c[0] <= hi for lo, hi in rngs)]
    random.Random(a.seed).shuffle(cs)
    print(a.file, len(cs), "possible changes", flush=True)
    cs = sorted(cs[:a.n])
    if a.list:
        for c in cs:
            print(c[0], repr(raw[c[1]:c[2]].decode()), "->", repr(c[3]))
        return
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda kc: one(kc[0], a.file, raw, kc[1], a.checks.split(","), not a.no_tests), list(enumerate(cs))):
            print(f"{r['verdict']:24} {r['file']}:{r['line']}  {r['old'][:90]!r} -> {r['new'][:90]!r}", flush=True)
            if a.log:
                with open(a.log, "a") as f:
                    f.write(json.dumps(r) + "\n")


main()
