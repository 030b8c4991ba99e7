"""Sensitivity measurement: seeded source mutants of /repo that pass the stable tests, against the checks.

usage: mutants.py SEED COUNT OUT.jsonl [--jobs 8] [--runs 250] [--only path-substring]

Works on scratch copies under /tmp (removed); /repo is never touched.  Not used by any check.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C10", "C07", "C08", "C09", "C12", "C13", "C14", "C11", "C15", "C17", "C18", "C19", "C20"]
SKIP = ("__about__", "_common.py:default")


def sites(path):
    src = open(path, encoding="utf-8").read()
    tree = ast.parse(src)
    out = []
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    raw = src.encode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))

    def add(kind, n, text):
        a, b = span(n)
        if raw[a:b].decode() != text:
            out.append((kind, n.lineno, a, b, text))

    U = ast.unparse
    in_func = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                in_func.add(id(n))
    for n in ast.walk(tree):
        if id(n) in docs or id(n) not in in_func:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
                 ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}[type(n.ops[0])]
            add("cmp", n, "({} {} {})".format(U(n.left), m, U(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            m = " or " if isinstance(n.op, ast.And) else " and "
            add("bool", n, "(" + m.join("({})".format(U(v)) for v in n.values) + ")")
            for v in n.values:
                add("drop", n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("({})".format(U(w)) for w in n.values if w is not v) + ")")
        elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv):
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*"}[type(n.op)]
            add("bin", n, "({} {} {})".format(U(n.left), m, U(n.right)))
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add("int", n, str(n.value + 1))
            if n.value:
                add("int", n, str(n.value - 1))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add("flag", n, str(not n.value))
        elif isinstance(n, ast.Constant) and n.value in ("w", "wb"):
            add("mode", n, repr(n.value.replace("w", "a")))
            add("mode", n, repr(n.value.replace("w", "r+")))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)):
            add("del", n, "pass")
        elif isinstance(n, ast.If):
            add("cond", n.test, "True")
            add("cond", n.test, "False")
        elif isinstance(n, ast.IfExp):
            add("cond", n, "({})".format(U(n.body)))
            add("cond", n, "({})".format(U(n.orelse)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add("unary", n, "({})".format(U(n.operand)))
        elif isinstance(n, ast.Break):
            add("jump", n, "continue")
        elif isinstance(n, ast.Continue):
            add("jump", n, "break")
        elif isinstance(n, ast.Call):
            f = U(n.func)
            if f in ("deepcopy", "copy", "numpy.array", "list", "sorted", "abs", "numpy.abs") and len(n.args) == 1:
                add("call", n, "({})".format(U(n.args[0])))
            if f.endswith(".copy") and not n.args:
                add("call", n, "({})".format(U(n.func.value)))
            if f.endswith((".strip", ".upper", ".lower", ".lstrip", ".rstrip")) and not n.args:
                add("call", n, "({})".format(U(n.func.value)))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            add("exc", n.type, "ZeroDivisionError")
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper):
                if part is not None:
                    add("slice", part, "({} + 1)".format(U(part)))
                    add("slice", part, "({} - 1)".format(U(part)))
    return raw, out


def all_mutants(only):
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, "toughio")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            if not f.endswith(".py") or any(s in rel for s in SKIP) or (only and only not in rel):
                continue
            raw, ss = sites(p)
            for s in ss:
                res.append((rel,) + s)
    return res


def evaluate(i, mut, runs, seed):
    rel, kind, line, a, b, text = mut
    work = tempfile.mkdtemp(prefix="mut{}.".format(i), dir="/tmp")
    try:
        copy = os.path.join(work, "repo")
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(".git", "doc", "examples", "__pycache__"))
        p = os.path.join(copy, rel)
        raw = open(p, "rb").read()
        old = raw[a:b].decode()
        new = raw[:a] + text.encode() + raw[b:]
        try:
            compile(new, p, "exec")
        except SyntaxError:
            return {"i": i, "status": "syntax"}
        open(p, "wb").write(new)
        rec = {"i": i, "file": rel, "kind": kind, "line": line, "old": old[:200], "new": text[:200], "src": raw.decode().split("\n")[line - 1].strip()}
        r = subprocess.run([HERE + "/tools/testcopy.sh", copy, "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if r.returncode:
            rec["status"] = "tests"
            return rec
        env = dict(os.environ, VERIF_REPO=copy, DSIM_WORKERS="1")
        for prop in PROPS:
            n = int(runs * (2 if prop in ("C01", "C03", "C12") else 1))
            try:
                r = subprocess.run([HERE + "/check", prop, "--runs", str(n), "--seed", str(seed), "--no-shrink", "--no-evidence"],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=HERE, timeout=900)
            except subprocess.TimeoutExpired:
                rec.update(status="timeout", by=prop)
                return rec
            if r.returncode == 1:
                out = r.stdout.decode(errors="replace")
                msg = [l for l in out.split("\n") if l.startswith("VIOLATION")]
                rec.update(status="caught", by=prop, msg=(msg or [out])[0][:300], out=out[:1500])
                return rec
            if r.returncode != 0:
                rec.update(status="error", by=prop, out=r.stdout.decode(errors="replace")[-1500:])
                return rec
        rec["status"] = "missed"
        return rec
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("seed", type=int)
    ap.add_argument("count", type=int)
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--runs", type=int, default=200)
    ap.add_argument("--only")
    a = ap.parse_args()
    ms = all_mutants(a.only)
    rng = random.Random(a.seed)
    # every file the same weight per site^0.7, so small files are represented
    byfile = {}
    for m in ms:
        byfile.setdefault(m[0], []).append(m)
    pick = []
    files = sorted(byfile)
    w = [len(byfile[f]) ** 0.8 for f in files]
    while len(pick) < a.count and any(byfile.values()):
        f = rng.choices(files, w)[0]
        if byfile[f]:
            pick.append(byfile[f].pop(rng.randrange(len(byfile[f]))))
    print(len(ms), "sites;", len(pick), "picked", flush=True)
    with open(a.out, "a") as out, concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        futs = [ex.submit(evaluate, "{}_{}".format(a.seed, i), m, a.runs, a.seed) for i, m in enumerate(pick)]
        for f in concurrent.futures.as_completed(futs):
            try:
                rec = f.result()
            except Exception as e:
                rec = {"status": "crash", "err": repr(e)}
            out.write(json.dumps(rec) + "\n")
            out.flush()


main()
