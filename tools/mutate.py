#!/usr/bin/env python3
"""Mutation testing of the checks: every change below is one small edit of one source file of a scratch copy of /repo; the checks
of the properties that concern the file are run against the copy until one reports a violation.
   mutate.py FILE[,FILE] --props=S01,S02 [--kinds=dm,pmc] [--n=40] [--seed=1] [--scale=0.4] [--list]
Survivors are printed with their edit; they are equivalent, outside of the properties, or a gap."""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ("draw", "draw1d", "draw2d", "_draw", "__str__", "__repr__", "tree_to_str", "plot", "animate", "is_compatible")
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}
NEG = {ast.Lt: ">=", ast.LtE: ">", ast.Gt: "<=", ast.GtE: "<"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
NAMES = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "sum": "mean", "mean": "sum", "all": "any", "any": "all",
         "logical_and": "logical_or", "logical_or": "logical_and", "zeros": "ones", "ones": "zeros", "floor": "ceil", "ceil": "floor",
         "space_min": "space_max", "space_max": "space_min", "append": "__len__", "minimum": "maximum", "maximum": "minimum",
         "zeros_like": "ones_like", "exp": "log", "log": "exp", "sqrt": "abs", "abs": "square"}


def seg(src, lines, n):
    a = sum(len(x) for x in lines[:n.lineno - 1]) + n.col_offset
    b = sum(len(x) for x in lines[:n.end_lineno - 1]) + n.end_col_offset
    return a, b


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    out = []

    def put(a, b, new):
        if src[a:b] != new:
            out.append((a, b, new))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in SKIP:
                return
            fn = n.name
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)):
            return
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or "print" in src[slice(*seg(src, lines, n))][:6]):
            return
        if isinstance(n, ast.If) and "debug" in src[slice(*seg(src, lines, n.test))]:
            return
        if fn:
            mutate(n)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)

    def mutate(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = seg(src, lines, n)
            l, r = src[slice(*seg(src, lines, n.left))], src[slice(*seg(src, lines, n.comparators[0]))]
            for table in (CMP, NEG):
                if type(n.ops[0]) in table:
                    put(a, b, "(%s %s %s)" % (l, table[type(n.ops[0])], r))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = seg(src, lines, n)
            l, r = src[slice(*seg(src, lines, n.left))], src[slice(*seg(src, lines, n.right))]
            put(a, b, "((%s) %s (%s))" % (l, BIN[type(n.op)], r))
            put(a, b, "(%s)" % l)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            a, b = seg(src, lines, n)
            put(a, b, repr(n.value + 1))
            if n.value:
                put(a, b, repr(n.value * 1.5 if isinstance(n.value, float) else n.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(*seg(src, lines, n), repr(not n.value))
        if isinstance(n, ast.BoolOp):
            a, b = seg(src, lines, n)
            parts = [src[slice(*seg(src, lines, v))] for v in n.values]
            put(a, b, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(parts) + ")")
            for p in parts:
                put(a, b, "(%s)" % p)
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            tgt = n.targets[0] if isinstance(n, ast.Assign) else getattr(n, "target", None)
            if not isinstance(tgt, ast.Name) or isinstance(n, ast.AugAssign):
                put(*seg(src, lines, n), "pass")
            if isinstance(n, ast.AugAssign):
                a, b = seg(src, lines, n)
                put(a, b, "%s = %s" % (src[slice(*seg(src, lines, n.target))], src[slice(*seg(src, lines, n.value))]))
        if isinstance(n, ast.Call):
            a, b = seg(src, lines, n)
            f = n.func
            args = [src[slice(*seg(src, lines, x))] for x in n.args]
            if isinstance(f, ast.Attribute):
                if f.attr == "copy" and not args:
                    put(a, b, src[slice(*seg(src, lines, f.value))])
                elif f.attr in ("copy", "clip", "array", "asarray", "abs") and args:
                    put(a, b, args[0])
                elif f.attr in NAMES and f.attr != "append":
                    fa, fb = seg(src, lines, f)
                    put(fa, fb, src[slice(*seg(src, lines, f.value))] + "." + NAMES[f.attr])
            if isinstance(f, ast.Name) and f.id in ("min", "max"):
                put(*seg(src, lines, f), NAMES[f.id])
            if isinstance(f, ast.Name) and f.id in ("max", "min", "float", "int") and args:
                put(a, b, args[0])
        if isinstance(n, ast.Attribute) and n.attr in ("space_min", "space_max"):
            a, b = seg(src, lines, n)
            put(a, b, src[slice(*seg(src, lines, n.value))] + "." + NAMES[n.attr])
        if isinstance(n, (ast.If, ast.While)):
            a, b = seg(src, lines, n.test)
            put(a, b, "False")
            if isinstance(n, ast.If):
                put(a, b, "True")
        if isinstance(n, ast.Slice):
            a, b = seg(src, lines, n)
            if b > a:
                put(a, b, ":")
        if isinstance(n, (ast.Break, ast.Continue)):
            put(*seg(src, lines, n), "pass")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(*seg(src, lines, n), "(%s)" % src[slice(*seg(src, lines, n.operand))])

    walk(tree, None)
    good = []
    for a, b, new in sorted(set(out)):
        try:
            compile(src[:a] + new + src[b:], "x", "exec")
            good.append((a, b, new))
        except SyntaxError:
            pass
    return good


def show(src, a, b, new):
    ln = src.count("\n", 0, a) + 1
    return "%d: %s -> %s" % (ln, " ".join(src[a:b].split())[:110], new[:110])


def runs_of(pid):
    for l in open(os.path.join(HERE, "sim", "props", pid + ".py")):
        if l.startswith("RUNS"):
            return eval(l.split("=", 1)[1])["quick"]


def main():
    opt = dict(x[2:].split("=", 1) if "=" in x else (x[2:], "1") for x in sys.argv[1:] if x.startswith("--"))
    files = [x for x in sys.argv[1:] if not x.startswith("--")][0].split(",")
    rnd = random.Random(int(opt.get("seed", 1)))
    copy = tempfile.mkdtemp(prefix="mutate-")
    shutil.rmtree(copy)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    try:
        for f in files:
            src = open(os.path.join("/repo", f)).read()
            todo = sites(src)
            rnd.shuffle(todo)
            n = int(opt.get("n", 40))
            lo = int(opt.get("from", 0))
            print("##", f, len(todo), "sites", flush=True)
            killed = 0
            for a, b, new in todo[lo:lo + n]:
                if "list" in opt:
                    print(show(src, a, b, new))
                    continue
                open(os.path.join(copy, f), "w").write(src[:a] + new + src[b:])
                env = dict(os.environ, SIM_REPO=copy)
                if "kinds" in opt:
                    env["SIM_KINDS"] = opt["kinds"].replace(",", " ")
                by = None
                t = []
                for p in opt["props"].split(","):
                    r = subprocess.run(["timeout", "-k", "5", "240", "python3", "check.py", p, "--runs", str(max(40, int(runs_of(p) * float(opt.get("scale", .4)))))],
                                       cwd=HERE, env=env, capture_output=True, text=True)
                    if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                        by = p
                        break
                    if r.returncode:
                        t.append("%s:rc%d" % (p, r.returncode))
                if by:
                    killed += 1
                    if "v" in opt:
                        print("  killed by", by, show(src, a, b, new), flush=True)
                else:
                    print("SURVIVED", f.split("/")[-1], show(src, a, b, new), " ".join(t), flush=True)
            print("## %s killed %d of %d" % (f, killed, len(todo[lo:lo + n])), flush=True)
            open(os.path.join(copy, f), "w").write(src)
    finally:
        shutil.rmtree(copy)


if __name__ == "__main__":
    main()
