"""Mutation testing of the checks (development only, not a registered command).

python tools/mutate.py FILE CHECK[,CHECK...] [--max N] [--seed S] [--func RE] [--jobs J]

Makes small edits of metadetect/FILE in scratch copies under /tmp/mut, runs the
given checks on each (first failing case, no shrinking) and lists the survivors.
"""
import ast
import concurrent.futures as cf
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import argparse

REPO = "/repo"
BASE = "/tmp/mut"

CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<="],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.BitOr: ["&", "^"],
       ast.BitAnd: ["|"], ast.Pow: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["+"], ast.MatMult: ["*"]}
CMPTXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==",
          ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BINTXT = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.BitOr: "|",
          ast.BitAnd: "&", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%", ast.BitXor: "^",
          ast.MatMult: "@"}
NAMES = [("row", "col"), ("x", "y"), ("min", "max"), ("any", "all"), ("mean", "median"),
         ("zeros", "ones"), ("dudrow", "dudcol"), ("dvdrow", "dvdcol"), ("image", "noise"),
         ("ormask", "bmask"), ("1", "2"), ("ceil", "floor"), ("start", "end"), ("lr", "lc"),
         ("sin", "cos"), ("ones_like", "zeros_like"), ("bmask_flags", "nodet_flags"),
         ("rows", "cols"), ("beginX", "beginY"), ("maskedImage", "image"), ("variance", "image")]


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))

    def pos(line, col):
        # ast columns are in bytes; the sources are ascii
        return starts[line-1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def add(a, b, new, n, what):
        if src[a:b] != new:
            out.append((a, b, new, n.lineno, what))

    skip = set()
    func_of = {}
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.ClassDef)):
            for n in ast.walk(fn):
                if hasattr(n, "lineno"):
                    func_of.setdefault(n, []).append(fn.name)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n)
            skip.add(n.value)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and re.match(
                "(logger|LOG|self.log|warnings|print)", ast.unparse(n.value.func)):
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, ast.If) and "show" in ast.unparse(n.test).lower():
            for m in ast.walk(n):
                skip.add(m)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and re.match(
                "(show|plot|_show|vis)", n.name):
            for m in ast.walk(n):
                skip.add(m)

    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = type(n.ops[0])
            a = span(n.left)[1]
            b = span(n.comparators[0])[0]
            for new in CMP.get(op, []):
                if CMPTXT[op] in src[a:b]:
                    add(a, b, src[a:b].replace(CMPTXT[op], new, 1), n, "cmp")
        elif isinstance(n, ast.BinOp):
            op = type(n.op)
            a = span(n.left)[1]
            b = span(n.right)[0]
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for new in BIN.get(op, []):
                if BINTXT.get(op, "??") in src[a:b]:
                    add(a, b, src[a:b].replace(BINTXT[op], new, 1), n, "bin")
            sa, sb = span(n)
            add(sa, sb, src[slice(*span(n.left))], n, "left-only")
        elif isinstance(n, ast.AugAssign):
            op = type(n.op)
            a = span(n.target)[1]
            b = span(n.value)[0]
            add(a, b, src[a:b].replace(BINTXT[op] + "=", "=", 1), n, "aug")
        elif isinstance(n, ast.BoolOp):
            a = span(n.values[0])[1]
            b = span(n.values[1])[0]
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            add(a, b, src[a:b].replace(o, w, 1), n, "bool")
            sa, sb = span(n)
            for v in n.values:
                add(sa, sb, "(" + src[slice(*span(v))] + ")", n, "bool-one")
        elif isinstance(n, ast.UnaryOp):
            sa, sb = span(n)
            add(sa, sb, src[slice(*span(n.operand))], n, "unary")
        elif isinstance(n, ast.Constant):
            sa, sb = span(n)
            if isinstance(n.value, bool):
                add(sa, sb, str(not n.value), n, "const")
            elif isinstance(n.value, int):
                add(sa, sb, str(n.value+1), n, "const")
                if n.value > 0:
                    add(sa, sb, str(n.value-1), n, "const")
            elif isinstance(n.value, float):
                add(sa, sb, repr(n.value*1.5 + (0.1 if n.value == 0 else 0)), n, "const")
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
            if isinstance(n.slice, ast.Name):
                a, b = span(n.slice)
                add(a, b, "0", n, "index0")
        elif isinstance(n, ast.Call):
            f = n.func
            txt = ast.unparse(f)
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "clone") and not n.args:
                sa, sb = span(n)
                add(sa, sb, src[slice(*span(f.value))], n, "nocopy")
            if txt.split(".")[-1] in ("deepcopy", "copy", "abs", "sqrt", "list", "dict", "sorted") \
                    and len(n.args) == 1:
                sa, sb = span(n)
                add(sa, sb, src[slice(*span(n.args[0]))], n, "nocall")
            for kw in n.keywords:
                if kw.arg is None:
                    continue
                a = pos(kw.lineno, kw.col_offset)
                b = span(kw.value)[1]
                m = re.match(r"\s*,", src[b:])
                if m:
                    b += m.end()
                add(a, b, "", kw.value, "nokw")
        elif isinstance(n, (ast.Continue,)):
            a, b = span(n)
            add(a, b, "break", n, "flow")
        elif isinstance(n, (ast.Break,)):
            a, b = span(n)
            add(a, b, "continue", n, "flow")
        elif isinstance(n, ast.If):
            a, b = span(n.test)
            add(a, b, "True", n, "if")
            add(a, b, "False", n, "if")
        elif isinstance(n, ast.IfExp):
            a, b = span(n)
            add(a, b, src[slice(*span(n.body))], n, "ifexp")
            add(a, b, src[slice(*span(n.orelse))], n, "ifexp")
        if isinstance(n, (ast.Expr, ast.AugAssign)) or (
                isinstance(n, ast.Assign)
                and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
            a, b = span(n)
            add(a, b, "pass", n, "del")
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            name = n.id if isinstance(n, ast.Name) else n.attr
            b = span(n)[1]
            a = b - len(name)
            for x, y in NAMES:
                for p, q in ((x, y), (y, x)):
                    for new in {re.sub(r"(?<![a-zA-Z0-9])%s(?![a-zA-Z0-9])" % p, q, name),
                                re.sub(r"^%s(?=_)|(?<=_)%s$|(?<=[a-z])%s$" % (p, p, p)
                                       if p in "12" else "^%s$" % p, q, name)}:
                        if new != name and re.search(r"\b%s\b" % re.escape(new), src):
                            add(a, b, new, n, "name")
    uniq = {}
    for m in out:
        uniq.setdefault(m[:3], m)
    return [m + ("?",) for m in uniq.values()], func_of, tree


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--max", type=int, default=100000)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--func", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    rel = "metadetect/" + a.file
    src = open(os.path.join(REPO, rel)).read()
    ms, func_of, tree = mutants(src)
    funcs = [(n.lineno, n.end_lineno, n.name) for n in ast.walk(tree)
             if isinstance(n, ast.FunctionDef)]

    def fname(line):
        best = ""
        for s, e, name in sorted(funcs):
            if s <= line <= e:
                best = name
        return best

    if a.func:
        ms = [m for m in ms if re.search(a.func, fname(m[3]))]
    good = []
    for m in ms:
        new = src[:m[0]] + m[2] + src[m[1]:]
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        good.append(m)
    rng = random.Random(a.seed)
    rng.shuffle(good)
    good = good[:a.max]
    print(len(good), "mutants of", rel, flush=True)
    if a.list:
        return
    tag = "%d" % os.getpid()
    vdir = os.path.join(BASE, "verif")
    if not os.path.exists(vdir):
        os.makedirs(BASE, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", ".git",
                    "/verif/", vdir + "/"], check=True) if shutil.which("rsync") else \
        subprocess.run("rm -rf /tmp/mut/verif && mkdir -p /tmp/mut/verif && "
                       "cp -a /verif/lib /verif/checks /verif/standins /verif/run_check.py "
                       "/verif/check.sh /verif/known_findings.jsonl /tmp/mut/verif/",
                       shell=True, check=True)
    slots = queue.Queue()
    for i in range(a.jobs):
        d = os.path.join(BASE, "slot-%s-%d" % (tag, i))
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, "metadetect"), os.path.join(d, "metadetect"))
        slots.put(d)

    def run(m):
        d = slots.get()
        try:
            with open(os.path.join(d, rel), "w") as f:
                f.write(src[:m[0]] + m[2] + src[m[1]:])
            res = []
            for c in a.checks.split(","):
                env = dict(os.environ, VERIF_REPO=d, VERIF_FAST="1")
                try:
                    p = subprocess.run([vdir + "/check.sh", c, "--jobs", "1"], env=env,
                                       capture_output=True, text=True, timeout=1500)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
                res.append((c, rc))
                if rc == 1:
                    break
            return m, res
        finally:
            slots.put(d)

    surv = 0
    done = 0
    lines = src.splitlines()
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for f in cf.as_completed([ex.submit(run, m) for m in good]):
            m, res = f.result()
            done += 1
            if not any(rc == 1 for _, rc in res):
                surv += 1
                print("SURVIVED %s:%d %s [%s] %r -> %r %s\n      %s" % (
                    rel, m[3], fname(m[3]), m[4], src[m[0]:m[1]][:80], m[2][:80],
                    " ".join("%s=%s" % r for r in res), lines[m[3]-1].strip()), flush=True)
    print("done", done, "survived", surv, flush=True)
    for i in range(a.jobs):
        shutil.rmtree(os.path.join(BASE, "slot-%s-%d" % (tag, i)))


main()
