"""mutate.py [--n N] [--seed S] [--files f,g] [--jobs J] [--list]: sample syntactic mutants of /repo/pocomc and run the mapped quick checks on each.

Prints one line per mutant: caught by which check, or SURVIVED (to be classified by hand as equivalent or as a gap)."""
import argparse
import ast
import concurrent.futures
import os
import random
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/pocomc"
MAP = [
    ("tools.py", r"trim_weights", "C07 C25"), ("tools.py", r"systematic", "C06 C25"), ("tools.py", r"FunctionWrapper", "C14"), ("tools.py", r"ProgressBar", "C22"),
    ("tools.py", r"flow_numpy|torch_to|numpy_to", "C23"), ("tools.py", r"torch_double|set_", "C22"), ("tools.py", r".", "C07 C05"),
    ("mcmc.py", r".", "C02 C17 C03 C01 C13 C21"), ("particles.py", r".", "C04 C01 C12 C25"), ("scaler.py", r"boundary", "C09"), ("scaler.py", r".", "C08 C19"),
    ("flow.py", r"fit", "C24"), ("flow.py", r".", "C23 C24"), ("geometry.py", r".", "C20 C02"), ("student.py", r".", "C20"), ("prior.py", r".", "C18"),
    ("parallel.py", r".", "C15"), ("threading.py", r".", "C22"), ("input_validation.py", r".", "C08 C19"),
    ("sampler.py", r"posterior", "C25 C12"), ("sampler.py", r"evidence", "C16 C12 C13"), ("sampler.py", r"save|load", "C10 C11 C12"),
    ("sampler.py", r"_log_like|_log_prior|distribute", "C14 C21 C13"), ("sampler.py", r"_reweight", "C05 C04 C06 C01"), ("sampler.py", r"_resample", "C06 C01 C21"),
    ("sampler.py", r"_train", "C24 C11 C22 C26 C16"), ("sampler.py", r"_mutate", "C17 C01 C13 C21"), ("sampler.py", r"_not_term", "C05"),
    ("sampler.py", r"__init__", "C19 C14 C11 C05 C22"), ("sampler.py", r"run", "C26 C11 C01 C03 C05 C12 C22 C16"), ("sampler.py", r".", "C12 C11 C22"),
]
SWAP = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "+"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    offs = [0]
    for line in src.splitlines(True):
        offs.append(offs[-1] + len(line.encode()))
    raw = src.encode()

    def seg(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def walk(node, ctx):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            ctx = (ctx + "." if ctx else "") + node.name
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return

        def add(a, b, new, what):
            out.append((ctx, node.lineno, a, b, new, what))
        if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
            a, b = seg(node.left)[1], seg(node.right)[0]
            t = raw[a:b].decode()
            m = re.search(r"(\*\*|//|[-+*/%])", t)
            if m:
                add(a + m.start(), a + m.end(), SWAP[type(node.op)], "op %s" % t.strip())
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
            a, b = seg(node.left)[1], seg(node.comparators[0])[0]
            add(a, b, " %s " % CMP[type(node.ops[0])], "cmp %s" % raw[a:b].decode().strip())
        if isinstance(node, ast.BoolOp):
            a, b = seg(node.values[0])[1], seg(node.values[1])[0]
            add(a, b, " or " if isinstance(node.op, ast.And) else " and ", "bool")
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            a, b = seg(node)[0], seg(node.operand)[0]
            add(a, b, "", "drop unary")
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float, bool)):
            a, b = seg(node)
            v = node.value
            if isinstance(v, bool):
                add(a, b, str(not v), "const %s" % v)
            else:
                add(a, b, repr(v + 1) if v != 1 else "2", "const %s" % v)
                if v not in (0, 1):
                    add(a, b, repr(v / 2) if isinstance(v, float) else repr(v - 1), "const %s" % v)
        if isinstance(node, ast.If):
            a, b = seg(node.test)
            add(a, b, "not (%s)" % raw[a:b].decode(), "negate if")
        if isinstance(node, (ast.Assign, ast.AugAssign)) and ctx:
            t = node.targets[0] if isinstance(node, ast.Assign) else node.target
            if isinstance(t, (ast.Attribute, ast.Subscript)) or isinstance(node, ast.AugAssign):
                a, b = seg(node)
                add(a, b, "pass", "drop statement %s" % raw[a:b].decode()[:50])
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            a, b = seg(node)
            add(a, b, "pass", "drop call %s" % raw[a:b].decode()[:50])
        if isinstance(node, ast.Call):
            if node.keywords and ctx:
                k = node.keywords[-1]
                if k.arg:
                    a, b = seg(k)
                    i = raw.rfind(b",", 0, a)
                    if i > seg(node.func)[1]:
                        add(i, b, "", "drop keyword %s" % raw[a:b].decode()[:40])
            if len(node.args) == 2 and not any(isinstance(x, ast.Starred) for x in node.args):
                (a, b), (c, d) = seg(node.args[0]), seg(node.args[1])
                add(a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode(), "swap arguments")
            if isinstance(node.func, ast.Attribute) and node.func.attr == "copy" and not node.args:
                a, b = seg(node)
                c, d = seg(node.func.value)
                add(a, b, raw[c:d].decode(), "drop copy")
        for ch in ast.iter_child_nodes(node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("ValueError", "print", "warn"):
                continue
            walk(ch, ctx)
    walk(tree, "")
    return raw, out


def checks_for(f, ctx):
    for a, r, c in MAP:
        if a == f and re.search(r, ctx.split(".")[-1] if a == "sampler.py" else ctx):
            return c.split()
    return []


def run(job):
    k, f, raw, m = job
    ctx, line, a, b, new, what = m
    d = "/tmp/mut-%d-%d" % (os.getpid(), k)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SRC, d + "/pocomc", ignore=shutil.ignore_patterns("__pycache__"))
    code = raw[:a] + new.encode() + raw[b:]
    open("%s/pocomc/%s" % (d, f), "wb").write(code)
    tag = "%s:%d %s | %s -> %s" % (f, line, ctx, what.replace("\n", " "), new.replace("\n", " ")[:60])
    try:
        compile(code, f, "exec")
    except SyntaxError:
        shutil.rmtree(d)
        return "SYNTAX   " + tag
    res = "SURVIVED"
    try:
        for c in checks_for(f, ctx):
            try:
                r = subprocess.run(["bash", V + "/check.sh", c], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc:
                res = "caught %s%s" % (c, "" if rc == 1 else "(%s)" % rc)
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "%-12s %s" % (res, tag)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--n", type=int, default=50)
    p.add_argument("--seed", type=int, default=0)
    p.add_argument("--files", default="tools.py,mcmc.py,particles.py,scaler.py,flow.py,geometry.py,student.py,prior.py,parallel.py,threading.py,input_validation.py,sampler.py")
    p.add_argument("--jobs", type=int, default=2)
    p.add_argument("--ctx", default="")
    p.add_argument("--list", action="store_true")
    o = p.parse_args()
    rng = random.Random(o.seed)
    allm = []
    for f in o.files.split(","):
        raw, ms = mutants("%s/%s" % (SRC, f))
        by = {}
        for m in ms:
            if re.search(o.ctx, m[0]):
                by.setdefault(m[0], []).append((f, raw, m))
        allm += list(by.values())
    # round robin over functions, weighted by their size
    pool = [x for g in allm for x in g]
    rng.shuffle(pool)
    sel = pool[:o.n]
    if o.list:
        print(len(pool), "mutants")
        for f, raw, m in sel:
            print(f, m[1], m[0], m[5], "->", m[4][:50].replace("\n", " "), checks_for(f, m[0]))
        return
    with concurrent.futures.ThreadPoolExecutor(o.jobs) as ex:
        for f in concurrent.futures.as_completed([ex.submit(run, (k,) + s) for k, s in enumerate(sel)]):
            print(f.result(), flush=True)


main()
