"""mutate.py FILE[:regex of function] PROPS COUNT SEED: random small changes of one source file in a scratch copy; reports those no check notices.
Only a development aid: nothing registered in MANIFEST.json uses it."""
import ast
import os
import random
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP_CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
SWAP_BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
SWAP_ATTR = {"sin": "cos", "cos": "sin", "any": "all", "all": "any", "min": "max", "max": "min", "maximum": "minimum", "minimum": "maximum", "append": "count",
             "zeros_like": "ones_like", "ones_like": "zeros_like", "new_zeros": "new_ones", "argmin": "argmax", "mv": "mtv"}
DROP_CALL = {"clamp", "clamp_", "transpose", "abs", "sqrt", "detach", "clone", "sum", "neg", "copy", "exp", "inverse"}


def seg(src, node):
    return ast.get_source_segment(src, node)


def muts(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def put(n, new, what, fn):
        s, e = pos(n)
        out.append((fn, n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + "." + n.name if fn else n.name
            body = n.body
            n_args = getattr(n, "args", None)
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for c in body:
                visit(c, fn)
            if n_args:
                for d in n_args.defaults:
                    visit(d, fn)
            return
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.AnnAssign)) and not isinstance(n, ast.AnnAssign):
            return
        if fn:
            t = seg(src, n) if not isinstance(n, ast.Module) else ""
            if isinstance(n, ast.BinOp) and type(n.op) in SWAP_BIN:
                put(n, "%s %s (%s)" % ("(%s)" % seg(src, n.left), SWAP_BIN[type(n.op)], seg(src, n.right)), "binop " + t, fn)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
                put(n, "(%s) @ (%s)" % (seg(src, n.right), seg(src, n.left)), "matmul order " + t, fn)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP_CMP:
                put(n, "%s %s %s" % (seg(src, n.left), SWAP_CMP[type(n.ops[0])], seg(src, n.comparators[0])), "compare " + t, fn)
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                v = n.value
                for w in ([v + 1, v - 1] if type(v) is int and abs(v) < 10 else [v * 2]):
                    put(n, "(%r)" % w if w < 0 else repr(w), "const %r -> %r" % (v, w), fn)
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                put(n, repr(not n.value), "flip " + t, fn)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                put(n, "(%s)" % seg(src, n.operand), "drop unary " + t, fn)
            elif isinstance(n, ast.BoolOp):
                put(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(%s)" % seg(src, v) for v in n.values), "boolop " + t, fn)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a in SWAP_ATTR:
                    put(n, t.replace("." + a + "(", "." + SWAP_ATTR[a] + "(", 1) if t.count("." + a + "(") == 1 else t, "call " + t, fn)
                if a in DROP_CALL and not (isinstance(n.func.value, ast.Name) and n.func.value.id == "torch"):
                    put(n, seg(src, n.func.value), "drop call " + t, fn)
                if a == "where" and len(n.args) == 3:
                    put(n, "torch.where(%s, %s, %s)" % (seg(src, n.args[0]), seg(src, n.args[2]), seg(src, n.args[1])), "where " + t, fn)
            elif isinstance(n, ast.If):
                put(n.test, "not (%s)" % seg(src, n.test), "negate if " + seg(src, n.test), fn)
            if isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or \
                    (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
                put(n, "pass", "delete " + t, fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr_context) or isinstance(c, (ast.arguments,)) or (isinstance(c, ast.expr) and getattr(n, "annotation", None) is c):
                continue
            visit(c, fn)
    visit(tree, "")
    return [m for m in out if m[3] != src]


def main():
    spec, props, count, seed = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4])
    f, _, pat = spec.partition(":")
    base = os.environ.get("MUT_BASE", "/repo")
    w = "/tmp/mut_%d" % os.getpid()
    shutil.copytree(base, w, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "tests", "examples", "tutorials"))
    try:
        src = open(os.path.join(base, f)).read()
        ms = [m for m in muts(src) if not pat or re.search(pat, m[0])]
        random.Random(seed).shuffle(ms)
        for fn, line, what, new in ms[:count]:
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            open(os.path.join(w, f), "w").write(new)
            res = []
            for p in props:
                env = dict(os.environ, THESEUS_REPO=w, VERIF_SCRATCH_EVIDENCE=w + "/ev", VERIF_STOP="1")
                r = subprocess.run(["/opt/venv/bin/python", os.path.join(ROOT, "checks/run.py"), p], env=env, capture_output=True, text=True)
                res.append("%s:%d" % (p, r.returncode))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    break
                if r.returncode == 1:
                    res[-1] += "!" + r.stderr.strip().split("\n")[-1][:80]
                    break
            killed = res[-1].split(":")[1][0] == "1"
            print("%s %s:%d [%s] %s  %s" % ("killed  " if killed else "SURVIVED", f, line, fn, " ".join(what.split())[:150], " ".join(res)), flush=True)
    finally:
        shutil.rmtree(w)


main()
