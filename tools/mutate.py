"""python3 tools/mutate.py FILE CHECK[,CHECK] N [SEED]: development aid. N mutants of FILE (path below reagent/), on lines that the
first CHECK executes (VERIF_COV data in /tmp/cov/CHECK), each run against the checks; survivors are appended to /tmp/mut.log"""
import ast, copy, glob, os, random, shutil, subprocess, sys, time

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/tmp/wt")
W = os.environ.get("MUT_WORK", "/tmp/mutrepo")
path, checks, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
src = open(BASE + "/reagent/" + path).read()
tree = ast.parse(src)
lines = src.split("\n")
seen = set()
for c in checks:
    for f in glob.glob("/tmp/cov/%s/*.txt" % c):
        for l in open(f):
            p, k = l.split()
            if p == path:
                seen.add(int(k))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
out = []


def add(node, new, what):
    if node.lineno in seen or any(k in seen for k in range(node.lineno, node.end_lineno + 1)):
        out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, what))


def walk(node, fn, skip):
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
            if isinstance(ch, ast.FunctionDef):
                for b in ch.body:
                    visit(b, True)
            continue
        visit(ch, fn)


def visit(n, fn):
    if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.JoinedStr, ast.AnnAssign)) and not (isinstance(n, ast.AnnAssign) and fn):
        return
    if isinstance(n, ast.FunctionDef):
        for b in n.body:
            visit(b, True)
        return
    if isinstance(n, ast.ClassDef):
        for b in n.body:
            visit(b, False)
        return
    if isinstance(n, ast.Expr):
        t = ast.unparse(n)
        if isinstance(n.value, ast.Constant) or t.startswith(("logger", "logging", "print", "no_dup_logger", "warnings")):
            return
        if fn and isinstance(n.value, ast.Call):
            add(n, "pass", "delete")
    if fn:
        if isinstance(n, ast.AugAssign):
            add(n, "pass", "delete")
            if type(n.op) in BIN:
                m = copy.deepcopy(n); m.op = BIN[type(n.op)](); add(n, ast.unparse(m), "aug")
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = copy.deepcopy(n); m.ops[0] = CMP[type(n.ops[0])](); add(n, "(%s)" % ast.unparse(m), "cmp")
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            m = copy.deepcopy(n); m.op = BIN[type(n.op)](); add(n, "(%s)" % ast.unparse(m), "bin")
        if isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); add(n, "(%s)" % ast.unparse(m), "bool")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            add(n, "(%s)" % ast.unparse(n.operand), "unary")
        if isinstance(n, ast.If):
            t = n.test
            add(t, "(not (%s))" % ast.unparse(t), "negate-if")
        if isinstance(n, ast.IfExp):
            m = copy.deepcopy(n); m.body, m.orelse = m.orelse, m.body; add(n, "(%s)" % ast.unparse(m), "swap-ifexp")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "bool-const")
            elif isinstance(v, int):
                add(n, str(v + 1), "int+1")
                if v:
                    add(n, str(v - 1), "int-1")
            elif isinstance(v, float):
                add(n, repr(v * 2 if v else 1.0), "float*2")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a = n.func.attr
            if a in ("detach", "clone", "float", "clamp", "exp", "log", "cpu", "copy", "squeeze", "bool", "long", "sort", "contiguous", "double", "abs", "lower"):
                add(n, ast.unparse(n.func.value), "drop-" + a)
            SW = {"max": "min", "min": "max", "mean": "sum", "sum": "mean", "any": "all", "all": "any", "append": "extend", "zeros_like": "ones_like", "ones_like": "zeros_like", "zeros": "ones", "ones": "zeros", "argmax": "argmin", "argmin": "argmax", "floor": "ceil", "ceil": "floor", "train": "eval", "eval": "train", "no_grad": "enable_grad", "softmax": "log_softmax", "relu": "tanh"}
            if a in SW:
                m = copy.deepcopy(n); m.func.attr = SW[a]; add(n, ast.unparse(m), "call-" + a)
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            m = copy.deepcopy(n); m.args[0], m.args[1] = m.args[1], m.args[0]; add(n, ast.unparse(m), "swap-args")
        if isinstance(n, ast.Call) and n.keywords:
            for i, k in enumerate(n.keywords):
                if k.arg:
                    m = copy.deepcopy(n); del m.keywords[i]; add(n, ast.unparse(m), "drop-kw-" + k.arg)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "delete")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            t = n.attr
            if t.startswith("next_") and len(t) > 5:
                m = copy.deepcopy(n); m.attr = t[5:]; add(n, ast.unparse(m), "not-next")
            if t.endswith("_target"):
                m = copy.deepcopy(n); m.attr = t[:-7]; add(n, ast.unparse(m), "not-target")
    walk(n, fn, None)


for b in tree.body:
    visit(b, False)
enc = [l.encode() for l in lines]


def apply(m):
    l0, c0, l1, c1, new, what = m
    e = list(enc)
    if l0 == l1:
        e[l0 - 1] = e[l0 - 1][:c0] + new.encode() + e[l0 - 1][c1:]
    else:
        e[l0 - 1] = e[l0 - 1][:c0] + new.encode() + e[l1 - 1][c1:]
        for k in range(l0, l1):
            e[k] = None
    t = b"\n".join(x for x in e if x is not None).decode()
    try:
        ast.parse(t)
    except SyntaxError:
        return None
    return t


random.Random(seed).shuffle(out)
uniq, done = set(), []
for m in out:
    t = apply(m)
    if t and t != src and t not in uniq:
        uniq.add(t)
        done.append((m, t))
print("%s: %d mutants possible" % (path, len(done)), flush=True)
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", BASE, W])
killed = 0
for m, t in done[:n]:
    open(W + "/reagent/" + path, "w").write(t)
    ok = False
    for c in checks:
        t0 = time.time()
        r = subprocess.run(["timeout", "900", "./run.sh", c], cwd=H, env=dict(os.environ, VERIF_REPO=W, VERIF_FAILFAST="1"), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1:
            ok = True
            break
        if r.returncode:
            print("rc", r.returncode, c, m, r.stdout[-300:])
    killed += ok
    if not ok:
        s = "SURVIVED %s:%d %s [%s]  ->  %s  | %s" % (path, m[0], m[5], lines[m[0] - 1].strip()[:110], m[4][:160].replace("\n", " "), ",".join(checks))
        print(s, flush=True)
        open("/tmp/mut.log", "a").write(s + "\n")
print("%s: %d of %d killed" % (path, killed, min(n, len(done))), flush=True)
open("/tmp/mut.log", "a").write("%s: %d of %d killed by %s\n" % (path, killed, min(n, len(done)), ",".join(checks)))
shutil.rmtree(W, ignore_errors=True)
