"""python3 tools/stale.py FILE CHECK[,CHECK] N [SEED]: development aid, like mutate.py. Mutants that go wrong only on repeated use: a
value computed once and reused for inputs of the same shape ("stale"), an operation done in place ("inplace"), a copy left out ("alias")"""
import ast, copy, glob, os, random, shutil, subprocess, sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("MUT_BASE", "/tmp/wt")
W = os.environ.get("MUT_WORK", "/tmp/stalerepo")
path, checks, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
src = open(BASE + "/reagent/" + path).read()
tree = ast.parse(src)
lines = src.split("\n")
seen = set()
for c in checks:
    for f in glob.glob("/tmp/cov/%s/*.txt" % c):
        for l in open(f):
            p, k = l.split()
            if p == path:
                seen.add(int(k))
out = []
KEY = "tuple(tuple(v_.shape) if hasattr(v_, 'shape') else len(v_) if hasattr(v_, '__len__') and not isinstance(v_, str) else v_ if isinstance(v_, (int, float, str, bool)) else None for v_ in (%s))"


def names(e, local):
    inner = {g.id for c in ast.walk(e) if isinstance(c, ast.comprehension) for g in ast.walk(c.target) if isinstance(g, ast.Name)}
    inner |= {a.arg for c in ast.walk(e) if isinstance(c, ast.Lambda) for a in c.args.args}
    return sorted({x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in local and x.id not in inner and x.id != "self"})


def fndef(f, method):
    if f.name == "__init__" or any("script" in ast.unparse(d) for d in f.decorator_list):
        return
    local = {a.arg for a in f.args.args + f.args.kwonlyargs}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            local.add(x.id)
    holder = f.args.args[0].arg if method and f.args.args and f.args.args[0].arg == "self" else None
    for s in ast.walk(f):
        if not any(k in seen for k in range(getattr(s, "lineno", 0), getattr(s, "end_lineno", -1) + 1)):
            continue
        ind = " " * getattr(s, "col_offset", 0)
        e = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)):
            e = s.value
            put = ast.unparse(s.targets[0]) + " = %s"
        elif isinstance(s, ast.Return) and s.value is not None:
            e, put = s.value, "return %s"
        if e is not None and names(e, local) and not isinstance(e, (ast.Name, ast.Constant, ast.JoinedStr, ast.Lambda, ast.Yield)) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(e)):
            at = "_st%d" % s.lineno
            k = KEY % "".join(x + ", " for x in names(e, local))
            if holder:
                t = ["%s_k = %s" % (at, k), "if self.__dict__.get('%s', (None,))[0] != %s_k:" % (at, at), "    self.__dict__['%s'] = (%s_k, %s)" % (at, at, ast.unparse(e)), put % ("self.__dict__['%s'][1]" % at)]
            else:
                t = ["%s_k = %s" % (at, k), "if globals().get('%s', (None,))[0] != %s_k:" % (at, at), "    globals()['%s'] = (%s_k, %s)" % (at, at, ast.unparse(e)), put % ("globals()['%s'][1]" % at)]
            out.append((s, ("\n" + ind).join(t), "stale"))
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and type(s.value.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div) and isinstance(s.value.left, (ast.Name, ast.Attribute)):
            l = ast.unparse(s.value.left)
            if l != s.targets[0].id:
                m = ast.unparse(ast.AugAssign(s.value.left, s.value.op, s.value.right))
                out.append((s, m + "\n" + ind + "%s = %s" % (s.targets[0].id, l), "inplace"))
        if isinstance(s, ast.Call) and len(s.args) == 1 and not s.keywords and ast.unparse(s.func) in ("list", "dict", "tuple", "set", "copy.copy", "copy.deepcopy", "deepcopy", "np.array", "torch.tensor", "OrderedDict"):
            if not isinstance(s.args[0], (ast.GeneratorExp, ast.ListComp, ast.Constant)):
                out.append((s, "(%s)" % ast.unparse(s.args[0]), "alias"))
        if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in ("clone", "copy", "detach") and not s.args:
            out.append((s, ast.unparse(s.func.value), "alias"))


def walk(n_, method):
    for ch in ast.iter_child_nodes(n_):
        if isinstance(ch, (ast.FunctionDef,)):
            fndef(ch, method)
        elif isinstance(ch, ast.ClassDef):
            walk(ch, True)
        elif isinstance(ch, (ast.If, ast.Try, ast.With)):
            walk(ch, method)


walk(tree, False)
enc = [l.encode() for l in lines]


def apply(m):
    s, new, what = m
    e = list(enc)
    a, b = s.lineno - 1, s.end_lineno - 1
    e[a] = e[a][: s.col_offset] + new.encode() + e[b][s.end_col_offset:]
    for k in range(a + 1, b + 1):
        e[k] = None
    t = b"\n".join(x for x in e if x is not None).decode()
    try:
        ast.parse(t)
    except SyntaxError:
        return None
    return t


random.Random(seed).shuffle(out)
uniq, done = set(), []
for m in out:
    t = apply(m)
    if t and t not in uniq:
        uniq.add(t)
        done.append((m, t))
print("%s: %d mutants possible" % (path, len(done)), flush=True)
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", BASE, W])
killed = 0
for m, t in done[:n]:
    open(W + "/reagent/" + path, "w").write(t)
    ok = False
    for c in checks:
        r = subprocess.run(["timeout", "900", "./run.sh", c], cwd=H, env=dict(os.environ, VERIF_REPO=W, VERIF_FAILFAST="1"), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 1:
            ok = True
            break
    killed += ok
    if not ok:
        print("SURVIVED %s:%d %s [%s] | %s" % (path, m[0].lineno, m[2], " ".join(x.strip() for x in lines[m[0].lineno - 1: m[0].end_lineno])[:220], ",".join(checks)), flush=True)
print("%s: %d of %d killed" % (path, killed, min(n, len(done))), flush=True)
shutil.rmtree(W, ignore_errors=True)
