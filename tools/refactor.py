"""python3 tools/refactor.py KIND DIR: development aid. Rewrites every source file below DIR/reagent (tests excluded) without changing what it
does, so that all checks can be run on the result (VERIF_REPO=DIR ./run.sh PID): they must stay quiet.
KIND: returns | branches | loops | helpers | kwargs | locals | unparse"""
import ast, glob, os, sys

kind, root = sys.argv[1:3]


def simple(e):
    if isinstance(e, (ast.Constant, ast.Name)):
        return True
    return isinstance(e, ast.Attribute) and simple(e.value)


def is_gen(f):
    todo = list(f.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))
    return False


class T(ast.NodeTransformer):
    n = 0

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list):
                setattr(node, f, self.block(v))
        return node

    def stmt(self, s):
        return s


class Returns(T):
    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            return [ast.Assign([ast.Name("result_value", ast.Store())], s.value), ast.Return(ast.Name("result_value", ast.Load()))]
        return s


class Branches(T):
    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            n.id = self.m[n.id]
        return n


class Loops(T):
    """x = [e for t in it if c]  ->  x = []; for t in it: if c: x.append(e)"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
            g, x = s.value.generators[0], s.targets[0].id
            used = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
            if x in used or any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for n in ast.walk(s.value.elt)):
                return s
            names = {n.id: n.id + "_item" for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            R = Rename(names)
            it = g.iter
            body = ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "append", ast.Load()), [R.visit(s.value.elt)], []))
            for c in reversed(g.ifs):
                body = ast.If(R.visit(c), [body], [])
            return [ast.Assign([ast.Name(x, ast.Store())], ast.List([], ast.Load())), ast.For(R.visit(g.target), it, [body], [])]
        return s


class Helpers(T):
    """method body -> private helper, called with the same arguments"""

    def visit_ClassDef(self, c):
        out = []
        if any("NamedTuple" in ast.dump(b) or "Enum" in ast.dump(b) for b in c.bases):
            return c
        for f in c.body:
            out.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.name.startswith("__") or f.name == "forward" or is_gen(f):
                continue
            a = f.args
            if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs or not a.args or a.args[0].arg != "self":
                continue
            if any(isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals") for n in ast.walk(f)) or all(isinstance(b, (ast.Pass, ast.Expr, ast.Raise)) for b in f.body):
                continue
            if c.name in SCRIPTED or os.environ.get("SKIP_" + f.name):
                continue
            name = "_do_" + f.name + "_of_" + c.name
            helper = ast.FunctionDef(name, ast.arguments([], [ast.arg(x.arg) for x in a.args], None, [], [], None, []), f.body, [], None)
            f.body = [ast.Return(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]], []))]
            out.append(helper)
        c.body = out
        return c


SCRIPTED = set()


class Kwargs(T):
    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.keywords) > 1 and all(k.arg and simple(k.value) for k in n.keywords) and not any(isinstance(a, ast.Starred) for a in n.args):
            if not (isinstance(n.func, ast.Name) and n.func.id in ("dict", "OrderedDict", "NamedTuple")):
                n.keywords = n.keywords[::-1]
        return n


class Locals(T):
    """x = f(a.b(c))  ->  arg_value = a.b(c); x = f(arg_value), first positional argument only"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.func, (ast.Name, ast.Attribute)) and simple(s.value.func) and isinstance(s.value.args[0], (ast.Call, ast.BinOp)):
            v = s.value.args[0]
            if isinstance(s.value.func, ast.Name) and s.value.func.id in ("super", "Union", "Optional", "namedtuple", "TypeVar", "NewType"):
                return s
            s.value.args[0] = ast.Name("arg_value", ast.Load())
            return [ast.Assign([ast.Name("arg_value", ast.Store())], v), s]
        return s


K = dict(returns=Returns, branches=Branches, loops=Loops, helpers=Helpers, kwargs=Kwargs, locals=Locals, unparse=T)
n = 0
for p in sorted(glob.glob(root + "/reagent/**/*.py", recursive=True)):
    if "/test/" in p or "/test_" in p or os.path.basename(p) == "conftest.py":
        continue
    src = open(p).read()
    if not src.strip():
        continue
    tree = ast.parse(src)
    before = ast.dump(tree)
    K[kind]().visit(tree)
    if kind == "unparse" or ast.dump(tree) != before:
        ast.fix_missing_locations(tree)
        new = ast.unparse(tree) + "\n"
        compile(new, p, "exec")
        open(p, "w").write(new)
        n += 1
print(kind, n, "files")
