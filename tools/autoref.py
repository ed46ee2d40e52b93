"""automatic behaviour-preserving edits (development tool; no check uses it): autoref.py OUTDIR [NAME ...]
every transformation is applied to all modules of a copy of /repo at once; the stable tests and then all checks are run
against the copy, and everything that does not stay quiet is reported"""
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
FUN = (ast.FunctionDef, ast.AsyncFunctionDef)


class Rename(ast.NodeTransformer):
    """local variables get other names"""

    def visit_FunctionDef(self, f):
        stored, kept = set(), set()
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stored.add(n.id)
            if isinstance(n, ast.arg):
                kept.add(n.arg)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                kept |= set(n.names)
            if isinstance(n, ast.ExceptHandler) and n.name:
                kept.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                kept |= {(a.asname or a.name).split(".")[0] for a in n.names}
            if isinstance(n, FUN + (ast.ClassDef,)) and n is not f:
                kept.add(n.name)
        names = stored - kept
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names:
                n.id += "_v"
        return f


class Return(ast.NodeTransformer):
    """what is returned gets a name first"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Constant):
            return n
        return [ast.Assign([ast.Name("outcome_", ast.Store())], n.value), ast.Return(ast.Name("outcome_", ast.Load()))]


class Invert(ast.NodeTransformer):
    """if/else the other way round"""

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Pass()], n.body)


class Loop(ast.NodeTransformer):
    """for loops over an iterator in a while loop"""

    def __init__(self):
        self.k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        self.k += 1
        it, end = f"walk_{self.k}", f"end_{self.k}"
        head = ast.parse(f"{it} = iter(0)\n{end} = object()\nwhile True:\n    here_ = next({it}, {end})\n    if here_ is {end}:\n"
                         f"        break\n    x_ = here_\n").body
        head[0].value.args[0] = n.iter
        w = head[2]
        w.body[2].targets = [n.target]
        w.body += n.body
        return head


class Extract(ast.NodeTransformer):
    """the body of every function in a nested helper"""

    def visit_FunctionDef(self, f):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Nonlocal)) for n in ast.walk(f)) or f.name.startswith("__") or \
                any(isinstance(n, ast.Name) and n.id == "super" for n in ast.walk(f)):
            return f
        inner = copy.deepcopy(f)
        inner.name = f"inside_{f.name}"
        inner.decorator_list = []
        args = inner.args
        args.defaults = []
        args.kw_defaults = [None] * len(args.kwonlyargs)
        for a in args.args + args.kwonlyargs:
            a.annotation = None
        call = ast.Call(ast.Name(inner.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in args.args],
                        [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in args.kwonlyargs])
        if args.vararg:
            call.args.append(ast.Starred(ast.Name(args.vararg.arg, ast.Load()), ast.Load()))
        if args.kwarg:
            call.keywords.append(ast.keyword(None, ast.Name(args.kwarg.arg, ast.Load())))
        f.body = [inner, ast.Return(call)]
        return f


class Commute(ast.NodeTransformer):
    """products with the factors exchanged, comparisons turned round"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, n.op, n.left)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        turn = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in turn:
            return ast.Compare(n.comparators[0], [turn[type(n.ops[0])]()], [n.left])
        return n


class Associate(ast.NodeTransformer):
    """a * b * c as a * (b * c), a / b as a * (1 / b): other rounding"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult):
            return ast.BinOp(n.left.left, ast.Mult(), ast.BinOp(n.left.right, ast.Mult(), n.right))
        return n


class Divide(ast.NodeTransformer):
    """a / b as a * (1 / b) in arithmetic modules: other rounding"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        return n


class Assert(ast.NodeTransformer):
    """assertions as ifs"""

    def visit_Assert(self, n):
        call = ast.Call(ast.Name("AssertionError", ast.Load()), [n.msg] if n.msg else [], [])
        return ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Raise(call)], [])


class Comprehend(ast.NodeTransformer):
    """list comprehensions as list(generator), dictionary displays as dict(pairs)"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])


class Positions(ast.NodeTransformer):
    """np.einsum with an optimized contraction (other rounding), np.sum as a method"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if ast.unparse(n.func) == "np.einsum" and not any(k.arg == "optimize" for k in n.keywords):
            n.keywords.append(ast.keyword("optimize", ast.Constant(True)))
        return n


class Late(ast.NodeTransformer):
    """attributes of modules are looked up by getattr"""

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            return [ast.Assign([ast.Name("ignored_", ast.Store())], n.value)] if self.inside else n
        return n

    inside = 0

    def visit_FunctionDef(self, f):
        self.inside += 1
        self.generic_visit(f)
        self.inside -= 1
        return f


ALL = [Rename, Return, Invert, Loop, Extract, Commute, Associate, Divide, Assert, Comprehend, Positions, Late]


def tests(root):
    """the stable tests that fail"""
    env = dict(os.environ, PYTHONPATH=root, OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONWARNINGS="ignore")
    x = os.path.join(root, "junit.xml")
    subprocess.run(["timeout", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60",
                    "--basetemp=" + root + "/tmp", "--randomly-seed=12345", "--randomly-dont-reorganize",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"],
                   cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", root + "/out.json", "junit:" + x], cwd=root,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    res = json.load(open(root + "/out.json"))
    return sorted(BASE - set(res.get("passed", res)))


def main():
    out, names = sys.argv[1], sys.argv[2:]
    checks = os.environ.get("AR_CHECKS", " ".join(f"P{i:02d}" for i in range(1, 32))).split()
    named = {T.__name__: T for T in ALL}
    for name in names or list(named):            # A+B: one after the other
        root = f"/tmp/ar/{name}"
        shutil.rmtree(root, ignore_errors=True)
        shutil.copytree("/repo", root, symlinks=True)
        count = 0
        for base, _, files in os.walk(os.path.join(root, "pibronic")):
            for f in files:
                if not f.endswith(".py"):
                    continue
                path = os.path.join(base, f)
                text = open(path, newline="").read()
                before = ast.unparse(ast.parse(text))
                after = text
                for T in name.split("+"):
                    after = ast.unparse(ast.fix_missing_locations(named[T]().visit(ast.parse(after))))
                count += before != after
                compile(after, path, "exec")
                open(path, "w").write(after + "\n")
        print(name, count, "files", flush=True)
        print("  tests:", tests(root), flush=True)
        for p in checks:
            try:
                r = subprocess.run(["/opt/venv/bin/python", "run.py", p, "--tier", "quick", "--jobs", os.environ.get("AR_JOBS", "3")],
                                   cwd=os.environ.get("AR_VERIF", os.path.dirname(HERE)), capture_output=True, text=True,
                                   env={**os.environ, "VERIF_REPO": root}, timeout=900)
            except subprocess.TimeoutExpired:
                print("  TIMEOUT", p, flush=True)
                continue
            if r.returncode:
                print("  ALARM", p, (r.stdout + r.stderr)[-1500:], flush=True)
                replay = re.search(r"replay=(\S+)", r.stdout)
                if replay:
                    shutil.copy(replay.group(1), os.path.join(out, f"{name}_{p}.json"))
        shutil.rmtree(root, ignore_errors=True)


main()
