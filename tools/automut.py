"""automatic mutation campaign (development tool; no check uses it): automut.py FILE STRIDE OFFSET [OUT]
every STRIDE-th mutant of pibronic/FILE is applied to a copy of /repo under /tmp; those that pass the stable tests are
given to the checks of that file, one after another until one catches it"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
CHECKS = {
    "pimc/pimc.py": "P01 P27 P05 P03 P07 P08 P24 P17 P04 P02 P06 P10",
    "data/postprocessing.py": "P07 P06 P10 P28 P20",
    "data/file_structure.py": "P07 P06 P25 P20 P24 P17 P10",
    "data/file_name.py": "P07 P10 P20 P28",
    "stats/stats.py": "P08 P09 P10",
    "stats/jackknife.py": "P09 P08 P10",
    "constants.py": "P08 P03 P01 P02",
    "helper.py": "P15 P31 P23",
    "vibronic/vibronic_model_io.py": "P12 P11 P13 P14 P26 P25 P06 P15",
    "vibronic/vibronic_model_keys.py": "P11 P12 P13 P15",
    "vibronic/model_op.py": "P15 P25",
    "vibronic/model_h.py": "P31",
    "vibronic/orthonormal/create.py": "P14",
    "vibronic/orthonormal/sequences.py": "P29 P14",
    "server/job_boss.py": "P16 P19 P17 P24 P18 P21 P32",
    "server/nlogn_feynman/pimc.py": "P24 P17",
    "julia_wrapper.py": "P20 P33",
    "plotting/plotting.py": "P28",
    "plotting/grid_plots.py": "P30",
    "plotting/virtual.py": "P28",
    "vibronic/electronic_structure.py": "P23 P22 P21 P32",
}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.Pow: "*"}


def mutants(text):
    """(line, description, new text); positions by utf-8 columns are fine: edits are made on the encoded lines"""
    tree = ast.parse(text)
    data = text.encode()
    starts = [0]
    for ln in data.splitlines(keepends=True):
        starts.append(starts[-1] + len(ln))

    def at(line, col):
        return starts[line - 1] + col

    def span(n):
        return at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)

    def src(n):
        a, b = span(n)
        return data[a:b].decode()

    def put(n, new):
        a, b = span(n)
        return (data[:a] + new.encode() + data[b:]).decode()

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Constant):
            skip.add(n.value)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = src(n.value.func)
            if f.startswith(("log.", "print", "warnings.")):
                skip.update(ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(x for x in ast.walk(n) if x is not n)
        if isinstance(n, (ast.Raise, ast.Assert)) :
            sub = n.exc if isinstance(n, ast.Raise) else n.msg
            if sub is not None:
                skip.update(ast.walk(sub))
    for n in ast.walk(tree):
        if n in skip:
            continue
        L = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield L, "cmp", put(n, f"({src(n.left)} {CMP[type(n.ops[0])]} {src(n.comparators[0])})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            yield L, "bin", put(n, f"({src(n.left)} {BIN[type(n.op)]} {src(n.right)})")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield L, "bool", put(n, "(" + op.join(f"({src(v)})" for v in n.values) + ")")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield L, "unary", put(n, f"({src(n.operand)})")
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis:
            if n.value is None:
                continue
            new = {True: "False", False: "True"}[n.value] if isinstance(n.value, bool) else \
                str(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.01 + 1e-6 * (n.value == 0)) if isinstance(n.value, float) else None
            if new:
                yield L, f"const {n.value}", put(n, new)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 40 and "\n" not in src(n):
            q = src(n)
            if q[0] in "'\"" and len(q) > 2 and q[:3] not in ("'''", '"""'):
                yield L, "str", put(n, q[:-1] + "x" + q[-1])
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for v in ("True", "False"):
                if isinstance(n, ast.While) and v == "True":
                    continue
                yield L, "if " + v, put(n.test, v)
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            new = {"+": "-=", "-": "+=", "*": "/=", "/": "*="}.get({ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/"}.get(type(n.op)))
            if new:
                yield L, "aug", put(n, f"{src(n.target)} {new} {src(n.value)}")
            yield L, "aug=", put(n, f"{src(n.target)} = {src(n.value)}")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)) and n not in skip and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and not (
                isinstance(n, ast.Expr) and n.value in skip):
            yield L, "del", put(n, "pass")
        if isinstance(n, ast.Break):
            yield L, "break", put(n, "continue")
        if isinstance(n, ast.Continue):
            yield L, "continue", put(n, "break" if L % 2 else "pass")
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and "sep" not in k.arg:
                    a, b = at(k.lineno, k.col_offset), at(k.end_lineno, k.end_col_offset)
                    rest = data[b:]
                    tail = rest.lstrip()
                    if tail[:1] == b",":
                        yield L, "kw " + k.arg, (data[:a] + tail[1:]).decode()
                    else:
                        head = data[:a].rstrip()
                        if head.endswith((b",", b"(")):
                            head = head.rstrip(b",")
                            yield L, "kw " + k.arg, (head + rest).decode()
            for x, y in zip(n.args, n.args[1:]):
                if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred) and src(x) != src(y):
                    a, b = span(x)
                    c, d = span(y)
                    yield L, "swap args", (data[:a] + data[c:d] + data[b:c] + data[a:b] + data[d:]).decode()
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                yield L, "slice lower", put(n.lower, f"({src(n.lower)})+1")
            if n.upper is not None:
                yield L, "slice upper", put(n.upper, f"({src(n.upper)})-1")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
            yield L, "return None", put(n.value, "None")


def run(m):
    file, k, line, what, text, orig = m
    tmp = tempfile.mkdtemp(prefix="am_", dir="/tmp/am")
    try:
        r = os.path.join(tmp, "r")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        full = os.path.join(r, "pibronic", file)
        open(full, "w", newline="").write(text)
        diff = subprocess.run(["diff", "/repo/pibronic/" + file, full], stdout=subprocess.PIPE, text=True).stdout
        new = "  =>  ".join(x.strip() for x in diff.splitlines()[1:] if x[:1] in "<>")[:260]
        tag = f"{file}:{line} [{what}] #{k} {new}"
        env = dict(os.environ, PYTHONPATH=r, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
        x = os.path.join(tmp, "junit.xml")
        subprocess.run(["timeout", "120", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60",
                        "--basetemp=" + tmp + "/tmp", "--randomly-seed=12345", "--randomly-dont-reorganize",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"],
                       cwd=r, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not os.path.exists(x):
            return "tests", tag
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", tmp + "/out.json", "junit:" + x], cwd=r,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res = json.load(open(tmp + "/out.json"))
        if not BASE <= set(res.get("passed", res)):
            return "tests", tag
        env = dict(os.environ, VERIF_REPO=r)
        for p in CHECKS[file].split():
            q = subprocess.run(["timeout", "600", "/opt/venv/bin/python", "run.py", p, "--tier", "quick", "--jobs", "1" if p in SLOW else "1"],
                               cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if f"VIOLATION property={p} " in q.stdout:
                return "caught " + p, tag
            if q.returncode:
                return f"ERROR {p} {q.returncode}", tag + " " + q.stdout[-200:].replace("\n", "|")
        return "SURVIVED", tag
    except Exception as e:
        return f"problem {e!r}", f"{file}:{line} [{what}] #{k}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


SLOW = ()
VERIF = os.environ.get("AM_VERIF", os.path.dirname(HERE))
if __name__ == "__main__":
    file, stride, offset = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    text = open("/repo/pibronic/" + file, newline="").read()
    every = []
    lines = text.splitlines()
    for line, what, new in mutants(text):
        try:
            compile(new, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        every.append((line, what, new))
    random.Random(5).shuffle(every)
    chosen = [(file, k, *m, text) for k, m in enumerate(every)][offset::stride]
    print(f"{file}: {len(every)} mutants, {len(chosen)} chosen", flush=True)
    if len(sys.argv) > 4 and sys.argv[4] == "count":
        sys.exit()
    counts = {}
    with ThreadPoolExecutor(int(os.environ.get("AM_JOBS", "8"))) as ex:
        for verdict, tag in ex.map(run, chosen):
            counts[verdict.split()[0]] = counts.get(verdict.split()[0], 0) + 1
            print(verdict, tag, flush=True)
    print(file, counts)
