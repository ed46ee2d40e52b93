"""mutation campaign (development tool; no check uses it): mutate.py TABLE [ID...]
applies every mutant of tools/mutants/TABLE.py to a copy of /repo under /tmp, runs the stable tests there, then the checks"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
M = []


def mutant(id, props, file, old, new, count=1, which=None):
    M.append((id, props.split(), file, old, new, count, which))


table = sys.argv[1]
exec(open(os.path.join(HERE, "mutants", table + ".py")).read())
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(m):
    id, props, file, old, new, count, which = m
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        r = os.path.join(tmp, "r")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        full = os.path.join(r, "pibronic", file)
        text = open(full).read()
        for a, b in new if old is None else []:      # several replacements in one file
            if text.count(a) != 1:
                return f"{id}: found {text.count(a)} times: {a!r}"
            text = text.replace(a, b)
        if old is None:
            pass
        elif text.count(old) != count:
            return f"{id}: found {text.count(old)} times"
        elif which is None:
            text = text.replace(old, new)
        else:
            parts = text.split(old)
            text = old.join(parts[:which + 1]) + new + old.join(parts[which + 1:])
        open(full, "w").write(text)
        env = dict(os.environ, PYTHONPATH=r, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
        x = os.path.join(tmp, "junit.xml")
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                        "--basetemp=" + tmp + "/tmp", "--randomly-seed=12345", "--randomly-dont-reorganize",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests"],
                       cwd=r, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", tmp + "/out.json", "junit:" + x], cwd=r,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        res = json.load(open(tmp + "/out.json"))
        passed = set(res.get("passed", res))
        t = "tests-ok" if BASE <= passed else f"tests FAIL({len(BASE - passed)})"
        env = dict(os.environ, VERIF_REPO=r)
        out = []
        for p in props:
            q = subprocess.run(["timeout", "900", "/opt/venv/bin/python", "run.py", p, "--tier", "quick", "--jobs", "2"],
                               cwd=os.path.dirname(HERE), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = f"VIOLATION property={p} " in q.stdout
            why = ""
            if hit:
                why = next((ln for ln in q.stdout.splitlines() if ln.startswith("VIOLATION")), "")
            elif q.returncode:
                why = q.stdout[-300:].replace("\n", " | ")
            out.append(f"{p}:{'caught' if hit else 'MISSED'}({q.returncode}){'' if hit else why}")
        return f"{id:28} {t:16} " + " ".join(out)
    except Exception as e:
        return f"{id}: {e!r}"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


todo = [m for m in M if not sys.argv[2:] or m[0] in sys.argv[2:]]
with ThreadPoolExecutor(4) as ex:
    for line in ex.map(run, todo):
        print(line, flush=True)
