"""writes /verif/seeded/<id>/ from the table SEEDS (development tool; no check uses it)
usage: make.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS[id] = (prop, edits, demo, needs, breaks)


for name in sorted(os.listdir(HERE)):
    if name.startswith("table"):
        exec(open(os.path.join(HERE, name)).read())

for id in sys.argv[1:] or SEEDS:
    prop, edits, demo, needs, breaks = SEEDS[id]
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mkseed_")
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", tmp + "/r"], check=True)
    try:
        for path, old, new in edits:
            full = os.path.join(tmp, "r", "pibronic", path)
            text = open(full, newline="").read()
            if "\r\n" in text:
                old, new = (s.replace("\n", "\r\n") for s in (old, new))
            assert text.count(old) == 1, (id, path, text.count(old), old)
            open(full, "w", newline="").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", tmp + "/r"])
        shutil.rmtree(tmp)
    open(os.path.join(d, "demo.py"), "w").write("from lib import *\n\n" + demo.strip() + "\nprint('ok')\n")
    shutil.copy(os.path.join(HERE, "lib.py"), d)
    if "from mc" in demo:
        shutil.rmtree(os.path.join(d, "mc"), ignore_errors=True)
        shutil.copytree(os.path.join(os.path.dirname(OUT), "mc"), os.path.join(d, "mc"),
                        ignore=lambda at, names: [n for n in names if n == "__pycache__" or n.startswith("p") and n != "p15.py"])
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
print("made", len(sys.argv[1:] or SEEDS))
