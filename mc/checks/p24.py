"""the job script of the cluster: every interleaving of jobs that run at the same time on one node."""
import contextlib
import itertools as it
import os
import runpy
import signal
import subprocess
import sys
import zipfile

import numpy as np

from mc import common as c
from mc import core, outside
from mc.checks import p17

PROPERTY = "P24"
RULE = ("a case is (ids and cells of the jobs, how files reach the other file system, whether one fails, first steps of the schedule); within it "
        "every interleaving of the remaining steps {start, create, half written, complete, end of the sampling, copy and remove / "
        "rename one file} of two real job scripts, and of three with at most one (thorough: four) preemptions, is executed; "
        "every schedule with at most 2 (thorough: 3) preemptions of two real sampling processes, which stop before they create a "
        "directory, open a file for writing, store each array, rename or remove something; every point at which one of the "
        "two is killed x every point at which the other one is then; "
        "non-trivial: a job moves files while another one is writing")
ASSUMPTIONS = ["between two steps of a job nothing else happens; a move between file systems copies, then removes",
               "an open file that was moved away or removed is still written by its job",
               "slurm gives every job an id of its own", "ssh, sacct, sleep and python are stand-ins, bash is real"]
CASE_TIMEOUT = 600
SETS = [
    [(5, 3, 300.0), (15, 3, 300.0)],       # same cell, one id ends like the other
    [(51, 3, 300.0), (5, 3, 300.0)],       # ... begins like the other
    [(5, 3, 300.0), (6, 30, 300.0)],       # cells that begin alike
    [(7, 5, 7.0), (5, 7, 5.0)],
]
THREE = [[(5, 3, 300.0), (15, 3, 300.0), (51, 13, 300.0)]]


def cases(tier):
    sets = SETS if tier != "quick" else SETS[:3]
    for jobs in sets:
        for how in ("copy", "rename"):
            for prefix in it.product(range(2), repeat=4):
                for fails in (None, 0) if how == "copy" else (None,):
                    yield {"jobs": jobs, "how": how, "prefix": prefix, "bound": None, "cluster": "nlogn", "fails": fails}
    for jobs in THREE:
        for how in ("copy", "rename"):
            for first in it.permutations(range(3), 2):
                yield {"jobs": jobs, "how": how, "prefix": first, "bound": 1 if tier == "quick" else 4, "cluster": "feynman",
                       "fails": None}
    for jobs in SETS[:3]:
        for fresh in (True, False):
            for first in (0, 1):
                for what in ("sampling", "killed"):
                    yield {"what": what, "jobs": jobs, "fresh": fresh, "prefix": (first,), "bound": 2 if tier == "quick" else 3,
                           "cluster": "nlogn"}


STUB = {
    # the sampling: writes its result in three steps through one open file
    "python": """point create
[ "$FAILS" = yes ] && exit 1
exec 3> "$RESULT_NAME_DIR/$RESULT_NAME"
point half
head -c "$HALF" "$CONTENT" >&3
point rest
tail -c +$((HALF + 1)) "$CONTENT" >&3
exec 3>&-
""",
    # mv [options] source... directory
    "mv": """args=()
for a in "$@"; do case "$a" in -*) ;; *) args+=("$a");; esac; done
n=${#args[@]}
to="${args[$((n-1))]}"
for ((i=0; i<n-1; i++)); do
  from="${args[$i]}"
  name="${from##*/}"
  [ -d "$to" ] && dst="${to%/}/$name" || dst="$to"
  point move
  if [ ! -e "$from" ]; then echo "mv: cannot stat '$from'" >&2; continue; fi
  if [ "$from" -ef "$dst" ]; then echo "mv: same file" >&2; continue; fi
  if [ "$HOW" = rename ]; then /bin/mv -f "$from" "$dst"; continue; fi
  /bin/cat "$from" > "$dst"
  point remove
  /bin/rm -f "$from"
done
""",
    "rm": "point delete\nexec /bin/rm \"$@\"\n",
    "cp": "for a in \"$@\"; do point copy; done\nexec /bin/cp \"$@\"\n",
    "sleep": "exit 0\n", "ssh": "exit 0\n", "sacct": "exit 0\n", "srun": "exit 0\n",
}
POINT = """#!/bin/bash
point() { echo "$1" > "$CTRL.req"; read -r _ < "$CTRL.go"; }
"""


def binaries(root, job_env):
    path = os.path.join(root, "bin")
    os.makedirs(path, exist_ok=True)
    for name, body in STUB.items():
        full = os.path.join(path, name)
        with open(full, "w") as file:
            file.write(POINT + body)
        os.chmod(full, 0o755)
    for name in ("python3",):
        os.symlink(os.path.join(path, "python"), os.path.join(path, name))
    return path


class Job:
    def __init__(self, root, number, env, script, waits):
        self.ctrl = os.path.join(root, f"ctrl{number}")
        for end in ("req", "go"):
            name = f"{self.ctrl}.{end}"
            if os.path.exists(name):
                os.remove(name)
            os.mkfifo(name)
        self.env, self.root, self.script = {**env, "CTRL": self.ctrl}, root, script
        self.trace, self.process = [], None
        self.at = "start"
        if not waits:
            self.start()

    def start(self):
        self.process = subprocess.Popen(
            ["/bin/bash", "-c", '/bin/bash "$0"; echo END > "$CTRL.req"', self.script], env=self.env, cwd=self.root,
            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def arrive(self):
        if self.process is None:
            return self.at
        """waits until the job is at its next step"""
        with open(self.ctrl + ".req") as file:
            self.at = file.read().strip()
        if self.at == "END":
            self.process.wait()
        return self.at

    def go(self):
        if self.process is None:
            self.start()
            self.trace.append(self.at)
            return self.arrive()
        with open(self.ctrl + ".go", "w") as file:
            file.write("\n")
        self.trace.append(self.at)
        return self.arrive()

    def kill(self):
        if self.process is None:
            return
        self.process.kill()
        self.process.wait()


POPEN = subprocess.Popen


def execute(case, obs):
    if "what" in case:
        with obs.tmp() as root:
            sampling(case, obs, root)
        return
    with obs.tmp() as root:
        world = World(case, obs, root)
        todo = [tuple(case["prefix"])]
        while todo:
            schedule = todo.pop()
            todo.extend(world.run(schedule, len(case["prefix"])))
        obs.trace(world.runs)


class World:
    """a cluster node with its scratch directory"""

    def __init__(self, case, obs, tmp):
        from pibronic.pimc import pimc
        from pibronic.server import job_boss
        self.case, self.obs, self.tmp, self.runs = case, obs, tmp, 0
        vib, rho = c.vibronic_model(1, 1, "elL"), c.sampling_model(1, 1)
        root = os.path.join(tmp, "work", "user")
        os.makedirs(root)
        self.FS = FS = c.file_structure(root, vib, rho, 1, 0)
        commands = []

        def submit(argv, text):
            commands.append(argv)
            return f"Submitted batch job {4000 + len(commands)}\n", "", 0
        shell = outside.Shell(outside.slurm(case["cluster"], submit=submit))
        path = binaries(tmp, {})
        self.jobs = []
        for id_job, P, T in case["jobs"]:
            with shell.installed():
                job_boss.PimcSubmissionClass(FS, {
                    "number_of_samples": 2, "block_size": 2, "temperature_list": [T], "bead_list": [P], "number_of_states": 1,
                    "number_of_modes": 1, "id_data": 1, "id_rho": 0}).submit_jobs()
            env, rest, opts = p17.options(commands[-1])
            inside = os.path.realpath(tmp) + os.sep
            for name in ("COPY_FROM", "COPY_TO", "SCRATCH_DIR"):
                obs.check(os.path.realpath(env[name]).startswith(inside), "the job stays in its root directory", name=name)
            # what its sampling writes, and where
            data = pimc.BoxDataPM.from_json_string(env["EXECUTION_PARAMETERS"])
            data.preprocess()
            result = pimc.BoxResultPM(data=data)
            result.id_job = id_job
            result.path_root = tmp
            k = [0.5 * id_job, 2.0]
            result.scaled_rho[:], result.scaled_g[:] = k, k
            result.scaled_gofr_plus[:], result.scaled_gofr_minus[:] = k, k
            result.save_results(2)
            source = result.compute_path_to_file()
            name = os.path.basename(source)
            with open(source, "rb") as file:
                content = file.read()
            os.rename(source, os.path.join(tmp, f"content{id_job}"))
            self.scratch = os.path.join(env["SCRATCH_DIR"], "results")
            self.target = env["COPY_TO"]
            env = {**env, "PYTHON3_PATH": os.path.join(path, "python"), "SLURM_JOB_ID": str(id_job),
                   "SLURM_JOBID": str(id_job), "SLURM_SUBMIT_DIR": tmp, "PATH": path + ":/usr/bin:/bin", "HOME": tmp,
                   "SLURM_JOB_NAME": opts.get("--job-name", ""), "SLURM_CLUSTER_NAME": case["cluster"],
                   "FAILS": "yes" if case["fails"] == len(self.jobs) else "no", "HOW": case["how"], "RESULT_NAME": name, "CONTENT": os.path.join(tmp, f"content{id_job}"),
                   "HALF": str(len(content) // 2), "RESULT_NAME_DIR": self.scratch}
            self.jobs.append((id_job, name, content, env, rest[0]))
        obs.check(os.path.realpath(self.scratch) != os.path.realpath(self.target), "a scratch directory of its own")

    def clean(self):
        for at in (self.scratch, self.target):
            if os.path.isdir(at):
                for name in os.listdir(at):
                    os.remove(os.path.join(at, name))

    def run(self, schedule, fixed):
        """one execution; returns the schedules that branch off behind its fixed part"""
        obs, bound = self.obs, self.case["bound"]
        self.clean()
        # the first job is running, the others start some time
        jobs = [Job(self.tmp, n, env, script, n > 0) for n, (id_job, name, content, env, script) in enumerate(self.jobs)]
        branches, taken, switches = [], [], 0
        try:
            for j in jobs:
                j.arrive()
            overlap = False
            while True:
                able = [n for n, j in enumerate(jobs) if j.at != "END"]
                if not able:
                    break
                at = len(taken)
                if at < len(schedule):
                    n = schedule[at]
                    if n not in able:
                        return []         # no such schedule
                else:
                    n = taken[-1] if taken and taken[-1] in able else able[0]
                    for other in able:
                        if other == n:
                            continue
                        cost = switches + (taken[-1] in able) if taken else 0
                        if bound is None or cost <= bound:
                            branches.append(tuple(taken) + (other,))
                if taken and n != taken[-1] and taken[-1] in able:
                    switches += 1
                if jobs[n].at in ("move", "remove") and any(j.at in ("half", "rest") for j in jobs):
                    overlap = True
                taken.append(n)
                jobs[n].go()
                obs.step()
                obs.state(self.case["jobs"], self.case["how"], [len(j.trace) for j in jobs], [j.at for j in jobs])
                if len(taken) > 200:
                    obs.check(False, "the jobs end", taken=taken)
        finally:
            for j in jobs:
                j.kill()
        self.runs += 1
        if overlap:
            obs.nontriv(self.case["jobs"], self.case["how"], taken)
        here = sorted(os.listdir(self.target))
        for k, (id_job, name, content, env, script) in enumerate(self.jobs):
            if k == self.case["fails"]:
                obs.check(name not in here, "no result of a job that failed", here=here)
                continue
            obs.check(name in here, "the result of every job reaches the results", name=name, here=here, schedule=taken,
                      steps=[j.trace for j in jobs], scratch=os.listdir(self.scratch))
            with open(os.path.join(self.target, name), "rb") as file:
                got = file.read()
            obs.check(got == content, "the result arrives complete", name=name, size=len(got), expected=len(content),
                      schedule=taken, steps=[j.trace for j in jobs])
        obs.check(len(here) == len(self.jobs) - (self.case["fails"] is not None), "nothing else appears in the results", here=here)
        obs.check(not os.listdir(self.scratch), "nothing is left behind", left=os.listdir(self.scratch), schedule=taken)
        return branches


class Sampler:
    """a process of its own which runs the real sampling script and stops before each of its changes of the scratch directory"""

    def __init__(self, root, script, argv, seed):
        self.trace = []
        up, down = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(up[0])
                os.close(down[1])
                self.child(root, script, argv, seed, up[1], down[0])
                code = 0
            except BaseException as err:
                with contextlib.suppress(OSError):
                    os.write(up[1], b"!" + repr(err).encode()[:300] + b"\n")
            finally:
                os._exit(code)
        os.close(up[1])
        os.close(down[0])
        self.up, self.down = up[0], down[1]
        self.code = None
        self.arrive()

    @staticmethod
    def child(root, script, argv, seed, up, down):
        null = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(null, fd)
        sys.stdout = sys.stderr = open(os.devnull, "w")
        inside = os.path.realpath(root) + os.sep

        def point(name):
            os.write(up, name.encode() + b"\n")
            if os.read(down, 1) != b"g":
                os._exit(2)

        def hook(event, args):
            if event not in ("open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink"):
                return
            path = args[0]
            if not isinstance(path, (str, bytes, os.PathLike)):
                return
            full = os.path.abspath(os.fsdecode(path))
            if not os.path.realpath(os.path.dirname(full)).startswith(inside) and not full.startswith(inside):
                return
            if event == "open" and not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                return
            if event == "os.mkdir" and os.path.isdir(full):
                return
            point(event)

        array = zipfile.ZipFile.open

        def opened(self, name, mode="r", *args, **kwargs):
            if mode == "w":
                point("array")
            return array(self, name, mode, *args, **kwargs)

        zipfile.ZipFile.open = opened
        sys.addaudithook(hook)
        os.chdir(root)
        np.random.seed(seed)
        sys.argv = [script] + argv
        runpy.run_path(script, run_name="__main__")

    def arrive(self):
        text = b""
        while not text.endswith(b"\n"):
            part = os.read(self.up, 1)
            if not part:
                self.at = "END"
                self.close()
                return
            text += part
        self.at = text.decode().strip()
        if self.at.startswith("!"):
            self.error = self.at
            self.at = "END"
            self.close()

    def go(self):
        self.trace.append(self.at)
        os.write(self.down, b"g")
        self.arrive()

    def close(self):
        if self.code is None:
            os.close(self.up)
            os.close(self.down)
            _, status = os.waitpid(self.pid, 0)
            self.code = os.waitstatus_to_exitcode(status)

    def kill(self):
        if self.code is None:
            os.kill(self.pid, signal.SIGKILL)
            self.close()
        self.at = "END"

    error = ""


def sampling(case, obs, root):
    """two real sampling processes on one node"""
    import pibronic.pimc.pimc
    import pibronic.server.job_boss  # noqa: F401  (the processes inherit it)
    world = World({**case, "how": "copy", "fails": None}, obs, root)
    script = None
    jobs = []
    for id_job, name, content, env, rest in world.jobs:
        script = env["SAMPLING_SCRIPT"]
        jobs.append(([env["EXECUTION_PARAMETERS"], env["SCRATCH_DIR"], str(id_job)], id_job, name))
    scratch = os.path.realpath(os.path.join(world.scratch, "..", "..", ".."))
    obs.check(scratch.startswith(os.path.realpath(root) + os.sep), "the scratch directory is that of the user", scratch=scratch)

    def prepare():
        for at, directories, files in os.walk(scratch, topdown=False):
            for name in files:
                os.remove(os.path.join(at, name))
            if case["fresh"]:
                for name in directories:
                    os.rmdir(os.path.join(at, name))
        os.makedirs(world.scratch, exist_ok=True)       # done by the job script

    def start(n):
        return Sampler(root, script, jobs[n][0], 1000 + jobs[n][1])

    def read(name):
        with np.load(os.path.join(world.scratch, name)) as file:
            return {k: file[k] for k in file}

    alone = {}
    lengths = []
    for n, (argv, id_job, name) in enumerate(jobs):
        prepare()
        p = start(n)
        while p.at != "END":
            p.go()
        obs.check(p.code == 0 and os.listdir(world.scratch) == [name], "a job leaves its result", code=p.code, error=p.error,
                  here=os.listdir(world.scratch), name=name)
        alone[n] = read(name)
        lengths.append(len(p.trace))
        obs.check(set(alone[n]) >= {"s_rho", "s_g", "s_gP", "s_gM"} and len(alone[n]["s_g"]) == 2, "with all its samples")

    def complete(n, taken):
        name = jobs[n][2]
        here = os.listdir(world.scratch)
        obs.check(name in here, "the result of every job is there", name=name, here=here, schedule=taken)
        try:
            got = read(name)
        except Exception as err:
            obs.check(False, "the result is readable", error=repr(err), schedule=taken)
        obs.check(set(got) == set(alone[n]) and all(np.array_equal(got[k], alone[n][k]) for k in got),
                  "the result of a job is the one it leaves alone", name=name, schedule=taken)

    first = case["prefix"][0]
    if case["what"] == "killed":
        for at, other in it.product(range(lengths[first] + 1), range(lengths[1 - first])):
            prepare()
            a, b = start(first), start(1 - first)
            try:
                for _ in range(other):
                    if b.at != "END":
                        b.go()
                for _ in range(at):
                    if a.at != "END":
                        a.go()
                a.kill()
                while b.at != "END":
                    b.go()
                obs.check(b.code == 0, "a job that is killed does not disturb another one", error=b.error, at=at, other=other)
                complete(1 - first, (at, other))
            finally:
                a.kill()
                b.kill()
            obs.step(lengths[0] + lengths[1])
            obs.trace()
            obs.state("killed", case["jobs"], case["fresh"], first, at, other)
            obs.nontriv("killed", case["jobs"], case["fresh"], first, at, other)
        return
    todo = [tuple(case["prefix"])]
    while todo:
        schedule = todo.pop()
        prepare()
        pair = [start(0), start(1)]
        taken, switches = [], 0
        try:
            while True:
                able = [n for n in (0, 1) if pair[n].at != "END"]
                if not able:
                    break
                if len(taken) < len(schedule):
                    n = schedule[len(taken)]
                else:
                    n = taken[-1] if taken and taken[-1] in able else able[0]
                    for k in able:
                        if k != n and switches + (taken[-1] in able) <= case["bound"]:
                            todo.append(tuple(taken) + (k,))
                if n not in able:
                    break
                if taken and n != taken[-1] and taken[-1] in able:
                    switches += 1
                taken.append(n)
                pair[n].go()
                obs.step()
                obs.state("sampling", case["jobs"], case["fresh"], [len(p.trace) for p in pair])
                obs.check(len(taken) < 400, "the jobs end", taken=taken)
            for n in (0, 1):
                obs.check(pair[n].code == 0, "a job succeeds whatever the other one does", job=jobs[n][2], error=pair[n].error,
                          schedule=taken, steps=[p.trace for p in pair])
                complete(n, taken)
            obs.check(sorted(os.listdir(world.scratch)) == sorted(job[2] for job in jobs), "nothing else appears",
                      here=os.listdir(world.scratch), schedule=taken)
        finally:
            for p in pair:
                p.kill()
        obs.trace()
        if switches:
            obs.nontriv("sampling", case["jobs"], case["fresh"], taken)
