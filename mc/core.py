"""Bounded model-checking driver.

A check module (mc/checks/<id>.py) provides

    PROPERTY, RULE, ASSUMPTIONS         strings / list of strings
    cases(tier)                         iterator over JSON-serialisable cases: the bounded space, enumerated
                                        completely and deterministically (no randomness anywhere)
    execute(case, obs)                  drives the REAL code of /repo through one case and compares every
                                        observation with a reference model; raises Violation on a mismatch

The driver shards the cases over worker processes, turns every exception the code under test lets out and
every hang into a violation, writes the evidence file and, for a violation, a replay file that
`run.py <id> --replay FILE` executes again.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    """key -> what fails, for the defects of the unchanged tree that are listed and not repaired"""
    found = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as file:
        for line in file:
            if line.startswith(f"known: property={prop} key="):
                key, _, text = line.partition(" key=")[2].strip().partition(" ")
                found[key] = text
    return found


class Violation(Exception):
    """the property does not hold on the case being executed"""


class CaseTimeout(BaseException):
    """the code under test did not come back"""


class Obs:
    """what a worker measured; every count is measured on the run"""

    def __init__(self):
        self.states = set()      # digests of the distinct model states / inputs visited
        self.bulk_states = {}    # key -> number of states that are distinct by construction under that key
        self.transitions = 0     # operations executed on the implementation
        self.traces = 0          # complete executions of the implementation compared with the model
        self.comparisons = 0     # single observations compared
        self.nontrivial = set()  # digests of the cases that are non-trivial by the check's rule
        self.samples = []
        self.case = None
        self.tmp_root = None
        self.listed = {}         # the known findings of the property
        self.known = set()       # those that were met

    def finding(self, key, message, **details):
        """exactly what the finding `key` describes was observed: a violation unless it is listed"""
        self.comparisons += 1
        if key not in self.listed:
            self.check(False, message, **details)
        self.known.add(key)

    def state(self, *key):
        self.states.add(digest(key))

    def bulk(self, n, *key):
        self.bulk_states[digest(key)] = n

    def state_count(self):
        return len(self.states) + sum(self.bulk_states.values())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def nontriv(self, *key):
        self.nontrivial.add(digest(key))

    def check(self, condition, message, **details):
        self.comparisons += 1
        if not condition:
            text = message
            for k, v in details.items():
                text += f"\n    {k} = {short(v)}"
            raise Violation(text)

    @contextlib.contextmanager
    def tmp(self):
        """a scratch directory which is removed afterwards"""
        path = tempfile.mkdtemp(prefix="case_", dir=self.tmp_root)
        try:
            yield path
        finally:
            shutil.rmtree(path, ignore_errors=True)


def short(v, limit=1500):
    s = repr(v)
    return s if len(s) <= limit else s[:limit] + "..."


def digest(key):
    return hashlib.sha1(repr(key).encode()).hexdigest()[:16]


def import_repo():
    """make `import pibronic` mean the working tree of the repository"""
    sys.path.insert(0, REPO)
    import pibronic
    where = os.path.realpath(pibronic.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"pibronic was imported from {where}, not from {REPO}")
    return pibronic


@contextlib.contextmanager
def quiet():
    """swallow what the code under test prints"""
    saved = (sys.stdout, sys.stderr)
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = saved


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(module, case, obs, timeout):
    """returns None, or the text of the violation"""
    obs.case = case
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    cwd = os.getcwd()
    try:
        with quiet():
            module.execute(case, obs)
        return None
    except Violation as err:
        return str(err)
    except CaseTimeout:
        return f"the code under test did not terminate within {timeout} s"
    except (Exception, SystemExit) as err:
        tb = traceback.extract_tb(err.__traceback__)
        where = "".join(traceback.format_list(tb[-6:]))
        return f"unexpected exception {type(err).__name__}: {err}\n{where}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)


def worker(module_name, tier, k, n, out_path, timeout, tmp_root):
    code = 0
    obs = Obs()
    obs.tmp_root = tmp_root
    obs.listed = known_findings(module_name.rpartition(".")[2].upper())
    failures = []
    count = 0
    try:
        module = importlib.import_module(module_name)
        for i, case in enumerate(module.cases(tier)):
            if i % n != k:
                continue
            count += 1
            text = run_case(module, case, obs, timeout)
            if text is not None:
                failures.append((i, case, text))
                if len(failures) >= 3:
                    break
            elif len(obs.samples) < 1:
                obs.samples.append(case)
    except BaseException:
        failures.append((-1, None, "harness error\n" + traceback.format_exc()))
        code = 1
    obs.case = None
    with open(out_path, "wb") as file:
        pickle.dump((obs, failures, count), file)
    return code


def run_check(prop, tier, seed, jobs):
    """returns the exit code"""
    start = time.time()
    module_name = f"mc.checks.{prop.lower()}"
    module = importlib.import_module(module_name)
    timeout = getattr(module, "CASE_TIMEOUT", 120)
    jobs = min(jobs, getattr(module, "MAX_JOBS", jobs))
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix=f"mc_{prop}_", dir=base)
    obs, failures, count = Obs(), [], 0
    try:
        pids = []
        for k in range(jobs):
            out = os.path.join(scratch, f"worker_{k}.pickle")
            tmp_root = os.path.join(scratch, f"tmp_{k}")
            os.makedirs(tmp_root)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setsid()
                    code = worker(module_name, tier, k, jobs, out, timeout, tmp_root)
                finally:
                    os._exit(code)
            pids.append((pid, out))
        for pid, out in pids:
            os.waitpid(pid, 0)
            with contextlib.suppress(OSError):
                os.killpg(pid, signal.SIGKILL)  # whatever the code under test left running
            if not os.path.exists(out):
                failures.append((-1, None, "a worker died without a report"))
                continue
            with open(out, "rb") as file:
                o, f, c = pickle.load(file)
            obs.states |= o.states
            obs.bulk_states.update(o.bulk_states)
            obs.nontrivial |= o.nontrivial
            obs.transitions += o.transitions
            obs.traces += o.traces
            obs.comparisons += o.comparisons
            obs.samples += o.samples
            obs.known |= o.known
            failures += f
            count += c
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    failures.sort(key=lambda t: (t[0], str(t[1])))
    wall = time.time() - start
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": obs.state_count(),
            "transitions": obs.transitions,
            "traces_validated_against_impl": obs.traces,
            "evaluations": count,
            "distinct_nontrivial": len(obs.nontrivial),
            "observations_compared": obs.comparisons,
            "rule": module.RULE,
            "exhaustive": not failures,
            "samples": obs.samples[:3],
        },
        "assumptions": list(module.ASSUMPTIONS),
        "wall_s": round(wall, 3),
        "violations": len(failures),
    }
    listed = known_findings(prop)
    for key in sorted(obs.known):
        print(f"KNOWN-FINDING: property={prop} {key}: {listed[key]}")
    if obs.known:
        evidence["coverage"]["known_findings_met"] = sorted(obs.known)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as file:
        json.dump(evidence, file, indent=1)

    if failures:
        index, case, text = failures[0]
        replays = os.path.join(VERIF, "replays")
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, f"{prop}.json")
        with open(path, "w") as file:
            json.dump({"property": prop, "tier": tier, "case_index": index, "case": case, "what": text,
                       "how": f"python run.py {prop} --replay {path}"}, file, indent=1)
        print(f"case {index}: {json.dumps(case)[:2000]}")
        print(text)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} ({tier}): held on {count} cases, {obs.state_count()} states, {obs.transitions} transitions, "
          f"{obs.traces} traces, {obs.comparisons} observations, {wall:.1f} s")
    return 0


def run_replay(prop, path):
    module = importlib.import_module(f"mc.checks.{prop.lower()}")
    with open(path) as file:
        case = json.load(file)["case"]
    obs = Obs()
    obs.listed = known_findings(prop)
    obs.tmp_root = tempfile.mkdtemp(prefix=f"mc_{prop}_replay_")
    try:
        text = run_case(module, case, obs, getattr(module, "CASE_TIMEOUT", 120))
    finally:
        shutil.rmtree(obs.tmp_root, ignore_errors=True)
    if text is None:
        print("the replayed case holds")
        return 0
    print(text)
    print(f"VIOLATION property={prop} replay={path}")
    return 1
