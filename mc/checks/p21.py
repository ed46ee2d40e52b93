"""the electronic structure workflow: every failure and crash at every job, every torn state file, then a restart."""
import itertools as it
import os

from mc import aces

PROPERTY = "P21"
RULE = ("a case is (coordinates, how many ionization calculations are needed, first fault); within it every second fault "
        "in the restarted run and every truncation of the state file's last line is executed, followed by a clean restart; or "
        "(coordinates, attempts, file operation at which the process dies), in thorough followed by every second one; or an "
        "assignment of state files to the models of the overview; "
        "non-trivial: the first fault is after the first step")
ASSUMPTIONS = ["the ACES2 / vibron programs, SLURM and the user are stand-ins; outputs of a step come from its own job only",
               "the process dies between two system calls; the state file may keep any prefix of its last line"]
CASE_TIMEOUT = 300
FAULTS = ["killed before", "refused", "failed", "timeout", "killed after", "incomplete", "memory"]


def cases(tier):
    for kind in ("internal", "cartesian"):
        for nip, passing in ((3, [3]), (3, [1]), (2, [])) if tier != "quick" else ((2, [2]), (3, [2]), (2, [])):
            jobs = 3 + (nip + 1 - max(passing) if passing else nip) + (2 if passing else 0)
            yield {"kind": kind, "nip": nip, "passing": passing, "at": None, "fault": None, "deep": tier != "quick"}
            for at in range(jobs):
                for fault in FAULTS:
                    yield {"kind": kind, "nip": nip, "passing": passing, "at": at, "fault": fault, "deep": tier != "quick"}
    for kind in ("internal", "cartesian"):
        for passing in ([1], [2]):
            for variant in ("before", "torn"):
                for part in range(8):
                    yield {"operations": variant, "kind": kind, "nip": 2, "passing": passing, "part": part, "parts": 8,
                           "at": None, "fault": None, "deep": tier != "quick"}
    for k in range(1, 7):
        yield {"start": k}
    for kind in ("internal", "cartesian"):
        yield {"kind": kind, "nip": 3, "passing": [1], "at": None, "fault": None, "deep": False, "host": "feynman"}
    for first in range(len(RECORDED)):
        yield {"overview": first, "models": 3 if tier == "quick" else 4}


RECORDED = [None, "", "\n", " \n\n", "OPTIMIZE\n", "OPTIMIZE\nHARTREE_FOCK_NIP\n", "OPTIMIZE\nHARTREE_FOCK_NIP\nVIBRATIONAL_FREQUENCY",
            "OPTIMIZE\nFINISHED\n\n", "FINISHED\nOPTIMIZE \n"]


def overview(case, obs):
    """every assignment of state files to some models; each is reported with its own last state"""
    import logging
    from pibronic.vibronic import electronic_structure as es
    messages = []

    class Keep(logging.Handler):
        def emit(self, record):
            messages.append(record.getMessage())

    logger = logging.getLogger(es.log.name)
    level, handler = logger.level, Keep()
    numbers = [number for _, number in es.number_dictionary.values()]
    words = sorted({w for text in RECORDED if text for w in text.split()}, key=len)
    with obs.tmp() as root:
        logger.addHandler(handler)
        logger.setLevel(logging.DEBUG)
        try:
            for rest in it.product(RECORDED, repeat=case["models"] - 1):
                some = dict(zip((numbers[0], numbers[1], numbers[-1], numbers[7]), (RECORDED[case["overview"]], *rest)))
                for number, text in some.items():
                    path = os.path.join(root, f"data_set_{number}", "electronic_structure", es.name_of_state_file)
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    if os.path.isfile(path):
                        os.remove(path)
                    if text is not None:
                        with open(path, "w") as file:
                            file.write(text)
                messages.clear()
                es.pretty_print_job_status(root)
                obs.step()
                for name, number in es.number_dictionary.values():
                    mine = [m for m in messages if str(number) in m and name in m]
                    want = (some.get(number) or "").split()[-1:]
                    named = [[w for w in words if w in m.replace("(", " ").replace(",", " ").split()] for m in mine]
                    obs.check(named == [want], "the overview reports every model with its own last state", model=number,
                              messages=mine, recorded=some)
                obs.state("overview", *some.values())
                if len({(v or "").split()[-1:] == [] for v in some.values()}) > 1:
                    obs.nontriv("overview", *some.values())
                obs.trace()
        finally:
            logger.removeHandler(handler)
            logger.setLevel(level)


class World:
    def __init__(self, obs, root, case):
        from pibronic.vibronic import electronic_structure as es
        self.es, self.obs, self.root, self.case = es, obs, root, case
        aces.prepare(root, case["kind"])
        self.host = case.get("host", "nlogn")
        self.cluster = aces.Cluster(root, case["kind"], case["passing"], case["nip"], self.host)
        self.recorded = 0      # number of steps completed and recorded
        self.torn = False      # the state file lost information: repetition is allowed
        self.unsure = False    # the process died before it could note the last step

    def run(self, fault=None, state=None, killed=None):
        """one process; returns "done" or how it ended, and the jobs it submitted"""
        if killed is not None:
            with killed:
                return self.run(fault, state)
        before = len(self.cluster.jobs)
        self.cluster.begin(fault)
        how = "done"
        with self.cluster.installed():
            try:
                job = self.es.VibronExecutionClass(aces.NAME, self.root, state)
                job.calculate_vibronic_model()
            except aces.Crash:
                how = "crash"
            except Exception as err:
                how = f"{type(err).__name__}: {err}"
        self.obs.step()
        while self.cluster.placed:
            partition, directory, head, job, parent = self.cluster.placed.pop()
            self.obs.check((partition, head) == ("highmem" if self.host == "feynman" else "serial", self.host),
                           "a job is sent to the partition of the cluster it is submitted on", got=(partition, head))
            self.obs.check(os.path.realpath(directory) == os.path.realpath(self.root) and parent == str(os.getpid())
                           and aces.step_of(job + ".") is not None,
                           "a job works in the directory of the calculation and signals the process that waits for it",
                           directory=directory, job=job, parent=parent)
        return how, self.cluster.jobs[before:]

    def judge(self, how, jobs, label):
        """the submitted jobs of one process against the workflow"""
        obs, steps = self.obs, aces.STEPS
        done = self.recorded
        for n, (step, text, fault) in enumerate(jobs):
            obs.check(step in steps, "only the steps of the workflow are submitted", step=step, label=label)
            k = steps.index(step)
            obs.check(k <= done, "no step is skipped", step=step, completed=steps[:done], label=label)
            if self.unsure and n == 0:
                done = max(k, done - 1)
            if not self.torn:
                obs.check(k >= done, "no completed step is repeated", step=step, completed=steps[:done], label=label)
            if self.torn and n == 0:
                done = min(done, k)
            obs.check(k == done, "the steps are taken in order", step=step, completed=steps[:done], label=label)
            if text is not None:
                self.judge_input(step, text, label)
            last = n == len(jobs) - 1
            if fault is None:
                if step != "IPEOMCC":
                    done += 1
                else:
                    nip = int(text.split("nip=")[1].split()[0])
                    if nip in self.case["passing"]:
                        done += 1
            else:
                obs.check(last and how != "done", "a failed job ends the run", step=step, fault=fault, how=how, label=label)
        if how == "done":
            obs.check(done == len(steps), "a run ends normally only when every step was completed",
                      completed=steps[:done], label=label)
            self.torn = False
        self.unsure = how == "crash" and bool(jobs) and not any(j[2] for j in jobs)
        self.recorded = done
        text = aces.state_file(self.root)
        lines = text.split() if text else []
        if how == "done":
            obs.check(lines and (lines[-1] == "FINISHED" or lines[-1] == "VIBRON" and not jobs), "the end is recorded", lines=lines, label=label)
        else:
            obs.check(not lines or lines[-1] != "FINISHED" or done == len(steps), "an unfinished calculation is not recorded as finished",
                      lines=lines, label=label)
        obs.state(self.case["kind"], done, lines[-1:] or None, how)

    def judge_input(self, step, text, label):
        obs, kind = self.obs, self.case["kind"]
        if step == "OPT":
            obs.check(aces.BEFORE[kind] in text, "the optimization starts from the given geometry", text=text)
            obs.check("BASIS=TZ2P," in text and "CALC=CCSD," in text, "the chosen basis and theory", text=text)
            if kind == "internal":
                obs.check("R1*" in text, "the coordinates to optimize are marked", text=text)
            return
        if step == "VIBRON":
            obs.check(f"number of states = {self.good_nip():>6,d}" in text and "xxx" not in text,
                      "the vibron input has the verified number of states", text=text, label=label)
            for name in ("PNTHEFF", "cp.auto"):
                with open(os.path.join(self.root, name)) as file:
                    got = file.read()
                obs.check(got == "HEFF_IP2 block\n 3.0 4.0\n HEFF_IP2 again\n 5.0\n",
                          "the effective Hamiltonian starts at the relevant block", name=name, got=got)
            return
        for line in aces.OPTIMISED[kind]:
            obs.check(line in text, "later steps use the optimized geometry", step=step, text=text, line=line, label=label)
        obs.check(aces.BEFORE[kind] + "\n" not in text and "R1=1.2\n" not in text,
                  "later steps do not use the old geometry", step=step, text=text, label=label)
        atoms = text.split("*ACES2")[0]
        obs.check(atoms.startswith("CH2O molecule\n") and "*" not in atoms, "a plain geometry", text=text)
        obs.check("BASIS=TZ2P," in text, "the chosen basis", text=text)
        obs.check(("CALC=SCF," if step == "NIP" else "CALC=CCSD,") in text, "the chosen theory", text=text)
        if step == "VIB":
            obs.check("VIB=FINDIF" in text, "a frequency calculation", text=text)
        if step == "IPEOMCC":
            nip = int(text.split("nip=")[1].split()[0])
            obs.check(nip <= self.case["nip"] and all(k not in self.case["passing"]
                      for k in range(nip + 1, self.case["nip"] + 1)),
                      "the number of states is only reduced when states are bad", nip=nip, label=label)
        if step == "PREPVIB":
            nip = int(text.split("nip=")[1].split()[0])
            obs.check(nip == self.good_nip(), "the prepared states are the verified ones", nip=nip, label=label)
            obs.check("PREP_VIBRON=ON" in text, "a vibron preparation", text=text)

    def good_nip(self):
        return max(k for k in self.case["passing"] if k <= self.case["nip"])

    # a snapshot of everything a process leaves behind
    def save(self):
        out = {}
        for name in os.listdir(self.root):
            with open(os.path.join(self.root, name), "rb") as file:
                out[name] = file.read()
        return out, list(self.cluster.jobs), dict(self.cluster.acct), self.recorded, self.torn, self.unsure

    def restore(self, snapshot):
        files, jobs, acct, self.recorded, self.torn, self.unsure = snapshot
        self.cluster.jobs, self.cluster.acct = list(jobs), dict(acct)
        for name in os.listdir(self.root):
            os.remove(os.path.join(self.root, name))
        for name, content in files.items():
            with open(os.path.join(self.root, name), "wb") as file:
                file.write(content)

    def finish(self, label):
        """clean restarts"""
        how, jobs = self.run()
        self.judge(how, jobs, label)
        if not self.case["passing"]:
            self.obs.check(how not in ("done", "crash") and all(j[0] not in ("PREPVIB", "VIBRON") for j in jobs),
                           "without good states the calculation fails and goes no further", how=how)
            return
        self.obs.check(how == "done", "the restarted calculation succeeds", how=how, label=label)
        before = aces.state_file(self.root)
        how, jobs = self.run()
        self.obs.check(how == "done" and not jobs, "a finished calculation is not repeated", how=how, jobs=len(jobs),
                       label=label)
        after = aces.state_file(self.root)
        self.obs.check(after.split()[-1] == before.split()[-1] in ("FINISHED", "VIBRON"), "a finished calculation stays finished")
        self.obs.trace()


def execute(case, obs):
    if "overview" in case:
        return overview(case, obs)
    if "start" in case:
        return explicit_start(case, obs)
    if "operations" in case:
        return operations(case, obs)
    with obs.tmp() as root:
        world = World(obs, root, case)
        if case["fault"] is None:
            world.finish("no fault")
            return
        how, jobs = world.run(lambda n, step: case["fault"] if n == case["at"] else None)
        label = f"{case['fault']} at job {case['at']}"
        faulted = any(j[2] for j in jobs) or how == "crash"
        world.judge(how, jobs, label)
        obs.check(faulted, "the run reaches the job", label=label, how=how)
        if case["at"]:
            obs.nontriv(*case.values())
        snapshot = world.save()
        world.finish(label + ", restart")
        # every truncation of the last recorded line
        text = snapshot[0].get("execution_state.txt", b"").decode()
        lost = len(text) - (text[:-1].rfind("\n") + 1) if text else 0
        for cut in range(1, lost + 1):
            world.restore(snapshot)
            world.torn = True
            with open(os.path.join(root, "execution_state.txt"), "w") as file:
                file.write(text[:-cut])
            world.finish(f"{label}, state file torn at -{cut}, restart")
        # somebody looked at the state file with an editor
        for blank in ("\n", "\n\n"):
            if text:
                world.restore(snapshot)
                with open(os.path.join(root, "execution_state.txt"), "w") as file:
                    file.write(text + blank)
                world.finish(f"{label}, state file ends with {blank!r}, restart")
        # every second fault
        for at in range(8):
            for fault in FAULTS if case["deep"] else FAULTS[::2] if at % 2 else FAULTS[1::2]:
                world.restore(snapshot)
                how, jobs = world.run(lambda n, step: fault if n == at else None)
                second = f"{label}, then {fault} at job {at} of the restart"
                world.judge(how, jobs, second)
                if not (any(j[2] for j in jobs) or how == "crash"):
                    continue            # there is no such job
                world.finish(second + ", restart")


def explicit_start(case, obs):
    """the user names the step to start from, everything before it is there"""
    k = case["start"]
    full = {"kind": "internal", "nip": 3, "passing": [2], "at": None, "fault": None, "deep": False}
    with obs.tmp() as root:
        world = World(obs, root, full)
        how, jobs = world.run()
        world.judge(how, jobs, "first")
        how, jobs = world.run(state=k)
        steps = [j[0] for j in jobs]
        want = [s for s in aces.STEPS[k - 1:] for _ in range(2 if s == "IPEOMCC" else 1)]
        obs.check(how == "done" and steps == want, "the calculation starts at the requested step", how=how, steps=steps,
                  expected=want)
        for step, text, _ in jobs:
            world.judge_input(step, text, "explicit start")
        obs.trace()
        obs.state("start", k)
        obs.nontriv("start", k)


def operations(case, obs):
    """the process is killed at every file operation"""
    with obs.tmp() as root:
        world = World(obs, root, case)
        clean = world.save()
        total = aces.Operations(root)
        how, jobs = world.run(killed=total)
        obs.check(how == "done", "an undisturbed run succeeds", how=how)
        for at in range(case["part"], total.count, case["parts"]):
            world.restore(clean)
            killed = aces.Operations(root, at, case["operations"])
            how, jobs = world.run(killed=killed)
            if case["operations"] == "torn" and not killed.torn:
                continue
            label = f"killed at file operation {at} ({case['operations']})"
            obs.check(how == "crash", "the process is killed", how=how, label=label)
            world.judge(how, jobs, label)
            obs.nontriv(case["operations"], case["kind"], case["passing"], at)
            obs.state(case["operations"], case["kind"], case["passing"], at)
            snapshot = world.save()
            world.finish(label + ", restart")
            if not case["deep"]:
                continue
            for second in range(total.count):
                world.restore(snapshot)
                killed = aces.Operations(root, second)
                how, jobs = world.run(killed=killed)
                world.judge(how, jobs, label + f", then at {second} of the restart")
                if how != "crash":
                    break
                world.finish(label + f", then at {second} of the restart, restart")
