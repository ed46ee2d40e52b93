"""stand-ins for the electronic structure programs and the cluster they run on"""
import builtins
import contextlib
import os
import signal
import sys
import time

from mc import outside

NAME = "ch2o"
STEPS = ["OPT", "NIP", "VIB", "IPEOMCC", "PREPVIB", "VIBRON"]
DONE = " --> The ACES2 program has completed successfully in    12.3 seconds. <--\n"
ZMAT = {
    "internal": "CH2O molecule\nC\nO 1 R1*\nH 1 R2* 2 A1*\nH 1 R2* 2 A1* 3 D1\n\nR1=1.2\nR2=1.1\nA1=121.5\nD1=180.0\n",
    "cartesian": "CH2O molecule\nC 0.0 0.0 0.5\nO 0.0 0.0 -0.7\nH 0.9 0.0 1.1\nH -0.9 0.0 1.1\n",
}
BEFORE = {"internal": "R1=1.2\n", "cartesian": "C 0.0 0.0 0.5"}
OPTIMISED = {"internal": ["R1=1.2345\n", "R2=1.1111\n", "A1=120.125\n", "D1=180.0\n"],
             "cartesian": ["C 0.0 0.0 0.5512", "O 0.0 0.0 -0.7712", "H 0.9312 0.0 1.1512", "H -0.9312 0.0 1.1512"]}


class Crash(BaseException):
    """the process is killed here"""


class Operations:
    """kills the process at the n-th file operation of the workflow below root. variant "before": nothing of the operation
    happened; "torn": the file was opened for writing (created, truncated) and nothing was written yet"""
    hooked = False
    active = None
    inside = 0        # > 0: a stand-in is at work

    def __init__(self, root, at=None, variant="before"):
        self.root, self.at, self.variant = os.path.abspath(root), at, variant
        self.count = 0
        self.torn = True      # does the torn variant differ here

    def __enter__(self):
        if not Operations.hooked:
            sys.addaudithook(Operations.hook)
            Operations.hooked = True
        Operations.active = self
        return self

    def __exit__(self, *err):
        Operations.active = None

    @staticmethod
    def hook(event, args):
        self = Operations.active
        if self is None or Operations.inside or event not in ("open", "mmap.__new__", "os.remove", "os.rename"):
            return
        path = None
        if event != "mmap.__new__":
            path = args[0]
            if not isinstance(path, (str, bytes)):
                return
            path = os.path.abspath(os.fsdecode(path))
            if not path.startswith(self.root + os.sep):
                return
        self.count += 1
        if self.at is None or self.count <= self.at:
            return
        if self.count == self.at + 1:
            if self.variant == "torn":
                mode = args[1] if event == "open" else None
                flags = args[2] if event == "open" else 0
                self.torn = bool(flags & (os.O_WRONLY | os.O_RDWR)) and not (mode or "").startswith("r")
                if self.torn:
                    Operations.inside += 1
                    try:
                        os.close(os.open(path, flags, 0o644))
                    finally:
                        Operations.inside -= 1
        raise Crash()        # nothing is done after the end of the process


def step_of(file_name):
    for mark, step in (("_hartree_fock_nip", "NIP"), ("_opt", "OPT"), ("_eomcc_ip_", "IPEOMCC"), ("_prepvib", "PREPVIB"),
                       ("_vibron", "VIBRON"), ("_vib", "VIB")):
        if mark in file_name:
            return step
    return None


class Cluster:
    """runs the submitted jobs at once. `fault(n, step)` names what goes wrong with the n-th job of this run"""

    def __init__(self, root, kind, passing, nip, host="nlogn", name=NAME):
        self.root = root
        self.name = name          # of the molecule
        self.missing = ()         # files that the programs do not write
        self.submitted = []       # (options, exported variables, arguments, name of the input file, its text)
        self.host = host          # the cluster
        self.kind = kind          # of coordinates
        self.passing = passing    # nip values whose states are fine
        self.nip = nip            # the user's choice
        self.jobs = []            # (step, text of the input file, fault)
        self.this_run = 0
        self.fault = lambda n, step: None
        self.acct = {}
        self.placed = []          # where the jobs were sent: (partition, directory, head node, job, parent)

    def begin(self, fault=None):
        self.this_run = 0
        self.fault = fault or (lambda n, step: None)
        self.asked = []

    # ---- the programs
    def write(self, name, text):
        if name.replace(self.name, "*", 1) in self.missing:
            return
        with open(os.path.join(self.root, name), "w") as file:
            file.write(text)

    def outputs(self, step, text, broken):
        tail = "\n" * 3 + ("" if broken else DONE) + "bye\n"
        filler = "some line of output\n" * 30
        if step == "OPT":
            if self.kind == "internal":
                body = ("Summary of optimized internal coordinates\n(Angstroms and degrees)\n"
                        "R1 = 1.2345\nR2 =  1.1111\nA1 =   120.125\n\nFrequencies of the updated Hessian at convergence\n")
            else:
                body = ("Summary of optimized Cartesian coordinates (Ang)\n ------\n"
                        " C   0.0  0.0   0.5512\n O  0.0 0.0  -0.7712\n H  0.9312  0.0  1.1512\n H -0.9312 0.0 1.1512\n\n"
                        "Frequencies of the updated Hessian at convergence\n")
            self.write(f"{self.name}_opt.out0", filler + body + filler + tail)
        elif step == "NIP":
            body = ("  ORBITAL EIGENVALUES (ALPHA)  (1H = 27.2113957 eV)\n\n   MO #   E(hartree)   E(eV)   FULLSYM COMPSYM\n"
                    "  ----  -----  -----  ----\n"
                    "  1   1   -20.5   -557.0   A1 A1\n  2   2   -11.3   -307.0   A1 A1\n  3   3   -1.4   -38.0   A1 A1\n"
                    "  4   4   -0.8   -21.0   A1 A1\n  5   5   -0.6   -16.0   B2 B2\n"
                    "+++++++++++++++++++++++++++++++++++++++++++\n")
            self.write(f"{self.name}_hartree_fock_nip.out0", filler + body + filler + tail)
        elif step == "VIB":
            self.write(f"{self.name}_vib.out0", filler + tail)
        elif step == "IPEOMCC":
            nip = int(text.split("nip=")[1].split()[0])
            self.write(f"{self.name}_eomcc_ip_{nip}.out0", filler + ip_summary(nip, nip in self.passing) + filler + tail)
        elif step == "PREPVIB":
            heff = "HEFF_0 block\n 1.0 2.0\nHEFF_IP2 block\n 3.0 4.0\n HEFF_IP2 again\n 5.0\n"
            self.write("fcmfinal", "1.0\n")
            self.write(f"{self.name}_prepvib.pntheff", heff)
            self.write(f"{self.name}_prepvib.vibronic_coupling", "Title\n" + heff)
            if broken:
                with contextlib.suppress(FileNotFoundError):
                    os.remove(os.path.join(self.root, f"{self.name}_prepvib.vibron_input"))
            else:
                self.write(f"{self.name}_prepvib.vibron_input", "first line\n number of states = xxx   ! nip\nlast line\n")
        elif step == "VIBRON":
            end = "" if broken else " All done in main_vibron\n"
            self.write(f"{self.name}_vibron.out0", filler + end + "\nbye\n")

    # ---- the cluster
    def answer(self, argv, text):
        Operations.inside += 1
        try:
            return self.reply(argv, text)
        finally:
            Operations.inside -= 1

    def reply(self, argv, text):
        tool = os.path.basename(argv[0])
        if tool == "sbatch":
            return self.sbatch(argv)
        if tool == "scontrol" and argv[1:3] == ["show", "job"]:
            return f"JobId={argv[3]}\n   JobState=COMPLETED Reason=None\n", "", 0
        if tool == "scontrol":
            return f"ClusterName             = {self.host}\n", "", 0
        if tool == "sinfo":
            return "PARTITION\nserial\nhighmem\n", "", 0
        if tool == "sacct":
            state = self.acct[int(argv[-1])]
            if state == "crash":
                raise Crash()
            return f" {state} \n {state} \n", "", 0
        return "", "command not found", 127

    def sbatch(self, argv):
        options = dict(a[2:].split("=", 1) for a in argv if a.startswith("--") and "=" in a)
        file_name = options["job-name"]
        step = step_of(file_name[len(self.name):] if file_name.startswith(self.name) else file_name)
        export = dict(part.split("=", 1) for part in options.get("export", "").split(",") if "=" in part)
        self.placed.append((options.get("partition"), options.get("workdir"), export.get("HEADNODE"), export.get("JOB"),
                            export.get("PARENT_PID")))
        number = self.this_run
        self.this_run += 1
        fault = self.fault(number, step)
        if fault == "killed before":
            raise Crash()
        if fault == "refused":
            self.jobs.append((step, None, fault))
            return "", "sbatch: error: Batch job submission failed\n", 1
        with open(os.path.join(self.root, file_name)) as file:
            text = file.read()
        id_job = 1000 + len(self.jobs)
        self.jobs.append((step, text, fault))
        self.submitted.append((options, export, [a for a in argv[1:] if not a.startswith("-")], file_name, text))
        self.acct[id_job] = {"failed": "FAILED", "timeout": "TIMEOUT", "killed after": "crash"}.get(fault, "COMPLETED")
        finished = fault in (None, "killed after", "incomplete", "memory")
        log = "Finished\n"
        if fault == "memory":
            log = "slurmstepd: Killed\nExceeded step memory limit\nFinished\n"
        if finished:
            self.outputs(step, text, broken=fault in ("incomplete", "memory"))
        self.write(f"slurm-{id_job}.out", log)
        return f"Submitted batch job {id_job}\n", "", 0

    # ---- the user
    def input(self, message=""):
        """refuses the guess, provides a number, accepts that"""
        if "acceptable" in message:
            reply = "y" if self.asked and self.asked[-1] == "number" else "n"
            self.asked.append(reply)
            return reply
        self.asked.append("number")
        return str(self.nip)

    @contextlib.contextmanager
    def installed(self):
        shell = outside.Shell(self.answer)
        saved = (builtins.input, time.sleep, signal.sigwait, signal.alarm, signal.getsignal(signal.SIGUSR1))
        builtins.input = self.input
        time.sleep = lambda s: None
        signal.sigwait = lambda which: signal.SIGUSR1
        signal.alarm = lambda s: 0
        standing_in = zip(saved[1:4], (time.sleep, signal.sigwait, signal.alarm))
        try:
            with shell.installed(), outside.imported_by_name(list(standing_in)):
                yield self
        finally:
            builtins.input, time.sleep, signal.sigwait, signal.alarm = saved[:4]
            signal.signal(signal.SIGUSR1, saved[4] if saved[4] is not None else signal.SIG_DFL)


def ip_summary(nip, fine, values=None):
    if values is None:
        values = [96.5 - k for k in range(nip)]
        if not fine:
            values[-1] = 84.9
    rows = "".join(f"   A1   [{k}]   -{10 + k}.25   0.98   {v:.2f}   3.1\n" for k, v in enumerate(values, 1))
    return ("  Summary of ionization-potential eom-cc calculation\n\n  ---------\n   Sym  Root  IP  norm  %singles  %triples\n"
            "  -----------------\n" + rows + "  ------------------------------------\n")


def prepare(root, kind, params=None):
    with open(os.path.join(root, f"{NAME}_zmat.txt"), "w") as file:
        file.write(ZMAT[kind])
    with open(os.path.join(root, f"{NAME}_params.txt"), "w") as file:
        file.write(params or "# comment\ncalculation\nIP\n\nbasis\nTZ2P\ntheory\nCCSD\n")


def state_file(root):
    path = os.path.join(root, "execution_state.txt")
    if not os.path.exists(path):
        return None
    with open(path) as file:
        return file.read()
