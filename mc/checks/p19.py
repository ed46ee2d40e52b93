"""what slurm answers is understood: all combinations of the messages in every order."""
import itertools as it
import os
import subprocess
import time

from mc import outside

PROPERTY = "P19"
RULE = ("every ordered selection of up to 4 (thorough: 5) lines from the alphabet of messages as the output file of a job; "
        "every configuration listing with the cluster name in every position; every partition listing; every answer to a "
        "submission; non-trivial: at least two different messages")
ASSUMPTIONS = ["messages appear on lines of their own or in the middle of a line",
               "a job without the closing message is still running (no failure is reported)"]
LINES = ["Job Script Finished Successfully", "Program received signal SIGSEGV: Segmentation fault",
         "slurmstepd: error: Exceeded step memory limit at some point.", "/var/spool/job: line 3: 991 Killed  python3",
         "just some output", ""]


def cases(tier):
    longest = 4 if tier == "quick" else 5
    for n in range(0, longest + 1):
        for combo in it.product(range(len(LINES)), repeat=n):
            if n == 5 and combo[0] > combo[1] + 3:
                continue
            yield {"what": "output", "lines": combo}
    yield {"what": "hostname"}
    yield {"what": "partition"}
    yield {"what": "submit"}


def execute(case, obs):
    from pibronic.server import job_boss
    if case["what"] == "output":
        output(case, obs, job_boss)
    elif case["what"] == "hostname":
        for lines in it.permutations(["BOOT_TIME = 2018", "ClusterName             = nlogn", "ControlMachine=nlogn_b",
                                      "", "SlurmUser = x(1)"]):
            shell = outside.Shell(lambda argv, text: ("\n".join(lines) + "\n", "", 0))
            with shell.installed():
                obs.check(job_boss.get_hostname() == "nlogn", "the name of the cluster", lines=lines)
            obs.step()
        for name in ("feynman", "graham", "orca", "x1"):
            for fmt in ("ClusterName={}", "ClusterName = {}", "ClusterName             = {}  "):
                shell = outside.Shell(lambda argv, text: ("A = b\n" + fmt.format(name) + "\n", "", 0))
                with shell.installed():
                    obs.check(job_boss.get_hostname() == name, "the name of the cluster", name=name, fmt=fmt)
                obs.state(name, fmt)
        shell = outside.Shell(lambda argv, text: ("A = b\n", "", 0))
        with shell.installed():
            raises(obs, job_boss.get_hostname, Exception, "a configuration without a cluster name")
        obs.trace()
    elif case["what"] == "partition":
        names = ("serial", "highmem", "mem", "serial_2", "mpi")    # parts of each other
        for k in range(6):
            for present in it.combinations(names, k):
                for default in (None, *present):
                    text = "PARTITION           \n" + "".join(f"{p + '*' * (p == default):<20}\n" for p in present)
                    shell = outside.Shell(lambda argv, t: (text, "", 0))
                    with shell.installed():
                        for name in names:
                            if name in present:
                                job_boss.assert_partition_exists(name)
                            else:
                                raises(obs, lambda: job_boss.assert_partition_exists(name), AssertionError,
                                       "a partition that is not listed")
                            obs.step()
                        raises(obs, lambda: job_boss.assert_partition_exists(None), AssertionError, "no partition")
                obs.state("partition", present)
        obs.trace()
    else:
        for number in (1, 9, 10, 4001, 123456789):
            for tail in ("", "\n"):
                obs.check(job_boss.extract_id_job_from_output(f"Submitted batch job {number}{tail}") == number,
                          "the id of a submitted job", number=number)
                got = []

                def answer(argv, text):
                    got.append(text)
                    return f"Submitted batch job {number}{tail}", "", 0
                shell = outside.Shell(answer)
                with shell.installed():
                    id_job, out, err = job_boss.submit_job("sbatch --job-name={name:s} x{n:d}.sh",
                                                           {"name": "a_b", "n": number, "unused": 1})
                obs.check(id_job == number and got == [f"sbatch --job-name=a_b x{number}.sh"],
                          "a command is completed and submitted once", got=got)
                obs.step(2)
                obs.state("submit", number, tail)
        for out in ("", "Submitted", "Submitted batch job ", None, 5):
            obs.check(job_boss.extract_id_job_from_output(out) is None, "no id in other answers", out=out)
        shell = outside.Shell(lambda argv, text: ("", "sbatch: error", 1))
        with shell.installed():
            raises(obs, lambda: job_boss.submit_job("sbatch x", {}), subprocess.CalledProcessError, "a failed submission")
        obs.trace()


def raises(obs, call, kind, what):
    try:
        call()
    except kind:
        obs.check(True, "")
        return
    obs.check(False, f"{what} is reported")


def output(case, obs, job_boss):
    text = "\n".join(LINES[i] for i in case["lines"])
    texts = [text, text + "\n", text.replace("\n", " ")]
    if len(case["lines"]) <= 3:
        # messages which are far from both ends of a long output
        filler = "".join(f"bead {i} of the calculation\n" for i in range(4000))
        texts += [("\n" + filler).join(LINES[i] for i in case["lines"]) + "\n" + filler, filler + text]
    for text in texts:
        finished, segv = "Finished" in text, "SIGSEGV" in text
        killed, memory = "Killed" in text, "Exceeded step memory limit" in text
        if not finished or not (segv or killed):
            expected = None
        elif segv or memory:
            expected = "memory"
        else:
            expected = "unknown"
        slept = []
        saved = time.sleep
        with obs.tmp() as root:
            path = os.path.join(root, "slurm-4001.out")
            with open(path, "w") as file:
                file.write(text)
            with open(os.path.join(root, "slurm-4002.out"), "w") as file:
                file.write("Finished\nKilled\n")
            time.sleep = slept.append
            own = [n for n, v in vars(job_boss).items() if v is saved]
            for n in own:
                setattr(job_boss, n, slept.append)
            try:
                job_boss.check_slurm_output(root, 4001)
                got = None
            except MemoryError:
                got = "memory"
            except FileNotFoundError:
                raise
            except Exception:
                got = "unknown"
            finally:
                time.sleep = saved
                for n in own:
                    setattr(job_boss, n, saved)
            obs.check(got == expected, "failures of a finished job are reported as what they are", text=text[:300], got=got,
                      expected=expected)
        obs.step()
        obs.state(text)
    obs.trace()
    if len(set(case["lines"])) > 1:
        obs.nontriv(*case["lines"])
