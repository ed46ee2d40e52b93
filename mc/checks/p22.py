"""electronic structure results: every pattern of good and bad states, job states, endings and user answers."""
import builtins
import itertools as it
import os
import re

from mc import aces

PROPERTY = "P22"
RULE = ("every vector of % singles from {84.99, 85, 85.01, 99.9} of up to 4 (thorough: 5) states, of up to 120 with one bad state anywhere; every assignment of good / "
        "bad to the nip values 1..4 (thorough: 6) with every start value; every combination of two accounting states; every "
        "position of the final message in outputs of 0..14 (thorough: 30) lines; every sequence of user answers up to length "
        "3 (thorough: 4); every log, accounting state and set of missing files after the preparation of vibron; non-trivial: the result is refused or corrected")
ASSUMPTIONS = ["the ACES2 / vibron programs, SLURM and the user are stand-ins"]
SINGLES = (84.99, 85.0, 85.01, 99.9)
ACCT = ["COMPLETED", "FAILED", "CANCELLED by 1001", "TIMEOUT", "OUT_OF_ME+", "NODE_FAIL", "RUNNING", "PENDING", "COMPLETING",
        ""]
ANSWERS = ["y", "Yes", "n", "NO", "", "abc", "-1", "0", "1", "2", "12", "3.5"]


def cases(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for first in SINGLES:
            yield {"what": "singles", "n": n, "first": first}
    for n in (6, 10, 12, 33, 120):
        yield {"what": "singles", "n": n, "first": None}
    top = 4 if tier == "quick" else 6
    for good in it.product((False, True), repeat=top):
        yield {"what": "states", "good": good}
    yield {"what": "accounting"}
    for program in ("prepVib", "vibron"):
        for state in ("COMPLETED", "FAILED", "TIMEOUT", ""):
            yield {"what": "preparation", "program": program, "state": state}
    longest = 14 if tier == "quick" else 30
    for program in ("aces2", "vibron"):
        for n in range(longest + 1):
            yield {"what": "ending", "program": program, "lines": n}
    for question in ("dropmo", "nip"):
        for dropmo in ("", "DROPMO=1", "DROPMO=1-2", "DROPMO=1-12") if question == "nip" else ("",):
            for first in ANSWERS:
                yield {"what": "dialogue", "question": question, "dropmo": dropmo, "first": first,
                       "length": 3 if tier == "quick" else 4}


class Molecule:
    """what the functions need from a calculation"""

    def __init__(self, es, root, nip=None):
        aces.prepare(root, "internal")
        self.job = es.VibronExecutionClass(aces.NAME, root)
        self.job.parse_input_parameters()
        self.job.setup_zmat()
        if nip is not None:
            self.job.parameter_dictionary["nip"] = nip


def execute(case, obs):
    from pibronic.vibronic import electronic_structure as es
    with obs.tmp() as root:
        globals()[case["what"]](case, obs, es, root)


def singles(case, obs, es, root):
    n = case["n"]
    job = Molecule(es, root, n).job
    if case["first"] is None:       # many states of which none or one is bad
        vectors = [tuple(fine for _ in range(n)) for fine in (100.0, 85.01, 99.99)]
        vectors += [tuple(bad if k == at else 97.31 - 0.01 * k for k in range(n)) for at in range(n)
                    for bad in (0.0, 8.59, 50.0, 84.99, 85.0)]
    else:
        vectors = [(case["first"],) + rest for rest in it.product(SINGLES, repeat=n - 1)]
    for vector in vectors:
        for rows in (vector, ):
            for ending in ("closed", "blank", "end of file"):
                text = aces.ip_summary(n, True, rows)
                if ending == "blank":
                    text = text.rsplit("  ---", 1)[0] + "\nmore output  --------\n"
                elif ending == "end of file":
                    text = text.rsplit("  ---", 1)[0]
                with open(os.path.join(root, f"{aces.NAME}_eomcc_ip_{n}.out0"), "w") as file:
                    file.write("some output\n" + text)
                got = es.parse_ip_output(job)
                obs.step()
                obs.check(bool(got) == all(v > 85.0 for v in rows), "the states are accepted when all have more than 85% "
                          "singles, and only then", rows=rows, ending=ending, got=got)
                obs.state("singles", rows, ending)
        if not all(v > 85 for v in vector):
            obs.nontriv("singles", vector)
    obs.trace()


def states(case, obs, es, root):
    good = [k for k, g in enumerate(case["good"], 1) if g]
    for start in range(1, len(case["good"]) + 1):
        for f in os.listdir(root):
            os.remove(os.path.join(root, f))
        job = Molecule(es, root, start).job
        job.state = es.State.IPEOMCC
        cluster = aces.Cluster(root, "internal", good, start)
        cluster.begin()
        want = [k for k in good if k <= start]
        with cluster.installed():
            try:
                es.verify_ip_states(job)
                failed = None
            except Exception as err:
                failed = err
        tried = [int(text.split("nip=")[1].split()[0]) for step, text, fault in cluster.jobs]
        obs.step(len(tried))
        if want:
            obs.check(failed is None and job.parameter_dictionary["nip"] == max(want) and job.state is es.State.PREPVIB,
                      "the largest number of good states is chosen", start=start, good=good, failed=failed,
                      got=job.parameter_dictionary["nip"], state=job.state)
            obs.check(tried == list(range(start, max(want) - 1, -1)), "the number is lowered by one each time",
                      tried=tried)
        else:
            obs.check(failed is not None and job.state is es.State.IPEOMCC,
                      "without good states the calculation does not go on", start=start, good=good, state=job.state)
            obs.check(tried == list(range(start, 0, -1)), "every number of states is tried", tried=tried)
        obs.state("states", start, good)
        if start not in good:
            obs.nontriv("states", start, good)
    obs.trace()


def accounting(case, obs, es, root):
    for pair in it.product(ACCT, repeat=2):
        for count in (1, 2):
            lines = pair[:count]
            cluster = aces.Cluster(root, "internal", [], 1)
            cluster.begin()
            real = cluster.answer

            def answer(argv, text):
                if os.path.basename(argv[0]) == "sacct":
                    return "".join(f"{a:>10} \n" for a in lines if a), "", 0
                return real(argv, text)
            cluster.answer = answer
            with cluster.installed():
                try:
                    es.wait_on_results(77, "SCF")
                    got = True
                except Exception:
                    got = False
            obs.step()
            if "FAILED" in lines or "COMPLETED" not in lines:
                obs.check(not got, "a job that failed or did not complete is refused", lines=lines)
                obs.nontriv("accounting", lines)
            elif set(lines) == {"COMPLETED"}:
                obs.check(got, "a completed job is accepted", lines=lines)
            obs.state("accounting", lines)
    obs.trace()


LOGS = {"fine": "Finished\n", "memory": "slurmstepd: Killed\nExceeded step memory limit\nFinished\n", "fault": "forrtl: SIGSEGV\nFinished\n",
        "cancelled": "Started\nslurmstepd: error: *** JOB 1000 CANCELLED AT 2019 DUE TO TIME LIMIT ***\n"}
FILES = ["fcmfinal", f"{aces.NAME}_prepvib.pntheff", f"{aces.NAME}_prepvib.vibronic_coupling",
         f"{aces.NAME}_prepvib.vibron_input"]


def preparation(case, obs, es, root):
    """jobs that write no final message of their own: their log, their state, the files they leave"""
    for log in LOGS:
        for n in range(len(FILES) + 1):
            for missing in it.combinations(FILES, n) if case["program"] == "prepVib" else [()]:
                for name in os.listdir(root):
                    os.remove(os.path.join(root, name))
                job = Molecule(es, root, 2).job
                job.state = {"prepVib": es.State.PREPVIB, "vibron": es.State.VIBRON}[case["program"]]
                cluster = aces.Cluster(root, "internal", [], 2)
                cluster.begin()
                if case["program"] == "vibron":
                    cluster.write("cp.in", "input\n")
                    cluster.write(f"{aces.NAME}_vibron.in", "input\n")
                real = cluster.reply

                def reply(argv, text):
                    tool = os.path.basename(argv[0])
                    if tool == "sacct":
                        return f" {case['state']} \n" if case["state"] else "", "", 0
                    out = real(argv, text)
                    if tool == "sbatch":
                        for name in missing:
                            os.remove(os.path.join(root, name))
                        cluster.write("slurm-1000.out", LOGS[log])
                    return out
                cluster.reply = reply
                with cluster.installed():
                    try:
                        {"prepVib": job.prepVibron, "vibron": job.vibron_calc}[case["program"]]()
                        failed = None
                    except Exception as err:
                        failed = err
                obs.step()
                obs.check(len(cluster.jobs) == 1, "one job is submitted", jobs=cluster.jobs, failed=failed)
                if case["state"] != "COMPLETED" or log in ("memory", "fault") or missing:
                    obs.check(failed is not None and job.state.name in ("PREPVIB", "VIBRON")
                              and job.state.name.startswith(case["program"].upper()[:6]),
                              "a job that did not complete, ran out of memory or left no results is refused",
                              log=log, missing=missing, state=case["state"], now=job.state)
                    obs.nontriv("preparation", case["program"], case["state"], log, missing)
                elif log == "fine":
                    obs.check(failed is None, "a completed job is accepted", failed=failed)
                obs.state("preparation", case["program"], case["state"], log, missing)
    obs.trace()


def ending(case, obs, es, root):
    n = case["lines"]
    for where in [None] + list(range(n)):
        for newline in (True, False):
            for body in ("x", "some words"):
                lines = [body] * n
                message = {"aces2": aces.DONE.rstrip("\n"), "vibron": " All done in main_vibron"}[case["program"]]
                if where is not None:
                    lines[where] = message
                text = "\n".join(lines) + ("\n" if newline else "")
                if not text:
                    continue
                job = Molecule(es, root, 1).job
                name = f"{aces.NAME}_vib.out0" if case["program"] == "aces2" else f"{aces.NAME}_vibron.out0"
                path = os.path.join(root, name)
                with open(path, "w") as file:
                    file.write(text)
                with open(os.path.join(root, "slurm-5.out"), "w") as file:
                    file.write("Finished\n")
                cluster = aces.Cluster(root, "internal", [], 1)
                with cluster.installed():
                    try:
                        if case["program"] == "aces2":
                            es.verify_aces2_completed(root, path, 5)
                        else:
                            es.parse_vibron_output(job)
                        got = True
                    except Exception:
                        got = False
                obs.step()
                back = None if where is None else n - where       # 1: the last line
                if back is None or back > 12:
                    obs.check(not got, "an output without the final message near its end is refused", n=n, back=back,
                              newline=newline)
                    obs.nontriv("ending", case["program"], n, back)
                elif back <= 9 and n >= 11:       # shorter outputs may be refused
                    obs.check(got, "an output with the final message near its end is accepted", n=n, back=back,
                              newline=newline)
                obs.state("ending", case["program"], n, where, newline, body)
    obs.trace()


ORBITALS = ("  ORBITAL EIGENVALUES (ALPHA)  (1H = 27.2113957 eV)\n\n   MO #   E(hartree)   E(eV)   FULLSYM COMPSYM\n"
            "  ----  -----  -----  ----\n{:s}+++++++++++++++++++++++++++++++++++++++++++\n")


class OutOfAnswers(BaseException):
    pass


def dialogue(case, obs, es, root):
    sets = [[-557.0, -307.0, -38.0, -21.0, -16.0], [-300.0, -20.0, -18.0, -15.5, -12.0, -11.0]]
    for energies in sets:
        rows = "".join(f"  {k}   {k}   {e / 27.2113957:.4f}   {e:.4f}   A1 A1\n" for k, e in enumerate(energies, 1))
        path = os.path.join(root, "scf.out0")
        with open(path, "w") as file:
            file.write("noise\n" * 5 + ORBITALS.format(rows) + "noise\n")
        for rest in it.product(ANSWERS, repeat=case["length"] - 1):
            answers = (case["first"],) + rest
            log = []       # (kind of question, number shown, answer)

            def ask(message=""):
                if len(log) == len(answers):
                    raise OutOfAnswers()
                shown = re.findall(r"-?\d+", message)
                kind = "accept" if "acceptable" in message else "number"
                log.append((kind, int(shown[-1]) if shown else None, answers[len(log)]))
                return log[-1][2]

            job = Molecule(es, root).job
            job.parameter_dictionary["DROPMO"] = case["dropmo"]
            saved, builtins.input = builtins.input, ask
            try:
                if case["question"] == "dropmo":
                    got = es._estimate_dropmo(path)
                else:
                    got = es._estimate_NIP(job, path)
            except OutOfAnswers:
                got = OutOfAnswers
            finally:
                builtins.input = saved
            obs.step()
            if log and case["question"] == "nip":
                left = len(energies) - (int(re.findall(r"\d+", case["dropmo"])[-1]) if case["dropmo"] else 0)
                obs.check(log[0][1] is None or 1 <= log[0][1] <= left, "a suggested number of states leaves out the dropped "
                          "orbitals", log=log, energies=energies, dropmo=case["dropmo"])
            # reference
            number, end = None, OutOfAnswers
            for kind, shown, answer in log:
                if kind == "accept":
                    if number is not None:
                        obs.check(shown == number, "the user is asked about the number he provided", log=log)
                    number = shown
                    if "y" in answer.lower():
                        end = number
                        break
                else:
                    try:
                        number = int(answer)
                        if number < 0:
                            number = None
                    except ValueError:
                        number = None
            if end is OutOfAnswers:
                obs.check(got is OutOfAnswers, "no number is used that the user did not accept", log=log, got=got)
            else:
                want = end
                if case["question"] == "dropmo":
                    want = {0: "", 1: "DROPMO=1"}.get(end, f"DROPMO=1-{end}")
                obs.check(got == want, "the number the user accepted is used", log=log, got=got, expected=want)
                obs.check(len(log) == 1 + max(i for i, x in enumerate(log) if x[0] == "accept"),
                          "no further question is asked", log=log)
            if len(log) > 1:
                obs.nontriv(case["question"], case["dropmo"], answers)
            obs.state(case["question"], case["dropmo"], energies[0], answers)
    obs.trace()
