"""from a submission to the result file: what is submitted is what the job computes."""
import glob
import hashlib
import itertools as it
import os
import shlex
import subprocess

import numpy as np

from mc import common as c
from mc import core, outside

PROPERTY = "P17"
RULE = ("a case is (cluster, list of temperatures, list of beads, samples, block size, overall samples, ids, root name); "
        "every sbatch command of the submission is taken apart as the shell and slurm do and decoded as the job does; a "
        "subset of the cases executes the submitted job scripts for real; three submissions that exist at the same time, "
        "submitted in every order (3 submissions) and changed in between; non-trivial: more than one command")
ASSUMPTIONS = ["slurm exports the comma separated NAME=value pairs of --export to the job",
               "root directories without white space, commas and quotes (they are not quoted on the command line)"]
CASE_TIMEOUT = 300
RUN, POPEN = subprocess.run, subprocess.Popen


def cases(tier):
    for cluster in ("nlogn", "feynman", "graham", "orca"):
        for temps in ([300.0], [300.26, 300.29], [0.5, 10.0, 300.0, 1000.5]):
            for beads in ([3], [12, 3], [4, 40, 400]):
                for n, block, overall in ((4, 2, 0), (4, 4, 9), (5, 2, 12)):
                    for d, r in ((0, 0), (1, 10), (12, 3)):
                        for root in ("plain", "work/user"):
                            for dB in (None, 0.05):
                                yield {"cluster": cluster, "T": temps, "P": beads, "n": n, "block": block,
                                       "overall": overall, "D": d, "R": r, "root": root, "dB": dB, "run": False}
    for cluster in ("nlogn", "feynman", "graham"):
        for n, block, overall in ((4, 2, 0), (4, 4, 8)):
            for root in ("plain", "work/user"):
                for dB in (None, 0.05) if tier == "quick" else (None, 0.05, 0.2):
                    for temps, beads in (([300.0], [3]),) if tier == "quick" else (([300.0], [3]), ([150.0, 300.25], [4])):
                        yield {"cluster": cluster, "T": temps, "P": beads, "n": n, "block": block, "overall": overall,
                               "D": 1, "R": 2, "root": root, "dB": dB, "run": True}
    # numbers that need all their digits, whole numbers
    for cluster in ("nlogn", "feynman", "graham", "orca"):
        for temps in ([77.12345, 77.25], [300, 10], [40.0625, 2500.000125]):
            for dB in (1.25e-7, 0.123456789012345, 1):
                yield {"cluster": cluster, "T": temps, "P": [3, 5], "n": 4, "block": 2, "overall": 6, "D": 1, "R": 2,
                       "root": "plain", "dB": dB, "run": False}
    # many jobs, beads and temperatures, large numbers
    for cluster in ("nlogn", "feynman", "graham", "orca"):
        for d, r, n, block, overall in ((123, 45, 100000, 1000, 2500000), (1000, 0, 12, 4, 150), (0, 111, 10**5, 10**5, 10**6)):
            for dB in (None, 2.0e-4):
                yield {"cluster": cluster, "T": [round(10.0 + 37.25 * k, 2) for k in range(12)], "P": [1000, 3, 12, 250, 64], "n": n,
                       "block": block, "overall": overall, "D": d, "R": r, "root": "plain", "dB": dB, "run": False, "decode": False}
    # the root is given relative to the working directory
    for cluster in ("nlogn", "feynman", "graham", "orca"):
        for run in (False, True) if cluster != "orca" else (False,):
            for root in ("plain", "work/user"):
                yield {"cluster": cluster, "T": [300.0], "P": [3, 4], "n": 4, "block": 2, "overall": 8, "D": 1, "R": 2,
                       "root": root, "dB": None, "run": run, "relative": True}
    # three submissions that exist at the same time, submitted in any order and changed in between
    for cluster in ("nlogn", "feynman", "graham", "orca"):
        for history in it.product(("A", "B", "C", "A*"), repeat=3):
            if len(set(history)) > 1:
                yield {"cluster": cluster, "history": list(history), "run": False}
    yield {"cluster": "elsewhere", "T": [300.0], "P": [3], "n": 4, "block": 2, "overall": 0, "D": 0, "R": 0,
           "root": "plain", "dB": None, "run": False}


def options(argv):
    """(environment of the job, job script, {option: value})"""
    env, opts, rest = {}, {}, []
    args = iter(argv[1:])
    for a in args:
        if a.startswith("--export="):
            for pair in a[len("--export="):].split(","):
                k, _, v = pair.partition("=")
                env[k] = v
        elif a.startswith("--"):
            k, _, v = a.partition("=")
            opts[k] = v
        elif a in ("-m", "-D", "-o", "-J", "-p"):
            opts[a] = next(args)
        else:
            rest.append(a)
    return env, rest, opts


def execute(case, obs):
    from pibronic.server import job_boss
    commands = []
    if "history" in case:
        return execute_history(case, obs)

    def submit(argv, text):
        commands.append((argv, text))
        return f"Submitted batch job {4000 + len(commands)}\n", "", 0

    vib, rho = c.vibronic_model(2, 2, "elELqQ"), c.sampling_model(2, 2)
    shell = outside.Shell(outside.slurm(case["cluster"], submit=submit))
    with obs.tmp() as tmp:
        root = os.path.join(tmp, case["root"])
        os.makedirs(root)
        if case.get("relative"):
            os.chdir(tmp)
        FS = c.file_structure(case["root"] if case.get("relative") else root, vib, rho, case["D"], case["R"])
        params = params_of(case)
        with shell.installed():
            try:
                job = job_boss.PimcSubmissionClass(FS, params)
                job.submit_jobs()
            except Exception:
                obs.check(case["cluster"] == "elsewhere", "a submission on a known cluster works", case=case)
                obs.check(not commands, "nothing is submitted on an unknown cluster")
                obs.step()
                return
        obs.check(case["cluster"] != "elsewhere", "a cluster without a job script is refused")
        if case.get("relative"):
            os.makedirs(os.path.join(tmp, "node"))
            os.chdir(os.path.join(tmp, "node"))         # a job does not start where it was submitted
            FS = c.file_structure(root, None, None, case["D"], case["R"])
        cells, per_job, jobs = check_commands(case, obs, FS, commands, case.get("decode", True))
        obs.trace()
        obs.state(*[str(v) for v in case.values()])
        if len(commands) > 1:
            obs.nontriv(*[str(v) for v in case.values()])
        if case["run"]:
            real_run(case, obs, tmp, FS, commands, cells, per_job, jobs)


def execute_history(case, obs):
    """submissions of other roots and rhos in one process; each is decoded against its own request"""
    from pibronic.server import job_boss
    commands = []

    def submit(argv, text):
        commands.append((argv, text))
        return f"Submitted batch job {4000 + len(commands)}\n", "", 0

    shell = outside.Shell(outside.slurm(case["cluster"], submit=submit))
    base = {"cluster": case["cluster"], "root": "plain", "run": False, "dB": None}
    want = {"A": {**base, "D": 1, "R": 2, "T": [300.0], "P": [3, 4], "n": 4, "block": 2, "overall": 8},
            "B": {**base, "D": 1, "R": 2, "T": [300.0], "P": [3], "n": 6, "block": 3, "overall": 0, "dB": 0.05},
            "C": {**base, "D": 1, "R": 3, "T": [250.25], "P": [3, 12], "n": 4, "block": 4, "overall": 0}}
    with obs.tmp() as tmp:
        jobs, structures = {}, {}
        with shell.installed():
            for name, root in (("A", "one"), ("B", "two"), ("C", "one")):
                w = want[name]
                os.makedirs(os.path.join(tmp, root), exist_ok=True)
                scale = {"A": 1.0, "B": 0.5, "C": 1.0}[name]
                structures[name] = c.file_structure(os.path.join(tmp, root), c.vibronic_model(2, 2, "elELqQ", scale=scale),
                                                    c.sampling_model(2, 2, scale=scale * w["R"]), w["D"], w["R"])
                jobs[name] = job_boss.PimcSubmissionClass(structures[name], params_of(w))
            for k, op in enumerate(case["history"]):
                name = op[0]
                if op == "A*":
                    want["A"] = {**want["A"], "T": [150.0 + k, 151.5], "P": [4], "dB": 0.01 * (k + 1), "n": 3 * (k + 1),
                                 "block": 3, "overall": 10 + 4 * k}
                    jobs["A"].param_dict.update(params_of(want["A"]))
                commands.clear()
                jobs[name].submit_jobs()
                check_commands(want[name], obs, structures[name], list(commands), decode=False)
                obs.state(case["cluster"], *case["history"][:k + 1])
        obs.trace()
        obs.nontriv(case["cluster"], *case["history"])


def params_of(case):
    params = {"number_of_samples": case["n"], "block_size": case["block"],
              "number_of_samples_overall": case["overall"], "temperature_list": list(case["T"]),
              "bead_list": list(case["P"]), "number_of_states": 2, "number_of_modes": 2, "id_data": case["D"],
              "id_rho": case["R"]}
    if case["dB"] is not None:
        params["delta_beta"] = case["dB"]
    return params


def check_commands(case, obs, FS, commands, decode=True):
    """every command of a submission asks for what the submission asks for"""
    from pibronic.pimc import pimc
    target = case["overall"] or case["n"]
    per_job = case["n"] - case["n"] % case["block"]
    jobs = -(-target // per_job)
    cells = list(it.product(case["T"], case["P"]))
    seen, names = [], {}
    for argv, text in commands:
        obs.step()
        env, rest, opts = options(argv)
        where = dict(command=text)
        obs.check(len(rest) == 1 and os.path.isfile(rest[0]), "the job script exists", **where)
        obs.check(os.path.isfile(env["PYTHON3_PATH"]) and os.access(env["PYTHON3_PATH"], os.X_OK),
                  "the interpreter exists", **where)
        obs.check(os.path.isfile(env["SAMPLING_SCRIPT"]), "the sampling script exists", **where)
        obs.check(os.path.realpath(env["ROOT_DIR"]) == os.path.realpath(FS.path_rho), "the root of the job", **where)
        outdir = opts.get("-D") or opts.get("--chdir")
        obs.check(os.path.isdir(outdir) and os.path.realpath(outdir).startswith(os.path.realpath(FS.path_rho)),
                  "the output of the job goes to an existing directory of the rho", **where)
        obs.check(os.path.realpath(env["COPY_TO"]) == os.path.realpath(FS.path_rho_results),
                  "the results are copied to the results of the rho", **where)
        if case["cluster"] in ("nlogn", "feynman"):
            expected = "serial" if case["cluster"] == "nlogn" else "highmem"
            obs.check(opts.get("--partition") == expected, "the partition of the cluster", **where)
            obs.check(env["COPY_FROM"].startswith(env["SCRATCH_DIR"]), "copied from the scratch directory", **where)
        data = pimc.BoxDataPM.from_json_string(env["EXECUTION_PARAMETERS"])
        seen.append((data.temperature, data.beads))
        names.setdefault(opts.get("--job-name"), set()).add((data.temperature, data.beads))
        obs.check((data.samples, data.blocks, data.block_size) == (per_job, per_job // case["block"], case["block"]),
                  "the job draws the samples of the submission", got=(data.samples, data.blocks, data.block_size))
        obs.check((data.id_data, data.id_rho) == (case["D"], case["R"]), "the ids", **where)
        obs.check(np.isclose(data.beta, c.beta_of(data.temperature), rtol=1e-12)
                  and np.isclose(data.tau, data.beta / data.beads, rtol=1e-12), "beta and tau of the temperature",
                  got=(data.beta, data.tau))
        if case["dB"] is not None:
            obs.check(data.delta_beta == case["dB"], "delta beta of the submission", got=data.delta_beta)
        obs.check(os.path.realpath(data.path_vib_model) == os.path.realpath(FS.path_vib_model)
                  and os.path.realpath(data.path_rho_model) == os.path.realpath(FS.path_rho_model),
                  "the models of the submission", **where)
        if case["root"] == "plain" and data.beads <= 12 and not case["run"] and decode:
            decoded_run(case, obs, FS, data)
    obs.check(all(len(v) == 1 for v in names.values()), "jobs of different calculations have different names",
              names=names)
    obs.check(sorted(seen) == sorted(cells * jobs), "every temperature and number of beads is submitted as often as "
              "it has jobs", got=sorted(seen), expected=sorted(cells * jobs))
    return cells, per_job, jobs


def decoded_run(case, obs, FS, data):
    """the decoded parameters compute the same as parameters set by hand (with planned random numbers)"""
    from pibronic.pimc import pimc
    X, P, T = data.samples, data.beads, data.temperature
    k = np.arange(X * 2 * P)
    normals, sources = np.sin(1.7 * k + 0.05 * k * k).reshape(X, 2, P), np.arange(X) % 2
    try:
        with c.Rng(sources, normals).installed():
            reference, expected = c.box(FS, T, P, X, case["block"], pm=True, delta_beta=case["dB"])
            expected.id_job = 90
            pimc.block_compute_pm(reference, expected)
        with c.Rng(sources, normals).installed():
            data.preprocess()
            got = pimc.BoxResultPM(data=data)
            got.path_root, got.id_job = FS.path_rho_results, 91
            pimc.block_compute_pm(data, got)
    except c.Undecided:
        return
    for name in ("scaled_g", "scaled_rho", "scaled_gofr_plus", "scaled_gofr_minus"):
        obs.check(np.allclose(getattr(got, name), getattr(expected, name), rtol=1e-9),
                  "the job computes what the submission asked for", name=name, T=T, P=P)
    obs.check((str(got.hash_vib), str(got.hash_rho)) == (FS.hash_vib, FS.hash_rho), "the hashes of the job")
    obs.step()


def real_run(case, obs, tmp, FS, commands, cells, per_job, jobs):
    """what the nodes of the cluster would do"""
    from pibronic.pimc import pimc
    from pibronic.data import postprocessing as pp
    binaries = os.path.join(tmp, "bin")
    os.makedirs(binaries)
    for tool in ("ssh", "sacct", "sleep"):
        with open(os.path.join(binaries, tool), "w") as file:
            file.write("#!/bin/sh\nexit 0\n")
        os.chmod(os.path.join(binaries, tool), 0o755)
    for k, (argv, text) in enumerate(commands):
        env, rest, opts = options(argv)
        inside = os.path.realpath(tmp) + os.sep
        for name in ("COPY_FROM", "COPY_TO", "SCRATCH_DIR"):  # the script moves and creates files there
            obs.check(os.path.realpath(env[name]).startswith(inside), "the job stays in its root directory", name=name,
                      value=env[name])
        if case["cluster"] == "graham":   # its script calls whatever python3 is on the node
            with open(os.path.join(binaries, "python3"), "w") as file:
                file.write(f'#!/bin/sh\nexec {env["PYTHON3_PATH"]} "$@"\n')
            os.chmod(os.path.join(binaries, "python3"), 0o755)
        full = {**env, "SLURM_JOB_ID": str(4001 + k), "SLURM_JOBID": str(4001 + k), "SLURM_SUBMIT_DIR": tmp,
                "PATH": binaries + ":/usr/bin:/bin", "HOME": tmp, "PYTHONPATH": core.REPO,
                "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore", "MPLBACKEND": "Agg",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
        r = RUN(["/bin/bash", rest[0]], env=full, cwd=tmp, capture_output=True, text=True, timeout=250)
        obs.step()
        if "Traceback" in r.stderr:
            obs.check(False, "the submitted job runs", stderr=r.stderr[-1500:])
    FS.generate_model_hashes()
    scratch = FS.path_rho.replace("work", "scratch") + "/results"
    files = sorted({os.path.realpath(f) for f in glob.glob(FS.path_rho_results + "/*.npz") + (
        glob.glob(scratch + "/*.npz") if case["cluster"] == "graham" else [])})
    obs.check(len(files) == len(cells) * jobs, "every job leaves one result file", files=files,
              expected=len(cells) * jobs, stderr=r.stderr[-800:])
    contents = {}
    for path in files:
        cell = (pp.extract_temperature_value_from_pimc_file_path(path), pp.extract_bead_value_from_pimc_file_path(path))
        with np.load(path) as file:
            obs.check(str(file["hash_vib"]) == FS.hash_vib and str(file["hash_rho"]) == FS.hash_rho,
                      "the result carries the hashes of the models", path=path)
            obs.check(len(file["s_g"]) == len(file["s_rho"]) == len(file["s_gP"]) == len(file["s_gM"]) == per_job
                      and int(file["number_of_samples"]) == per_job, "the result has all the samples", path=path)
            obs.check(np.all(np.isfinite(file["s_g"])) and np.all(file["s_rho"] > 0) and np.all(file["s_gP"] != 0)
                      and np.all(file["s_gM"] != 0), "all samples are computed", path=path)
            contents.setdefault(cell, []).append(tuple(file["s_rho"].tolist()))
    obs.check(sorted(contents) == sorted((t, p) for t, p in cells), "a result for every temperature and beads",
              got=sorted(contents))
    for cell, rows in contents.items():
        flat = [x for row in rows for x in row]
        obs.check(len(set(flat)) == len(flat), "no two samples of the jobs are the same (independent random numbers)",
                  cell=cell)
    obs.trace()
