"""the example workflows: preparation of the data sets, submission of what is missing, analysis of what is there."""
import contextlib
import glob
import importlib
import inspect
import itertools as it
import json
import os
import sys
import time
import types

import numpy as np

from mc import common as c
from mc import core, outside
from mc.checks import p10

PROPERTY = "P33"
RULE = ("every data set of both example systems is prepared in every history of 2 (thorough: 3) of {prepare, prepare again, prepare its neighbour, store another "
        "rotation, edit the coupled model}; submissions of sum-over-states / Trotter results for every content {absent, "
        "older model, any subset of the temperatures} of each file of a grid of basis sizes and beads, run at once or "
        "after all were submitted, in either order; every analytic and PIMC submission; analyses for every subset of "
        "data sets and sampling models that exist; training data for histories of jobs and sampling models; "
        "non-trivial: something is there already, or two data sets are involved")
ASSUMPTIONS = ["srun runs the given program, the Julia programs are stand-ins", "jobs do not write to one file at the same moment"]
CASE_TIMEOUT = 300
ARTIFICIAL, PAPER = "artificial_systems", "paper_1.5025058"
OWN = ("context", "systems", "submit_jobs_to_server", "setup_models", "analyze_results", "basic_ml_testing")
NAMES = {ARTIFICIAL: {"2x2": range(11, 16), "4x6": range(21, 26), "7x12": range(31, 36)},
         PAPER: {"superimposed": range(11, 17), "displaced": range(21, 27), "elevated": range(31, 37),
                 "jahnteller": range(41, 47)}}
TUNING = {1: 0.05, 2: 0.25, 3: 0.50, 4: 0.75, 5: 1.0}
HISTORIES = ("prepare", "neighbour", "matrix", "edit")
TEMPS = (250.0, 300.25)
FILE = ("absent", "older", "none", "first", "second", "both")


def cases(tier):
    depth = 2 if tier == "quick" else 3
    for example in NAMES:
        for name, ids in NAMES[example].items():
            for id_data in ids:
                for given in (True, False):
                    for history in it.product(HISTORIES, repeat=depth - 1):
                        if tier == "quick" and name == "7x12" and history != ("prepare",):
                            continue
                        yield {"what": "setup", "example": example, "name": name, "id": id_data, "given": given,
                               "history": ["prepare", *history]}
        for late in (0, 1, 2):
            for files in it.product(FILE, repeat=2):
                for kind in ("sos", "trotter"):
                    yield {"what": "exact", "example": example, "kind": kind, "late": late, "files": files,
                           "B": [7, 70] if kind == "sos" else [7], "P": [5, 50] if kind == "trotter" else [1]}
            for files in it.product(FILE if tier != "quick" else ("absent", "older", "first", "both"), repeat=4):
                yield {"what": "exact", "example": example, "kind": "trotter", "late": late, "files": files, "B": [7, 70],
                       "P": [5, 50]}
            for T in ([300.0], [250.0, 300.25], [0.5, 10.0, 1000.5]):
                for rho in (0, 3):
                    yield {"what": "analytic", "example": example, "T": T, "rho": rho, "late": late}
        for name, ids in NAMES[example].items():
            for id_data in ids:
                for rho in (0, 1):
                    yield {"what": "pimc", "example": example, "name": name, "id": id_data, "rho": rho}
        for there in it.product(("none", "model", "results"), repeat=4):
            yield {"what": "analysis", "example": example, "there": there}
    for history in it.product((0, 1), repeat=3):
        for rho in it.product((None, 0, 1), repeat=2 if tier == "quick" else 3):
            yield {"what": "training", "jobs": history, "rho": rho}


@contextlib.contextmanager
def scripts(example, root):
    """the example's scripts, as they are found when one of them is run; `root` is the user's default directory"""
    folder = os.path.join(core.REPO, "examples", example)
    path, modules = list(sys.path), {n: sys.modules.pop(n) for n in OWN if n in sys.modules}
    sleep = time.sleep
    try:
        time.sleep = lambda seconds: None
        sys.path.insert(0, folder)

        def load(name):
            module = importlib.import_module(name)
            if "context" in sys.modules and hasattr(sys.modules["context"], "choose_root_folder"):
                sys.modules["context"].choose_root_folder = lambda: root
            return module
        yield load
    finally:
        time.sleep = sleep
        sys.path[:] = path
        for n in OWN:
            sys.modules.pop(n, None)
        sys.modules.update(modules)


class Cluster:
    """srun / sbatch / julia; late: 0 jobs run when they are submitted, 1 afterwards, 2 afterwards in reverse order"""

    def __init__(self, obs, late=0):
        self.obs, self.late, self.waiting, self.julia, self.names, self.sbatch = obs, late, [], [], [], []

    def answer(self, argv, text):
        tool = os.path.basename(argv[0])
        if tool == "srun":
            self.obs.check("-c" in argv and "python" in argv[argv.index("-c") - 1], "srun starts a python program", argv=argv)
            program = argv[argv.index("-c") + 1]
            self.names += [a.partition("=")[2] for a in argv if a.startswith("--job-name")]
            if self.late and "--pty" not in argv:
                self.waiting.append(program)
            else:
                self.execute(program)
            return "", "", 0
        if tool == "julia":
            return self.program(argv)
        if tool == "sbatch":
            self.sbatch.append(argv)
            return f"Submitted batch job {4000 + len(self.sbatch)}\n", "", 0
        if tool == "sinfo":
            return "PARTITION           \nserial              \nhighmem             \n", "", 0
        if tool == "scontrol":
            return "Configuration data\nClusterName             = nlogn\n", "", 0
        return "", "not found", 127

    def execute(self, program):
        old = "julia_wrapper.analytic_of_coupled_model("
        try:
            exec(program, {"__name__": "__main__"})
        except AttributeError as err:
            text = str(err)
            self.obs.check(text.endswith("has no attribute 'analytic_of_coupled_model'") and old in program,
                           "a submitted calculation works", program=program, error=text)
            self.obs.finding("original-analytic", "a submitted calculation works", program=program, error=text)
            self.execute(program.replace(old, old.replace("of_", "of_original_")))
        except core.Violation:
            raise
        except Exception as err:
            self.obs.check(False, "a submitted calculation works", program=program, error=f"{type(err).__name__}: {err}")

    def finish(self):
        jobs, self.waiting = self.waiting, []
        for program in jobs if self.late < 2 else jobs[::-1]:
            self.execute(program)

    def program(self, argv):
        if argv[1] == "-v":
            return "julia version 1.0.0", "", 0
        if argv[1] == "-e":
            return "/nowhere/VibronicToolkit/src/VibronicToolkit.jl", "", 0
        name = os.path.basename(argv[1])

        def option(key):
            return argv[argv.index(key) + 1] if key in argv else None
        self.julia.append((name, os.path.abspath(option("--conf")), option("--beta"), option("--basis-size"),
                           option("--num-links"), "--uncoupled" in argv))
        n = float(len(self.julia))
        if name.startswith("iterative"):
            c.write_model(option("--out-conf"), iterated(json.load(open(option("--conf")))))
            with open(option("--out-vs"), "w") as file:
                file.write("1.0\n")
        kind = name.replace(".jl", "")
        return f"Z_{kind}: {n}\nE_{kind}: {-n}\n", "", 0


def iterated(model):
    """the model the iterative method answers with: one more surface, minima elsewhere"""
    E, w = np.diag(np.array(model["energies"])), np.array(model["frequencies"])
    S = len(E) + 1
    s, i = np.arange(S), np.arange(len(w))
    return {"w": w, "E": np.append(E, E.mean()) + 0.01 * s, "G1": 0.011 * (i[:, None] + 1) * np.cos(s[None, :] + i[:, None]), "A": S, "N": len(w)}


def arrays(path):
    d = json.load(open(path))
    return {k: np.array(d[n]) for k, n in (("E", "energies"), ("w", "frequencies"), ("G1", "linear couplings")) if n in d}


def same(a, b):
    a, b = ({k: v for k, v in m.items() if k in ("E", "w", "G1")} for m in (a, b))
    zero = {k: v for k, v in a.items() if np.any(v)}, {k: v for k, v in b.items() if np.any(v)}
    return set(zero[0]) == set(zero[1]) and all(zero[0][k].shape == zero[1][k].shape
                                                and np.allclose(zero[0][k], zero[1][k], rtol=0, atol=1e-9) for k in zero[0])


def diagonal(m):
    return {"w": m["w"], **{k: np.einsum("...aa->...a", v) for k, v in m.items() if k != "w"}}


def lowest(rho, vib):
    """the lowest energies of the coupled model at the minima of the sampling model, and what has to be added for them"""
    E, shift = [], []
    for s in range(len(rho["E"])):
        q = -rho["G1"][:, s] / rho["w"]
        V = vib["E"] + 0.5 * np.sum(vib["w"] * q**2) * np.eye(len(vib["E"])) + np.einsum("iab,i->ab", vib.get("G1", np.zeros((len(q), *vib["E"].shape))), q)
        E.append(np.linalg.eigvalsh(V)[0])
        shift.append(0.5 * np.sum(rho["G1"][:, s]**2 / rho["w"]))
    return np.array(E), np.array(shift)


def execute(case, obs):
    with obs.tmp() as top:
        globals()["execute_" + case["what"]](case, obs, top)


def execute_setup(case, obs, top):
    from pibronic.data import file_structure as fs
    from pibronic.vibronic import vIO
    default, given = os.path.join(top, "default"), os.path.join(top, "given")
    os.mkdir(default)
    os.mkdir(given)
    root, other = (given, default) if case["given"] else (default, given)
    cluster = Cluster(obs)
    paper = case["example"] == PAPER
    source = os.path.join(core.REPO, "examples", case["example"])
    matrices, edited = {}, set()

    def prepare(load, id_data):
        submit = load("submit_jobs_to_server")
        wrapper = submit.iterative_method_wrapper

        def iterative(*args, **kwargs):
            call = inspect.signature(wrapper).bind(*args, **kwargs)
            if case["given"] and call.arguments.get("root") is None:
                obs.finding("iterative-root", "the iterative method runs in the root that was given", call=call)
                call.arguments["root"] = root
            return wrapper(*call.args, **call.kwargs)
        if not hasattr(wrapper, "checked"):
            iterative.checked = True
            submit.iterative_method_wrapper = iterative
        setup = load("setup_models")
        arguments = {"root": root} if case["given"] else {}
        (setup.prepare_paper_model_plus_iterative_method if paper else setup.prepare_model)(case["name"], id_data, **arguments)
        edited.discard(id_data)

    def judge(id_data, history):
        FS = fs.FileStructure(root, id_data, 0, no_makedir=True)
        base = FS.path_data
        n = id_data % 10
        vib = arrays(os.path.join(source, "input_json", f"{case['name']}_{n}.json" if paper else f"model_{case['name']}.json"))
        want = {"parameters/harmonic_model.json": None, "parameters/iterative_model.json": None, "parameters/iterative_matrix.txt": None}
        rho = {}
        if not paper:
            A = len(vib["E"])
            if id_data not in matrices:
                matrices[id_data] = vIO.create_orthonormal_matrix_lambda_close_to_identity(A, TUNING[n])
            U = matrices[id_data]
            want["parameters/original_coupled_model.json"] = vib
            want["parameters/orthogonal_matrix.npy"] = None
            obs.check(np.allclose(np.load(os.path.join(base, "parameters/orthogonal_matrix.npy")), U, atol=1e-12),
                      "the rotation of a data set is the stored one, first that of its tuning parameter", id=id_data, history=history)
            rho[1] = diagonal(vib)
            vib = {"w": vib["w"], **{k: U @ v @ U.T for k, v in vib.items() if k != "w"}}
        rho[0] = want["parameters/harmonic_model.json"] = diagonal(vib)
        want["parameters/coupled_model.json"] = vib
        it_model = iterated({"energies": vib["E"], "frequencies": vib["w"]})
        low, shift = lowest(it_model, vib)
        if paper:
            want["parameters/iterative_model.json"] = rho[11] = {**it_model, "E": low + shift}
            for path in glob.glob(os.path.join(source, "alternate_rhos", f"{case['name']}_D{n}_R*.json")):
                rho[int(path.split("_R")[1][:-len(".json")])] = arrays(path)
        else:
            want["parameters/iterative_model.json"] = rho[2] = it_model
            rho[3], rho[4] = {**it_model, "E": low}, {**it_model, "E": low + shift}
        want.update({f"rho_{k}/parameters/sampling_model.json": m for k, m in rho.items()})
        found = {os.path.relpath(os.path.join(b, f), base) for b, _, names in os.walk(base) for f in names}
        obs.check(found == set(want), "a prepared data set has its models and nothing else", id=id_data, history=history,
                  missing=sorted(set(want) - found), more=sorted(found - set(want)))
        for path, model in want.items():
            if model is not None:
                got = arrays(os.path.join(base, path))
                obs.check(same(got, model), "a model is made from the input file of the data set's own system", id=id_data,
                          path=path, got=got, expected=model, history=history)

    with scripts(case["example"], default) as load, outside.Shell(cluster.answer).installed():
        ids = list(NAMES[case["example"]][case["name"]])
        mine = case["id"]
        neighbour = ids[(ids.index(mine) + 1) % len(ids)]
        done = set()
        for k, op in enumerate(case["history"]):
            FS = fs.FileStructure(root, mine, 0)
            if op == "prepare":
                prepare(load, mine)
                done.add(mine)
            elif op == "neighbour":
                prepare(load, neighbour)
                done.add(neighbour)
            elif op == "matrix" and not paper:
                A = len(np.load(FS.path_ortho_mat))
                matrices[mine] = np.eye(A)[::-1].copy()
                np.save(FS.path_ortho_mat, matrices[mine])
                prepare(load, mine)
            else:       # another coupled model is there when the data set is prepared
                vIO.save_model_to_JSON(FS.path_vib_model, vIO.load_model_from_JSON(FS.path_har_model.replace("harmonic", "coupled")))
                d = json.load(open(FS.path_vib_model))
                d["frequencies"] = [w * 1.5 for w in d["frequencies"]]
                json.dump(d, open(FS.path_vib_model, "w"))
                prepare(load, mine)
            obs.step()
            for id_data in done:
                judge(id_data, case["history"][:k + 1])
            obs.check(not os.listdir(other), "only the chosen root directory is used", found=os.listdir(other))
            obs.state(case["example"], case["id"], *case["history"][:k + 1])
        here = {f for f in os.listdir(root)}
        obs.check(here == {f"data_set_{d}" for d in done}, "only the asked data sets are made", found=here)
        expected = [(os.path.join(root, f"data_set_{d}", "parameters", "coupled_model.json")) for d in done]
        obs.check({j[1] for j in cluster.julia} == set(expected), "the iterative method runs on the prepared model", julia=cluster.julia)
    obs.trace()
    if "neighbour" in case["history"] or len(case["history"]) > 1:
        obs.nontriv("setup", case["example"], case["id"], case["given"], *case["history"])


def grid(root, id_data, rho=0):
    FS = c.file_structure(root, c.vibronic_model(2, 2, "elEL"), c.sampling_model(2, 2), id_data, rho)
    c.write_model(FS.path_orig_model, c.vibronic_model(2, 2, "el"))
    FS.generate_model_hashes()
    return FS


def execute_exact(case, obs, top):
    kind = case["kind"]
    FS = grid(top, 11)
    # a neighbour whose results are complete must not matter
    other = grid(top, 12)
    cells = list(it.product(case["B"], case["P"]))

    def path_of(F, B, P):
        return F.template_sos_vib.format(B=B) if kind == "sos" else F.template_trotter_vib.format(B=B, P=P)
    current = {}
    for (B, P), state in zip(cells, case["files"]):
        temps = {"absent": (), "none": (), "older": TEMPS, "both": TEMPS, "first": TEMPS[:1], "second": TEMPS[1:]}[state]
        if state != "absent":
            with open(path_of(FS, B, P), "w") as file:
                json.dump({"hash_vib": "0" * 128 if state == "older" else FS.hash_vib, **{f"{T:.2f}": {f"Z_{kind}": 77.0} for T in temps}}, file)
        with open(path_of(other, B, P), "w") as file:
            json.dump({"hash_vib": other.hash_vib, **{f"{T:.2f}": {f"Z_{kind}": 55.0} for T in TEMPS}}, file)
        current[B, P] = set() if state == "older" else set(temps)
    cluster = Cluster(obs, case["late"])
    with scripts(case["example"], os.path.join(top, "nowhere")) as load, outside.Shell(cluster.answer).installed():
        submit = load("submit_jobs_to_server")
        for turn in ("submitted", "again", "new model"):
            if turn == "new model":
                c.write_model(FS.path_vib_model, c.vibronic_model(2, 2, "elEL", scale=1.3))
                current = {cell: set() for cell in cells}
                FS.generate_model_hashes(force_flag=True)
            cluster.julia.clear()
            cluster.names.clear()
            if kind == "sos":
                submit.simple_sos_wrapper(list(case["B"]), list(TEMPS), root=top, id_data=11)
            else:
                try:
                    submit.simple_trotter_wrapper(list(case["B"]), list(TEMPS), list(case["P"]), root=top, id_data=11)
                except UnboundLocalError as err:
                    obs.check(case["example"] == ARTIFICIAL and not cluster.names and last_only(case, current)[1],
                              "nothing is submitted if nothing is missing", turn=turn, error=err, current=current)
                    obs.finding("trotter-beads", "nothing is submitted if nothing is missing", turn=turn, error=err)
                    obs.trace()
                    return
            cluster.finish()
            obs.step()
            missing = sorted((B, P, T) for (B, P), have in current.items() for T in TEMPS if T not in have)
            ran = sorted((int(j[3]), int(j[4] or 1), min(TEMPS, key=lambda T: abs(c.beta_of(T) - float(j[2])))) for j in cluster.julia)
            if case["example"] == ARTIFICIAL and kind == "trotter" and ran != missing and (ran, False) == last_only(case, current):
                obs.finding("trotter-beads", "every number of beads is calculated", turn=turn, ran=ran, missing=missing)
                obs.trace()
                return
            obs.check(ran == missing, "every missing exact result is calculated once, and nothing else", turn=turn, ran=ran,
                      missing=missing, kind=kind)
            for j in cluster.julia:
                obs.check(j[0] == kind + ".jl" and j[1] == os.path.abspath(FS.path_vib_model)
                          and min(abs(c.beta_of(T) / float(j[2]) - 1) for T in TEMPS) < 1e-12, "the calculation of the data set", call=j)
            for (B, P) in cells:
                got = json.load(open(path_of(FS, B, P)))
                obs.check(set(got) == {"hash_vib", *(f"{T:.2f}" for T in TEMPS)} and got["hash_vib"] == FS.hash_vib
                          and all(got[f"{T:.2f}"].get(f"Z_{kind}") is not None for T in TEMPS)
                          and all((got[f"{T:.2f}"][f"Z_{kind}"] == 77.0) == (turn == "submitted" and T in current[B, P]) or turn == "again"
                                  for T in TEMPS), "the results of all temperatures are there, each calculated once", got=got, turn=turn)
                current[B, P] = set(TEMPS)
            obs.check(len(cluster.names) == len(set(cluster.names)) or len(case["B"]) > 1, "jobs have different names", names=cluster.names)
            obs.check(all(n.split("_")[0:2] == [kind, "D11"] for n in cluster.names), "job names", names=cluster.names)
            obs.state(case["example"], kind, *case["files"], turn)
        for (B, P) in cells:
            got = json.load(open(path_of(other, B, P)))
            obs.check(all(got[f"{T:.2f}"][f"Z_{kind}"] == 55.0 for T in TEMPS), "the other data set is left alone")
    obs.trace()
    if set(case["files"]) - {"absent"}:
        obs.nontriv("exact", case["example"], kind, case["late"], *case["files"])


def last_only(case, current):
    """what the known finding submits: per basis size and temperature the job that was prepared last; does it fail?"""
    job, ran = None, []
    for B, T in it.product(case["B"], TEMPS):
        for P in case["P"]:
            if T not in current[B, P]:
                job = (B, P, T)
        if job is None:
            return [], True
        ran.append(job)
    return sorted(ran), False


def execute_analytic(case, obs, top):
    FS = grid(top, 11, case["rho"])
    cluster = Cluster(obs, case["late"])
    with scripts(case["example"], os.path.join(top, "nowhere")) as load, outside.Shell(cluster.answer).installed():
        submit = load("submit_jobs_to_server")
        artificial = case["example"] == ARTIFICIAL
        run = submit.generate_analytical_results if artificial else submit.generate_sampling_analytical_results
        for turn in (0, 1):
            cluster.julia.clear()
            run(FS, list(case["T"]))
            cluster.finish()
            obs.step()
            jobs = [(FS.path_rho_model, False)] + ([(FS.path_orig_model, True)] if artificial else [])
            want = sorted((os.path.abspath(p), flag, round(c.beta_of(T), 9)) for p, flag in jobs for T in case["T"])
            got = sorted((j[1], j[5], round(float(j[2]), 9)) for j in cluster.julia)
            obs.check(got == want and all(j[0] == "analytical.jl" for j in cluster.julia),
                      "the analytic results of every temperature and model are calculated", got=cluster.julia, expected=want)
            for path in [FS.path_analytic_rho] + ([FS.path_analytic_orig] if artificial else []):
                d = json.load(open(path))
                obs.check({f"{T:.2f}" for T in case["T"]} <= set(d) and d["hash_vib"] == FS.hash_vib, "they are all kept", path=path, got=d)
    obs.trace()
    obs.state("analytic", case["example"], *case["T"], case["rho"])
    if len(case["T"]) > 1:
        obs.nontriv("analytic", case["example"], *case["T"], case["rho"], case["late"])


def execute_pimc(case, obs, top):
    from mc.checks import p17
    A, N = (2, 2) if case["example"] == PAPER else tuple(int(x) for x in case["name"].split("x"))
    FS = c.file_structure(top, c.vibronic_model(A, N, "elEL"), c.sampling_model(2, N), case["id"], case["rho"])
    c.write_model(FS.path_orig_model, c.vibronic_model(A, N, "el"))
    cluster = Cluster(obs, 1)
    with scripts(case["example"], os.path.join(top, "nowhere")) as load, outside.Shell(cluster.answer).installed():
        load("submit_jobs_to_server").simple_pimc_wrapper(root=top, id_data=case["id"], id_rho=case["rho"])
    obs.step()
    from pibronic.pimc import pimc
    beads, samples = ([50], 10**4) if case["example"] == PAPER else ([50, 100, 150, 200, 300, 400, 500], 10**5)
    drawn = {P: 0 for P in beads}
    for argv in cluster.sbatch:
        env, rest, opts = p17.options(argv)
        data = pimc.BoxDataPM.from_json_string(env["EXECUTION_PARAMETERS"])
        obs.check((data.states, data.modes, data.id_data, data.id_rho, data.temperature) == (A, N, case["id"], case["rho"], 300.0)
                  and data.beads in drawn and os.path.realpath(data.path_rho_model) == os.path.realpath(FS.path_rho_model),
                  "a job of the data set and sampling model", argv=argv)
        drawn[data.beads] += data.samples
    obs.check(all(samples <= n < samples + 10**4 for n in drawn.values()), "the asked samples are drawn for every number of beads", drawn=drawn)
    obs.check({j[1] for j in cluster.julia} <= {os.path.abspath(FS.path_orig_model), os.path.abspath(FS.path_rho_model)}, "analytic results", julia=cluster.julia)
    obs.trace()
    obs.state("pimc", case["example"], case["id"], case["rho"])


def execute_analysis(case, obs, top):
    cells = [(11, 0), (11, 1), (12, 0), (12, 1)]
    hashes = {}
    for (d, r), there in zip(cells, case["there"]):
        if there == "none":
            continue
        FS = c.file_structure(top, c.vibronic_model(2, 1, "elEL", scale=1 + 0.1 * d), c.sampling_model(2, 1, scale=1 + 0.3 * r), d, r)
        hashes[d, r] = p10.model_hashes(FS)
        if there == "results":
            p10.write(FS, 5, 300.0, 0, 4, False, hashes[d, r])
            p10.write_analytic(FS, hashes[d, r])
    before = {os.path.relpath(os.path.join(b, f), top) for b, ds, fs_ in os.walk(top) for f in fs_ + ds}
    # both kinds of analysis write to the same name; the last one made is kept
    with scripts(case["example"], top) as load:
        script = load("analyze_results")
        systems = sys.modules["systems"]
        name = systems.name_lst[0]
        systems.id_dict, systems.rho_dict = {name: [11, 12]}, {name: {11: [0, 1], 12: [0, 1]}}
        script.automate_statistical_analysis(name)
    obs.step()
    after = {os.path.relpath(os.path.join(b, f), top) for b, ds, fs_ in os.walk(top) for f in fs_ + ds}
    new = after - before
    want = {f"data_set_{d}/rho_{r}/results/P5_T300.00_X4_thermo" for (d, r), there in zip(cells, case["there"]) if there == "results"}
    obs.check(new == want, "exactly the results that are there are analysed", new=sorted(new), expected=sorted(want))
    for path in want:
        d, r = (int(x.split("_")[-1]) for x in path.split("/")[:2])
        out = json.load(open(os.path.join(top, path)))
        obs.check((out["hash_vib"], out["hash_rho"]) == hashes[d, r], "an analysis belongs to its own models", path=path)
    obs.trace()
    obs.state("analysis", case["example"], *case["there"])
    if "results" in case["there"] and len(set(case["there"])) > 1:
        obs.nontriv("analysis", case["example"], *case["there"])


@contextlib.contextmanager
def old_modules(obs, load):
    """the training example, with what it cannot find by its old names"""
    from pibronic.data import file_structure as fs
    from pibronic.pimc import pimc
    from pibronic.vibronic import vIO
    new, added = {"pibronic.data.vibronic_model_io": vIO, "pibronic.pimc.minimal": pimc}, []

    def structure(path_root, id_data, *args, **kwargs):
        if isinstance(id_data, pimc.BoxData):
            obs.finding("training-structure", "the file structure of the other sampling model is made", id_data=id_data)
            return fs.FileStructure.from_boxdata(path_root, id_data, *args, **kwargs)
        return fs.FileStructure(path_root, id_data, *args, **kwargs)
    structure.from_boxdata = fs.FileStructure.from_boxdata
    try:
        while True:
            try:
                ml = load("basic_ml_testing")
                break
            except ModuleNotFoundError as err:
                obs.check(err.name in new, "the modules of the example exist", error=err)
                obs.finding("training-imports", "the modules of the example exist", error=err)
                sys.modules[err.name] = new[err.name]
                added.append(err.name)
        ml.fs = types.SimpleNamespace(**{**vars(fs), "FileStructure": structure})
        yield ml
    finally:
        for name in added:
            sys.modules.pop(name, None)


def execute_training(case, obs, top):
    """the basic example of training data: g(R) of new R per job, rho(R) of the same R for any sampling model"""
    vib = c.vibronic_model(2, 2, "elEL")
    rhos = [c.sampling_model(2, 2), c.sampling_model(3, 2, scale=0.7)]
    FSs = [c.file_structure(top, vib, m, 3, k) for k, m in enumerate(rhos)]
    tau = c.beta_of(300.0) / 4
    with scripts("", top) as load, old_modules(obs, load) as ml:
        ml.root = top
        for J, rho in it.product(sorted(set(case["jobs"])), case["rho"]):
            n = np.arange(100 * 2 * 4)
            with c.Rng(sources=(np.arange(100) + J) % 2, normals=np.zeros(1), uniforms=0.5 + 0.49 * np.sin(1.3 * n + 0.07 * n * n + J)).installed():
                data, result = ml.generate_basic_data_set(FSs[0], P=4, T=300.0, J=J)
                ml.generate_rho_output_values(FSs[0], data, result, id_rho=rho)
            obs.step()
            k = rho or 0
            start = f"P4_T300.00_J{J}_training_data_"
            base = os.path.join(top, "data_set_3")
            R = np.load(os.path.join(base, "results", start + "input.npz"))["input_R_values"]
            g = np.load(os.path.join(base, "results", start + "g_output.npz"))["g"]
            values = np.load(os.path.join(base, f"rho_{k}", "results", start + "rho_output.npz"))["rho"]
            obs.check(R.shape == (100, 2, 4) and np.all(np.isfinite(R)), "a hundred samples", shape=R.shape)
            for got, want, what in ((values, c.rho_reference(R, rhos[k], tau), "rho(R) of the sampling model that was asked for"),
                                    (g, c.g_reference(R, vib, tau), "g(R) of the coupled model")):
                obs.check(np.allclose(got, want, rtol=1e-8, atol=1e-14 * np.abs(want).max()), what + " at the stored R", J=J,
                          rho=rho, got=got[:4], expected=want[:4])
            obs.state("training", *case["jobs"], *[str(r) for r in case["rho"]])
    obs.trace()
    obs.nontriv("training", *case["jobs"], *[str(r) for r in case["rho"]])

