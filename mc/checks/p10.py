"""the analysis of a data set: every combination of bead / temperature cells with current and stale results."""
import itertools as it
import json
import os

import numpy as np

from mc import common as c
from mc import stats_ref as ref

PROPERTY = "P10"
RULE = ("every assignment of {no results, one current file, two current files, one stale file, current and stale} to the "
        "cells beads {3, 12} x temperatures {10, 300} with at least one current file (quick: cells restricted to at most "
        "one stale or double) and to 119 cells whose names begin alike, to cells with a dozen and with 150 files (and the numbers of slurm jobs) and with 401 samples, to cells which also have a file without the plus / minus arrays, x basic/alpha x plain/jackknife; plus every "
        "history of 4 (thorough: 5) operations from {a job finishes in cell 1, in cell 2, the coupled / sampling model is "
        "edited, one of the four analyses by a new process} after a first job and analysis; "
        "every sequence of 3 (thorough: 4) analyses of three sets of results with new results in between, by one process; "
        "non-trivial: not every cell has results, or results arrive between two analyses")
ASSUMPTIONS = ["the analysis runs in one process at a time (the pool inside it is real)"]
CELLS = [(3, 10.0), (3, 300.0), (12, 10.0), (12, 300.0)]
KINDS = ["none", "one", "two", "stale", "mixed"]
HISTORY = ["job1", "job2", "vib", "rho", "analyse", "other"]
# names which begin alike
MANY = list(it.product((3, 30), (3.0, 3.05, 30.0, 30.5, 300.0, 300.05, 300.5, 303.0, 330.0, 1300.0, 3000.0, 3000.3,
                                 3003.0, 3030.0, 3300.0, 30000.0, 33000.0)))
MANY += [(P, 300.0) for P in range(4, 90) if P != 30]
SETS = [(0, 0), (0, 1), (1, 0)]
CASE_TIMEOUT = 200


def cases(tier):
    for combo in it.product(KINDS, repeat=4):
        current = sum(k in ("one", "two", "mixed") for k in combo)
        if current == 0:
            continue
        unusual = sum(k in ("two", "stale", "mixed") for k in combo)
        if tier == "quick" and unusual > 1:
            continue
        if tier != "quick" and unusual > 2:
            continue
        for method, jack in it.product(("basic", "alpha"), (False, True)):
            yield {"cells": combo, "method": method, "jackknife": jack}
    yield {"cells": ("none",) * 4, "method": "basic", "jackknife": False, "arguments": True}
    for method, jack in it.product(("basic", "alpha"), (False, True)):
        yield {"cells": ("one",) * len(MANY), "method": method, "jackknife": jack, "many": True}
        yield {"cells": ("dozen", "none", "large", "two"), "method": method, "jackknife": jack}
        yield {"cells": ("one", "hundred", "none", "stale"), "method": method, "jackknife": jack}
        for combo in it.product(("plain", "none", "one", "mixed"), repeat=4):
            if "plain" in combo and (tier != "quick" or combo.count("none") > 1):
                yield {"cells": combo, "method": method, "jackknife": jack}
    # several sets of results with the same beads and temperatures, analysed one after another by one process
    for method, jack in it.product(("basic", "alpha"), (False, True)):
        for order in it.product(range(len(SETS)), repeat=3 if tier == "quick" else 4):
            for changed in (False, True):
                yield {"cells": ("none",) * 4, "method": method, "jackknife": jack, "sets": order, "changed": changed}
    for method, jack in it.product(("basic", "alpha"), (False, True)):
        for history in it.product(HISTORY, repeat=4 if tier == "quick" else 5):
            if history[-1] != "analyse" or (tier != "quick" and history[0] == "analyse"):
                continue
            yield {"cells": ("none",) * 4, "method": method, "jackknife": jack, "history": history}


def write(FS, P, T, J, n, stale, hashes, plain=False):
    k = J + np.arange(1, n + 1) + P / 10 + T / 1000
    rho = 1 + 0.1 * np.cos(k)
    g = 1.5 + 0.5 * np.sin(3 * k)
    gp, gm = g * (1.02 + 0.001 * np.sin(k)), g * (0.97 + 0.002 * np.cos(5 * k))
    if stale:
        g = g * 100
    # a stale file differs from the current models in one hash only
    hv = hashes[0] if not (stale and J % 2) else "0" * 128
    hr = hashes[1] if not (stale and not J % 2) else "0" * 128
    more = {} if plain else {"s_gP": gp, "s_gM": gm}
    np.savez(os.path.join(FS.path_rho_results, f"P{P}_T{T:.2f}_J{J}_data_points.npz"), hash_vib=hv, hash_rho=hr,
             number_of_samples=n, s_rho=rho, s_g=g, **more)
    return list(zip(rho.tolist(), g.tolist(), gp.tolist(), gm.tolist()))


def write_analytic(FS, hashes, temperatures=(10.0, 300.0)):
    analytic = {"hash_vib": hashes[0], "hash_rho": hashes[1]}
    for i, T in enumerate(temperatures):
        analytic[f"{T:.2f}"] = {"Z_sampling": 2.0 + i, "E_sampling": 0.5 + i, "Cv_sampling": 0.01 + i,
                                "Z_sampling+beta": 1.9 + i, "Z_sampling-beta": 2.2 + i}
    with open(FS.path_analytic_rho, "w") as file:
        json.dump(analytic, file)
    return analytic


def model_hashes(FS):
    from pibronic.vibronic import vIO
    return vIO.create_model_hash(FS=FS), vIO.create_diagonal_model_hash(FS=FS)


def analyse(FS, method, jackknife):
    from pibronic.stats import stats
    run = stats.jackknife_analysis_of_pimc if jackknife else stats.statistical_analysis_of_pimc
    # the strings are built at run time: the analysis must compare them by value
    run(FS, method="".join(list(method)), location="".join(list("local")))


def thermo_name(FS, P, T, X):
    return os.path.abspath(os.path.join(FS.path_rho_results, f"P{P}_T{T:.2f}_X{X}_thermo"))


def judge(obs, path, rows, T, a, method, jackknife, hashes):
    """the content of one analysis file"""
    from pibronic import constants
    dB = constants.delta_beta
    with open(path) as file:
        out = json.load(file)
    Es, Cs = a["E_sampling"], a["Cv_sampling"]
    ap, am = a["Z_sampling"] / a["Z_sampling+beta"], a["Z_sampling"] / a["Z_sampling-beta"]
    if method == "basic":
        ap = am = 1.0
    est = lambda s: ref.alpha(s, T, dB, ap, am)  # noqa: E731
    Z, E, C = est(rows)
    se, sc = ref.size(rows, T, dB, ap, am)
    se, sc = 10 * len(rows) * se, 10 * len(rows) * sc
    near = lambda x, y, s: abs(x - y) <= 1e-10 * (abs(y) + s)  # noqa: E731
    obs.check(near(out["Z"], Z, 1e-3) and near(out["E"], E + Es, se) and near(out["Cv"], C + Cs, sc),
              "the stored estimates are those of all the current samples of this combination", got=out,
              expected=(Z, E + Es, C + Cs))
    obs.check(near(out["Z error"], ref.z_error(rows), 1e-3), "the stored error of Z")
    if jackknife:
        jE, jEe, jC, jCe = ref.jackknife(rows, est)
        obs.check(near(out["jk_E"], jE + Es, se) and near(out["jk_E error"], jEe, se)
                  and near(out["jk_Cv"], jC + Cs, sc) and near(out["jk_Cv error"], jCe, sc),
                  "the stored jackknife estimates", got=out, expected=(jE + Es, jEe, jC + Cs, jCe))
    obs.check((out["hash_vib"], out["hash_rho"]) == hashes, "the analysis file carries the hashes")


def execute(case, obs):
    from pibronic.data import postprocessing as pp
    with obs.tmp() as root:
        FS = c.file_structure(root, c.vibronic_model(2, 1, "el"), c.sampling_model(2, 1))
        hashes = model_hashes(FS)
        analytic = write_analytic(FS, hashes)
        if case.get("arguments"):
            return arguments(case, obs, FS, analytic, hashes)
        if case.get("sets"):
            return sets(case, obs, root)
        if case.get("history"):
            return history(case, obs, root, FS)
        expect = {}
        J = 0
        if case.get("many"):
            analytic = write_analytic(FS, hashes, sorted({T for P, T in MANY}))
        for (P, T), kind in zip(MANY if case.get("many") else CELLS, case["cells"]):
            rows = []
            plan = {"none": [], "one": [(4 + J % 3, False)], "two": [(3, False), (5, False)], "stale": [(3, True)],
                    "mixed": [(4, False), (3, True)],
                    "plain": [(3, False), (5, "plain"), (2, False)],
                    "hundred": [(1 + k % 2, k % 7 == 5) for k in range(150)],
                    "dozen": [(2 + k % 3, k % 7 == 5) for k in range(14)], "large": [(400, False), (1, False)]}[kind]
            for n, stale in plan:
                J += 7919 if kind == "hundred" else 1
                # results without the plus / minus arrays (of another program) are left out
                new = write(FS, P, T, J, n, stale is True, hashes, plain=stale == "plain")
                rows += [] if stale else new
            if rows:
                expect[(P, T)] = rows
        analyse(FS, case["method"], case["jackknife"])
        found = pp.retrive_jackknife_file_list(FS)
        names = {thermo_name(FS, P, T, len(rows)): (P, T) for (P, T), rows in expect.items()}
        obs.check(set(map(os.path.abspath, found)) == set(names),
                  "one analysis file for every bead/temperature combination with current results, named after the "
                  "number of samples", found=sorted(found), expected=sorted(names))
        for path, (P, T) in names.items():
            judge(obs, path, expect[(P, T)], T, analytic[f"{T:.2f}"], case["method"], case["jackknife"], hashes)
        kept = pp.prune_results_using_hashes(FS, found)
        obs.check(sorted(kept) == sorted(found), "the analysis files count as current")
        obs.step(len(expect))
        obs.trace()
        obs.state(*case.values())
        if len(expect) != 4:
            obs.nontriv(*case.values())


def history(case, obs, root, FS):
    """jobs finish and models change between the analyses, each of which is run by a new process"""
    from pibronic.data import file_structure as fs
    from pibronic.data import postprocessing as pp
    state = {"job": 0, "edits": 0}
    files = []      # (cell, rows, hashes)
    written = {}    # name -> hashes of the analysis which wrote it last
    hashes = model_hashes(FS)
    cells = {"job1": (3, 300.0), "job2": (12, 10.0)}
    between = False
    for op in ("job1", "analyse") + tuple(case["history"]):
        obs.step()
        if op in cells:
            state["job"] += 1
            P, T = cells[op]
            files.append((op, write(FS, P, T, state["job"], 3 + state["job"] % 2, False, hashes), hashes))
            between = between or bool(written)
        elif op in ("vib", "rho"):
            state["edits"] += 1
            scale = 1.0 + 0.1 * state["edits"]
            if op == "vib":
                c.write_model(FS.path_vib_model, c.vibronic_model(2, 1, "el", scale=scale))
            else:
                c.write_model(FS.path_rho_model, c.sampling_model(2, 1, scale=scale))
            hashes = model_hashes(FS)
            write_analytic(FS, hashes)
        else:
            method, jackknife = case["method"], case["jackknife"]
            if op == "other":
                method, jackknife = {"basic": "alpha", "alpha": "basic"}[method], not jackknife
            expect = {cell: sum((rows for x, rows, h in files if x == cell and h == hashes), []) for cell in cells}
            expect = {cell: rows for cell, rows in expect.items() if rows}
            if not expect:
                continue        # nothing current to analyse: an error may be reported
            new = fs.FileStructure(root, 0, 0)
            analyse(new, method, jackknife)
            analytic = write_analytic(FS, hashes)
            for cell, rows in expect.items():
                P, T = cells[cell]
                name = thermo_name(FS, P, T, len(rows))
                written[name] = hashes
                obs.check(os.path.exists(name), "the analysis takes in every result of the current models", name=name,
                          present=sorted(os.listdir(FS.path_rho_results)))
                judge(obs, name, rows, T, analytic[f"{T:.2f}"], method, jackknife, hashes)
            found = pp.retrive_jackknife_file_list(new)
            obs.check(set(map(os.path.abspath, found)) == set(written), "the analysis writes no other files",
                      found=sorted(found), expected=sorted(written))
            kept = set(map(os.path.abspath, pp.prune_results_using_hashes(new, found)))
            obs.check(kept == {n for n, h in written.items() if h == hashes},
                      "exactly the analysis files of the current models count as current", kept=sorted(kept))
            obs.state(case["method"], case["jackknife"], op, [len(r) for r in expect.values()], len(written))
    obs.trace()
    if between:
        obs.nontriv(*case.values())


def sets(case, obs, root):
    """sets of results which have the beads, the temperatures and (two of them) the coupled model in common"""
    from pibronic.data import file_structure as fs
    from pibronic.data import postprocessing as pp
    P, T = 3, 300.0
    all_rows, analytic, jobs = {}, {}, {}

    def add(where):
        jobs[where] = jobs.get(where, 0) + 1
        FS = fs.FileStructure(root, *where)
        J = 10 * SETS.index(where) + jobs[where]
        all_rows.setdefault(where, []).extend(write(FS, P, T, J, 3 + J % 2, False, model_hashes(FS)))

    for k, where in enumerate(SETS):
        FS = fs.FileStructure(root, *where)
        c.write_model(FS.path_vib_model, c.vibronic_model(2, 1, "el", scale=1.0 + 0.1 * where[0]))
        c.write_model(FS.path_rho_model, c.sampling_model(2, 1, scale=1.0 + 0.1 * k))
        analytic[where] = write_analytic(FS, model_hashes(FS), (10.0 + k, T))
        if k:
            analytic[where][f"{T:.2f}"].update({"Z_sampling": 3.0 + k, "E_sampling": 0.3 * k})
            with open(FS.path_analytic_rho, "w") as file:
                json.dump(analytic[where], file)
        add(where)
    one = fs.FileStructure(root, *SETS[0])
    for k in case["sets"]:
        where = SETS[k]
        if case["changed"] and where[0] == one.id_data:
            one.change_rho(where[1])
            FS = one
        else:
            FS = fs.FileStructure(root, *where)
        analyse(FS, case["method"], case["jackknife"])
        hashes = model_hashes(fs.FileStructure(root, *where))
        name = thermo_name(fs.FileStructure(root, *where), P, T, len(all_rows[where]))
        obs.check(os.path.exists(name), "the analysis takes in every result of this set", name=name)
        judge(obs, name, all_rows[where], T, analytic[where][f"{T:.2f}"], case["method"], case["jackknife"], hashes)
        obs.check(len(pp.retrive_jackknife_file_list(fs.FileStructure(root, *where))) <= jobs[where],
                  "the analysis writes one file for the combination")
        add(where)
        obs.step()
        obs.state(case["method"], case["jackknife"], k, jobs[where])
    obs.trace()
    obs.nontriv(*case.values())


def arguments(case, obs, FS, analytic, hashes):
    """analytic data: stale hashes, missing temperatures; wrong arguments"""
    from pibronic.data import postprocessing as pp
    from pibronic.stats import stats
    FS.generate_model_hashes()
    for T in (10.0, 300.0):
        got = {}
        pp.load_analytic_data(FS, T, got)
        a = analytic[f"{T:.2f}"]
        want = {"Z": a["Z_sampling"], "E": a["E_sampling"], "Cv": a["Cv_sampling"],
                "alpha_plus": a["Z_sampling"] / a["Z_sampling+beta"], "alpha_minus": a["Z_sampling"] / a["Z_sampling-beta"]}
        obs.check(got == want, "the analytic data of the temperature", T=T, got=got, expected=want)
        obs.step()

    def refused(operation, label):
        try:
            operation()
        except Exception:
            return
        obs.check(False, label)

    refused(lambda: pp.load_analytic_data(FS, 20.0, {}), "a temperature without analytic data is refused")
    for key in ("hash_vib", "hash_rho"):
        with open(FS.path_analytic_rho, "w") as file:
            json.dump({**analytic, key: "0" * 128}, file)
        refused(lambda: pp.load_analytic_data(FS, 10.0, {}), "analytic data of an older model is refused")
    os.remove(FS.path_analytic_rho)
    refused(lambda: pp.load_analytic_data(FS, 10.0, {}), "missing analytic data is reported")
    write(FS, 3, 10.0, 1, 3, False, hashes)
    refused(lambda: stats.statistical_analysis_of_pimc(FS, method="nonsense"), "an unknown method is refused")
    refused(lambda: stats.jackknife_analysis_of_pimc(FS, method="nonsense"), "an unknown method is refused")
    refused(lambda: stats.statistical_analysis_of_pimc(FS, location="nonsense"), "an unknown location is refused")
    refused(lambda: stats.jackknife_analysis_of_pimc(FS, location="nonsense"), "an unknown location is refused")
    obs.trace()
