"""writes ../properties.jsonl and ../MANIFEST.json from the table below (run after adding a check)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = {"pimc": "pibronic/pimc/pimc.py", "stats": "pibronic/stats/stats.py", "jk": "pibronic/stats/jackknife.py",
     "pp": "pibronic/data/postprocessing.py", "fs": "pibronic/data/file_structure.py",
     "fn": "pibronic/data/file_name.py", "vio": "pibronic/vibronic/vibronic_model_io.py",
     "keys": "pibronic/vibronic/vibronic_model_keys.py", "op": "pibronic/vibronic/model_op.py",
     "help": "pibronic/helper.py", "orth": "pibronic/vibronic/orthonormal/create.py",
     "seq": "pibronic/vibronic/orthonormal/sequences.py", "jb": "pibronic/server/job_boss.py",
     "job": "pibronic/server/nlogn_feynman/pimc.py", "jw": "pibronic/julia_wrapper.py", "plot": "pibronic/plotting/plotting.py",
     "prep": "pibronic/plotting/prepare.py", "grid": "pibronic/plotting/grid_plots.py",
     "es": "pibronic/vibronic/electronic_structure.py", "const": "pibronic/constants.py", "mh": "pibronic/vibronic/model_h.py",
     "ex": "examples/artificial_systems/submit_jobs_to_server.py"}

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[F[f] for f in files], mechanism=mechanism, technique=technique, note=note))


REAL = ("The real code is executed on every element of the bounded space (no sampling); nothing is claimed outside the "
        "bounds. Trusts the reference formulas in /verif/mc, numpy and the Python interpreter. ")

prop("P01", "g(R) and rho(R) are the path integral integrands of the model files",
     "For every sampled set of bead positions R, the stored g(R) is the trace over the surfaces of the bead-by-bead "
     "product of the harmonic propagator of the model's uncoupled part and exp(-tau V) of its remaining couplings "
     "(off-diagonal energies and linear terms, all quadratic terms), and the stored rho(R) is the sum over the surfaces "
     "of the sampling model of its harmonic propagators, both evaluated at the R that is stored with them. This holds for "
     "any number of surfaces and modes in either model, including models in which any group of parameters is absent or zero.",
     ["inputs", "configurations"],
     "all models (any subset of parameter groups, any surfaces/modes of both models), beads, temperatures, positions",
     "tests run a handful of fixed models and never compare g or rho with an independent formula; a term that is "
     "missing only when another group is present, or wrong only for unequal surface counts, is not sampled",
     ["pimc"], [{"name": "O matrix, V matrix, g and rho kernels", "where": "block_compute, block_compute_gR, build_*"},
                {"name": "precomputed displacements, energies, coth/csch", "where": "ModelClass / BoxData.preprocess"}],
     "exhaustive enumeration of bead positions and model structures on the real kernels",
     REAL + "R is read back from the code's own stored positions.")

prop("P02", "Importance sampling is unbiased: E[g/rho] = Z_Trotter / Z_rho",
     "Averaged over all outcomes of the random draws (surface of the mixture and normal deviates), g(R)/rho(R) of a run "
     "equals the Trotter partition function of the coupled model at the requested temperature and beads divided by the "
     "analytic partition function of the sampling model. This holds whatever sampling model is used (number of surfaces, "
     "displacements, energies, its own frequencies).",
     ["inputs", "configurations"], "all outcomes of the discretised random numbers x models x sampling models x beads",
     "a sampler with the wrong covariance or weights still returns plausible numbers; tests only check shapes and "
     "single precomputed quantities",
     ["pimc", "const"], [{"name": "mixture weights, inverse covariance, coordinate transformation, displacement",
                          "where": "BoxData.preprocess, block_compute"}],
     "exhaustive enumeration of the discretised random outcomes on the real sampler",
     REAL + "Normal deviates are replaced by all tuples of Gauss-Hermite nodes; quadrature error bounds the tolerance.")

prop("P03", "Plus/minus integrands are those at beta +/- delta beta",
     "In a plus/minus run the stored g+ and g- averaged with the same weights give the Trotter partition functions at beta "
     "+ delta beta and beta - delta beta (same number of beads) over the sampling model's, for the requested temperature and "
     "delta beta, including the couplings between surfaces. The plain g and rho of a plus/minus run are those of a plain run "
     "with the same random numbers.",
     ["inputs", "configurations"], "as P02, times delta beta",
     "the derivatives are small differences; a part left at the unshifted beta passes every existing test",
     ["pimc"], [{"name": "shifted propagators and coupling matrices", "where": "BoxDataPM.preprocess, block_compute_pm"}],
     "exhaustive enumeration of the discretised random outcomes on the real sampler",
     REAL + "Same stand-in for the random numbers as P02.")

prop("P04", "A sample's result does not depend on blocks or earlier runs",
     "For the same random numbers, every number stored for a sample is the same however the samples are divided in blocks "
     "and whatever was computed before with the same objects, and every requested sample is computed. The saved result file "
     "holds exactly the computed arrays with the hashes of the models they were computed from.",
     ["inputs", "histories"], "all divisors as block size, kinds of run, histories of earlier runs on the same object",
     "tests use one block size and fresh objects", ["pimc"],
     [{"name": "block loop and index ranges", "where": "block_compute, block_compute_pm, block_compute_gR"},
      {"name": "saving", "where": "BoxResult.save_results"}],
     "exhaustive enumeration of block partitions and run histories on the real code", REAL)

prop("P05", "Result files are combined without losing or inventing samples",
     "Loading any list of result files yields the samples of all of them, each file's once and in order, cut to the requested number, and "
     "the reported number of samples is the number of rows loaded; g, rho, g+ and g- of a sample stay together. A file that "
     "lacks one of the needed arrays is reported or skipped as a whole, never partly used, and asking for more samples than "
     "there are is not silently padded.",
     ["inputs", "histories"], "all lists of up to 4 files with 1-3 samples each, repeated files, missing arrays, every requested number, two lists with one object",
     "tests load one or two well-formed files", ["pimc"],
     [{"name": "loading and concatenation", "where": "BoxResult(PM).load_results / load_multiple_results"}],
     "exhaustive enumeration of file lists on the real loader", REAL)

prop("P06", "Results of older models are never used",
     "Whatever the history of editing either model file, running jobs, generating hashes and switching rho, the readers of "
     "result files only return files whose recorded hashes are those of both models as the hashes were last generated, all "
     "of them, and never the others. Any change of any value in either model file changes its hash.",
     ["histories"], "all histories of operations up to the depth bound, all single-value edits of the model files",
     "tests have no history with two versions of a model", ["fs", "pp", "vio"],
     [{"name": "hash generation and validation", "where": "FileStructure.generate_model_hashes / valid_*; create_model_hash"},
      {"name": "pruning of stale files", "where": "postprocessing.prune_results_using_hash, load_pimc_data"}],
     "explicit-state exploration of operation histories on the real code against a reference model", REAL)

prop("P07", "Every parameter set has its own path and is read back from it",
     "Distinct data set ids, rho ids, beads, temperatures, jobs, sample counts and basis sizes have distinct paths below the "
     "root directory, and the parameters extracted from a path are those it was made from, whatever the root directory is "
     "called and wherever the process works later. After changing rho all paths and templates are those of the new rho; asking whether the directories exist is "
     "true exactly if all of them do, and no directory is created unless asked for.",
     ["inputs", "configurations", "histories"], "all combinations of ids, parameters and root names of the alphabets",
     "tests use one root directory and do not look for collisions", ["fs", "fn", "pp"],
     [{"name": "templates", "where": "file_name.py, FileStructure"},
      {"name": "extraction", "where": "postprocessing.extract_*"}],
     "exhaustive enumeration of parameters on the real code", REAL)

prop("P08", "Estimators of Z, E and Cv equal their definitions",
     "For every table of samples, the estimated Z, energy and heat capacity (and errors) are those of the finite-difference "
     "definitions applied to the means of g/rho, g+/rho and g-/rho, plus the contribution of the sampling model, at the "
     "given temperature and delta beta. The result does not depend on the order of the samples and the input is not changed.",
     ["inputs"], "all small tables over an alphabet of rows, temperatures, delta betas",
     "tests check one table", ["stats", "const"],
     [{"name": "estimators", "where": "stats.py basic/alpha functions"}],
     "exhaustive enumeration of sample tables on the real code", REAL)

prop("P09", "The jackknife is the leave-one-out estimate",
     "For every table of samples the jackknife estimates and errors of Z, E and Cv are those obtained by leaving out every "
     "sample once and re-evaluating the estimator on the rest.",
     ["inputs"], "all small tables over an alphabet of rows", "tests check one table", ["jk", "stats"],
     [{"name": "vectorised leave-one-out", "where": "jackknife.py"}],
     "exhaustive enumeration of sample tables on the real code", REAL)

prop("P10", "The analysis covers exactly the (P, T) cells with current results",
     "Analysing a data set evaluates, for every combination of beads and temperature that has up-to-date results, the "
     "estimator on all the samples of that combination and stores it in the file of that combination, and nothing else; "
     "unknown methods or locations are refused.",
     ["inputs", "configurations"], "all ragged occupations of a beads x temperatures grid with stale, current and no results",
     "tests run one full grid", ["pp", "stats"],
     [{"name": "pipeline", "where": "postprocessing.load_pimc_data, stats.*_analysis*"}],
     "exhaustive enumeration of grid occupations on the real pipeline", REAL)

prop("P11", "Models survive saving and loading exactly",
     "A saved coupled or sampling model loads with exactly the same numbers, an array that is absent from the file means "
     "zeros, and the energies are always present. Loading in place overwrites every provided array (with zeros where the file "
     "has none) and refuses models of other dimensions; a malformed model is refused before the file is touched, and saving "
     "does not change the model in memory.",
     ["inputs", "histories"], "all combinations of absent / zero / one entry / dense arrays for all sizes",
     "tests use random dense models", ["vio", "keys"],
     [{"name": "save / load", "where": "save_model_to_JSON, load_model_from_JSON and the diagonal versions"}],
     "exhaustive enumeration of model structures on the real code", REAL)

prop("P12", "Validation and comparison of models notice every single entry",
     "Every array of the wrong shape and every model without its dimensions is refused, two models are the same exactly if "
     "all entries agree (absent arrays are zeros), and one entry without its mirror image makes a model not symmetric in "
     "the surfaces (for quadratic and quartic terms: in the modes).",
     ["inputs"], "all single-dimension shape errors and all single-entry changes for small models",
     "tests sample random models", ["vio"],
     [{"name": "checks", "where": "verify_*_parameters, model_parameters_are_symmetric_in_*, _same_*model"}],
     "exhaustive enumeration of single deviations on the real code", REAL)

prop("P13", "Derived uncoupled and sampling models equal their definitions",
     "The harmonic and the basic sampling model made from a coupled model hold exactly its surface diagonal (all orders), "
     "replace whatever was stored before, and leave the coupled model alone. Recomputed energies of a sampling model place the "
     "bottom of every oscillator at the lowest energy of the coupled model at its minimum, change nothing else, and are "
     "refused if quadratic terms are present.",
     ["inputs", "histories"], "all subsets of arrays, sizes, previous contents of the destination",
     "tests compare one random model", ["vio"],
     [{"name": "derivation", "where": "remove_coupling_from_model, create_basic_diagonal_model, recalculate_energy_values_*"}],
     "exhaustive enumeration of model structures on the real code", REAL)

prop("P14", "Artificial models are exact rotations with reproducible matrices",
     "Making a coupled model from an uncoupled one replaces every parameter array X by U X U^T for the stored orthonormal U, "
     "keeps frequencies and dimensions, keeps the previous model as the original model, and refuses matrices that are not "
     "orthonormal. The generated U is the identity for tuning 0, orthonormal and reproducible for every order 2..10 and "
     "tuning in [0, 1], and not closer to the identity for larger tuning: its distance from the identity is the tuning "
     "parameter times that at tuning 1, within the resolution of the stored table.",
     ["inputs", "configurations"], "all orders, a grid of tuning parameters, all subsets of arrays, ways to choose U",
     "tests only look at one order and a few tunings", ["vio", "orth", "seq"],
     [{"name": "transformation", "where": "create_fake_coupled_model"},
      {"name": "matrices", "where": "orthonormal.create, sequences.select_pair"}],
     "exhaustive enumeration of orders, tunings and model structures on the real code", REAL)

prop("P15", "Every parameter of an .op file ends up in its place, once",
     "Parsing an .op file (terms named with the lower surface first and the higher mode first for quadratic terms) yields a "
     "model in which every frequency, energy and linear to quartic term of the file has exactly its value at its position, "
     "symmetric in the surfaces (and in the modes for quadratic terms), and everything else is zero.",
     ["inputs"], "every single term, every pair of terms of a kind, all terms together, for small and two-digit sizes",
     "tests parse one file and look only at shapes", ["op", "help", "vio"],
     [{"name": "parser", "where": "model_op.read_model_op_file"}],
     "exhaustive enumeration of terms on the real parser", REAL)

exec(open(os.path.join(HERE, "tools", "more_props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as file:
    for p in P:
        file.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]

checks, missing = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"],
                       "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier quick",
                       "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"].strip()})
    else:
        missing.append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as file:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing,
               "notes": "No hooks in /repo: the checks drive the public functions and replace only the outside world "
                        "(random numbers, subprocesses, signals, sleeping)."}, file, indent=1)
    file.write("\n")
