"""paths and file names: every parameter set has its own file and is read back from its name."""
import itertools as it
import os

import numpy as np

PROPERTY = "P07"
RULE = ("every combination of (root directory, data set id, rho id, beads, temperature, job / samples / basis size) from "
        "small alphabets that contain prefixes of each other (1, 10, 100) and directory names that look like file names, given absolutely and "
        "relative to a working directory that changes afterwards; "
        "non-trivial: the directory name itself contains a parameter pattern")
ASSUMPTIONS = ["the ids are whole numbers that are not negative, temperatures have two decimals"]
ROOTS = ["plain", "P9_T9.00_J9", "run_T5_J3_B4", "trotter_P7_B8/_X3_thermo", "a_B1.json/results/P4_T2",
         "new [old]", "set[1-3]*/what?", "model_{P}", "{}/{0}/{x:d}", "100%_%d"]
BEADS = (3, 12, 120, 1200000)
TEMPS = (0.5, 10.0, 100.25, 300.0, 12345.75)
JOBS = (0, 1, 10, 123456, 12345678901)
SAMPLES = (1, 10, 1000, 1000000, 123456789)
BASIS = (1, 10, 80, 100000)


def cases(tier):
    ids = (0, 1, 10) if tier == "quick" else (0, 1, 2, 10, 11, 100)
    large = [(root, d, r) for root in ROOTS[:2] for d, r in ((1234567, 7654321), (1234567, 0), (0, 7654321))]
    for root, d, r in list(it.product(ROOTS, ids, ids)) + large:
        for relative in (False, True):
            yield {"root": root, "D": d, "R": r, "relative": relative}


def paths_of(FS):
    return {k: os.path.abspath(v) for k, v in vars(FS).items() if k.startswith("path_")}


def templates_of(FS):
    return {k: v for k, v in vars(FS).items() if k.startswith("template_")}


def execute(case, obs):
    from pibronic.data import file_structure as fs
    from pibronic.data import postprocessing as pp
    from pibronic.data import file_name
    from pibronic.pimc import pimc
    D, R = case["D"], case["R"]
    with obs.tmp() as tmp:
        root = os.path.join(tmp, case["root"])
        os.makedirs(root)
        if case["relative"]:
            os.chdir(tmp)
            given = case["root"] + "/"
        else:
            given = root
        # nothing is created when not asked for
        dry = fs.FileStructure(given, D, R, no_makedir=True)
        obs.check(os.listdir(root) == [] and not dry.directories_exist(), "no_makedir creates nothing")
        FS = fs.FileStructure(given, D, R)
        obs.check(FS.directories_exist() and dry.directories_exist(), "the directories are created")
        obs.check(paths_of(dry) == paths_of(FS), "the paths do not depend on no_makedir")
        where = os.path.realpath(root) + os.sep
        values = paths_of(FS)
        for k, v in values.items():
            obs.check(os.path.realpath(v).startswith(where) or k == "path_root", "every path is inside the root",
                      name=k, path=v)
        obs.check(len(set(values.values())) == len(values), "all the paths are different", paths=values)
        # data set and rho of other ids share nothing but the root / the data set
        for d2, r2 in it.product((D, D + 1, D * 10 + 1), (R, R + 1, R * 10 + 1)):
            two = paths_of(fs.FileStructure(given, d2, r2, no_makedir=True))
            for k in values:
                same = two[k] == values[k]
                if k == "path_root":
                    expected = True
                elif "rho" in k:
                    expected = (d2, r2) == (D, R)
                else:
                    expected = d2 == D
                obs.check(same == expected, "the paths of data sets and rhos are separate exactly where they should",
                          name=k, ids=((D, R), (d2, r2)), paths=(values[k], two[k]))
        # a directory that disappears is noticed and restored
        import shutil
        for k in [k for k, v in values.items() if os.path.isdir(v) and k not in ("path_root",)]:
            shutil.rmtree(values[k])
            obs.check(not FS.directories_exist(), "a missing directory is noticed", name=k)
            FS.make_directories()
            obs.check(FS.directories_exist() and os.path.isdir(values[k]), "a missing directory is created", name=k)
            obs.step(2)
        # result files: write one for every parameter set
        expected_files = {}
        for P, T, J in it.product(BEADS, TEMPS, JOBS):
            data = pimc.BoxData()
            data.beads, data.temperature, data.samples = P, T, 1
            result = pimc.BoxResult(data=data)
            result.path_root, result.id_job = FS.path_rho_results, (str(J) if J % 2 else J)
            result.hash_vib = result.hash_rho = "h"
            tag = float(P * 1e9 + T * 1e7 + J)
            result.scaled_g[:] = result.scaled_rho[:] = tag
            result.save_results(1)
            expected_files[(P, T, J)] = tag
            obs.step()
        listed = pp.retrive_pimc_file_list(FS)
        obs.check(len(listed) == len(expected_files), "every parameter set has its own result file",
                  found=len(listed), expected=len(expected_files))
        seen = {}
        for path in listed:
            key = (pp.extract_bead_value_from_pimc_file_path(path),
                   pp.extract_temperature_value_from_pimc_file_path(path),
                   pp.extract_job_value_from_pimc_file_path(path))
            with np.load(path) as file:
                seen[key] = float(file["s_g"][0])
        obs.check(seen == expected_files, "the parameters read from a file name are those of its contents",
                  wrong={k: v for k, v in seen.items() if expected_files.get(k) != v})
        obs.check(pp.extract_bead_paramater_list(listed) == sorted(BEADS)
                  and pp.extract_temperature_paramater_list(listed) == sorted(TEMPS),
                  "the parameter lists are sorted and complete")
        for P, T in it.product(BEADS, TEMPS):
            import glob
            directory, name = os.path.split(FS.template_pimc.format(P=P, T=T, J="*"))
            got = glob.glob(os.path.join(glob.escape(directory), name))
            with_tag = set()
            for path in got:
                with np.load(path) as file:
                    with_tag.add(float(file["s_g"][0]))
            obs.check(with_tag == {v for k, v in expected_files.items() if k[:2] == (P, T)},
                      "the template finds exactly the files with these beads and this temperature", P=P, T=T)
            FS.hash_vib = FS.hash_rho = "h"
            data = pimc.BoxData()
            data.beads, data.temperature, data.samples = P, T, 1
            result = pimc.BoxResult(data=data)
            pp.load_pimc_data(FS, P, T, result)
            obs.check(set(result.scaled_g.tolist()) == with_tag and result.samples == len(with_tag),
                      "the results of these beads and this temperature are loaded", P=P, T=T)
        # analysis, sos and trotter files
        for P, T, X in it.product(BEADS, TEMPS, SAMPLES):
            path = FS.template_jackknife.format(P=P, T=T, X=X)
            open(path, "w").close()
            obs.check((pp.extract_bead_value_from_thermo_file_path(path),
                       pp.extract_temperature_value_from_thermo_file_path(path),
                       pp.extract_sample_value_from_thermo_file_path(path)) == (P, T, X),
                      "the parameters of an analysis file are those of its name", path=path)
            obs.step()
        for B in BASIS:
            for template in (FS.template_sos_vib, FS.template_sos_rho):
                path = template.format(B=B)
                open(path, "w").close()
                obs.check(pp.extract_basis_value_from_sos_file_path(path) == B, "the basis size of an sos file",
                          path=path)
        for B, P in it.product(BASIS, BEADS):
            path = FS.template_trotter_vib.format(P=P, B=B)
            open(path, "w").close()
            obs.check(pp.extract_bead_value_from_trotter_file_path(path) == P
                      and pp.extract_basis_value_from_sos_file_path(path) == B, "the parameters of a trotter file",
                      path=path)
        pimc_files, thermo, sos_vib, sos_rho = pp.retrive_all_file_paths(FS)
        obs.check((len(pimc_files), len(thermo), len(sos_vib), len(sos_rho))
                  == (len(expected_files), len(BEADS) * len(TEMPS) * len(SAMPLES), len(BASIS), len(BASIS)),
                  "each kind of file is listed with its own kind",
                  counts=(len(pimc_files), len(thermo), len(sos_vib), len(sos_rho)))
        os.remove(FS.template_sos_rho.format(B=10))
        pL, tL, bL = pp.extract_parameter_lists(*pp.retrive_file_paths_for_jackknife(FS))
        obs.check((pL, tL, bL) == (sorted(BEADS), sorted(TEMPS), [1, 80, 100000]),
                  "the parameter lists: beads, temperatures, and basis sizes present for both models", got=(pL, tL, bL))
        trot = [FS.template_trotter_vib.format(P=P, B=B) for B, P in it.product((1, 10), BEADS)]
        obs.check({k: sorted(v) for k, v in pp.extract_trotter_paramater_list(trot).items()}
                  == {1: sorted(BEADS), 10: sorted(BEADS)}, "the beads of every basis size")
        many = range(1, 260)
        trot = [FS.template_trotter_vib.format(P=P, B=B) for B in (9, 90) for P in many]
        obs.check({k: sorted(v) for k, v in pp.extract_trotter_paramater_list(trot).items()} == {9: list(many), 90: list(many)}
                  and pp.extract_bead_paramater_list([FS.template_pimc.format(P=P, T=9.0, J="1") for P in many]) == list(many)
                  and pp.extract_temperature_paramater_list([FS.template_pimc.format(P=5, T=t / 4, J="1") for t in many]) == [t / 4 for t in many],
                  "lists of many parameters")
        # changing rho
        FS.hash_vib = FS.hash_rho = "old"
        for target in (R + 1, R, R + 10, R + 10):
            if target != R or D % 2:
                shutil.rmtree(fs.FileStructure(given, D, target, no_makedir=True).path_rho, ignore_errors=True)
            FS.change_rho(target)
            fresh = fs.FileStructure(given, D, target, no_makedir=True)
            obs.check(paths_of(FS) == paths_of(fresh) and FS.id_rho == target,
                      "after change_rho all paths are those of the new rho",
                      wrong={k: (v, paths_of(fresh)[k]) for k, v in paths_of(FS).items() if paths_of(fresh)[k] != v})
            for k, v in templates_of(fresh).items():
                obs.check(os.path.abspath(getattr(FS, k)) == os.path.abspath(v),
                          "after change_rho all templates are those of the new rho", name=k)
            obs.check(getattr(FS, "hash_rho", None) != "old", "the hash of the old rho is not kept")
            obs.check(all(os.path.isdir(p) for k, p in paths_of(FS).items() if k in
                          ("path_rho", "path_rho_params", "path_rho_results", "path_rho_output", "path_rho_plots")),
                      "the directories of the new rho exist")
            FS.hash_rho = "old"
            obs.step()
        # a process that goes somewhere else still means the same files
        here, before = os.getcwd(), (paths_of(FS), {k: os.path.abspath(v) for k, v in templates_of(FS).items()
                                                    if os.sep in v and not v.startswith("data_set")})
        os.makedirs(os.path.join(tmp, "elsewhere"))
        os.chdir(os.path.join(tmp, "elsewhere"))
        try:
            after = (paths_of(FS), {k: os.path.abspath(getattr(FS, k)) for k in before[1]})
            obs.check(after == before and FS.directories_exist(), "the paths do not depend on the working directory",
                      wrong=[k for k in before[0] if after[0][k] != before[0][k]])
            FS.make_directories()
            obs.check(os.listdir(".") == [], "no directory is created in the working directory")
        finally:
            os.chdir(here)
        obs.trace()
        obs.bulk(len(expected_files), *case.values())
        if case["root"] != "plain":
            obs.nontriv(*case.values())
