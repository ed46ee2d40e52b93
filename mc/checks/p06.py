"""results of older models are never used: all histories of model edits, jobs, hash generation and loading."""
import itertools as it
import json
import os
import re

import numpy as np

from mc import common as c

PROPERTY = "P06"
RULE = ("every history of 4 (thorough: 5) operations from {write one of two versions of either model, run a job, "
        "generate hashes, force hashes, change rho, change rho back} from the empty start state and one shorter from a "
        "start state with stale results, after which all readers are compared with the reference model; plus every "
        "single-element change of every array of both models and all numbers of up to 4 (5) of the characters 015.-e in one place, which must change the hash; every history of the same length in which the same job is run again, everything read after every step; plus result files whose recorded "
        "hash differs from the current one in each one of its characters, is cut, or is missing; non-trivial: the history contains results of two versions")
ASSUMPTIONS = ["SHA-512 does not collide on the enumerated files",
               "only one process works on the data set at a time"]
OPS = ["vib0", "vib1", "rho0", "rho1", "job", "hash", "force", "to1", "to0"]
# a job which is run again (local calculations always have the same number), everything is read after every step
REDO = ["vib0", "vib1", "rho1", "job", "redo", "force", "to1"]
P, T = 3, 300.0


def cases(tier):
    depth = 4 if tier == "quick" else 5
    for start in ("empty", "stale"):
        for history in it.product(OPS, repeat=depth - (1 if start == "stale" else 0)):
            yield {"start": start, "history": history}
    for history in it.product(REDO, repeat=depth):
        if "redo" in history[1:]:
            yield {"start": "redo", "history": history}
    for which in ("hash_vib", "hash_rho"):
        yield {"start": "near", "history": [which]}
    for which, at, length in it.product(("vib", "rho"), (0, -1), (4,) if tier == "quick" else (5,)):
        yield {"start": "numerals", "history": [which, at, length]}
    for which in ("vib", "rho"):
        for A, N in ((1, 1), (2, 1), (2, 2), (3, 2)):
            yield {"start": "perturb", "history": [which, A, N]}
        # files of more than 100 KB: changes all over the file
        yield {"start": "perturb", "history": [which, 4, 24] if which == "vib" else [which, 40, 96]}


def near_hashes(case, obs):
    """files whose hashes are almost the current ones"""
    from pibronic.data import file_structure as fs
    from pibronic.data import postprocessing as pp
    from pibronic.pimc import pimc
    which = case["history"][0]
    vib, rho = versions()
    with obs.tmp() as root:
        FS = fs.FileStructure(root, 4, 0)
        write_json(FS.path_vib_model, vib[0])
        write_json(FS.path_rho_model, rho[0])
        FS.generate_model_hashes()
        good = {"hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho}
        text = good[which]
        wrong = [text[:k] + ("0" if text[k] != "0" else "1") + text[k + 1:] for k in range(len(text))]
        wrong += [text[:-1], text[1:], text + "0", text.upper(), text[::-1], "", "None"]
        wrong += [good["hash_rho" if which == "hash_vib" else "hash_vib"]]
        tags = [(good, True)] + [({**good, which: w}, False) for w in wrong if w != text]
        tags += [({k: v for k, v in good.items() if k != which}, False), ({}, False)]
        arrays = dict(number_of_samples=1, s_rho=np.ones(1), s_gP=np.ones(1), s_gM=np.ones(1))
        expect = set()
        for i, (hashes, fits) in enumerate(tags):
            np.savez(os.path.join(FS.path_rho_results, f"P{P}_T{T:.2f}_J{i}_data_points.npz"), s_g=np.ones(1) * i,
                     **hashes, **arrays)
            with open(os.path.join(FS.path_rho_results, f"P{P}_T{T:.2f}_X{i}_thermo"), "w") as file:
                json.dump({**hashes, "Z": i}, file)
            expect |= {str(i)} if fits else set()
            complete = {"hash_vib": "", "hash_rho": "", **hashes}
            obs.check(bool(FS.valid_vib_and_rho_hashes(complete)) == fits, "hashes are valid exactly when both are "
                      "the current ones", hashes=hashes)
            obs.step()
            obs.state(which, i)
            obs.nontriv(which, i)
        kept = {p.split("_J")[-1].split("_")[0]
                for p in pp.prune_results_using_hashes(FS, pp.retrive_pimc_file_list(FS))}
        obs.check(kept == expect, "only files with both current hashes are kept", kept=kept, expected=expect)
        kept = {p.split("_X")[-1].split("_")[0]
                for p in pp.prune_results_using_hashes(FS, pp.retrive_jackknife_file_list(FS))}
        obs.check(kept == expect, "only analysis files with both current hashes are kept", kept=kept, expected=expect)
        result = pimc.BoxResultPM()
        pp.load_pimc_data(FS, P, T, result)
        got = {str(int(x)) for x in result.scaled_g}
        obs.check(got == expect, "only files with both current hashes are loaded", got=got)
        # results for beads and temperatures whose names begin alike
        cells = list(it.product((3, 30, 33), (3.0, 30.0, 300.0, 300.05, 300.5, 3000.0)))
        for i, (p, t) in enumerate(cells):
            for j in (0, 1, 10):
                np.savez(os.path.join(FS.path_rho_results, f"P{p}_T{t:.2f}_J{1000 + j}_data_points.npz"), **good,
                         s_g=np.ones(1) * (100 * i + j), **arrays)
        for i, (p, t) in enumerate(cells):
            result = pimc.BoxResultPM()
            pp.load_pimc_data(FS, p, t, result)
            got = sorted(x for x in result.scaled_g)
            want = sorted([100.0 * i + j for j in (0, 1, 10)] + ([0.0] if (p, t) == (P, T) else []))
            obs.check(got == want, "all results of these beads and this temperature, and no others, are loaded",
                      beads=p, temperature=t, got=got, expected=want)
        obs.trace()


def numerals(case, obs):
    """numbers that are written alike"""
    from pibronic.data import file_structure as fs
    which, at, length = case["history"]
    values = {}
    for digits in it.chain.from_iterable(it.product("015.-e", repeat=n + 1) for n in range(length)):
        text = "".join(digits)
        try:
            values.setdefault(float(json.loads(text)), text)
        except ValueError:
            continue
    with obs.tmp() as root:
        FS = fs.FileStructure(root, 1, 0)
        base = {FS.path_vib_model: c.vibronic_model(2, 1, "el"), FS.path_rho_model: c.sampling_model(2, 1)}
        for path, model in base.items():
            c.write_model(path, model)
        path = FS.path_vib_model if which == "vib" else FS.path_rho_model
        text = open(path).read()
        old = re.findall(r"-?[0-9]+\.[0-9]+(?:e-?[0-9]+)?", text)[at]
        start = text.index(old)
        seen = {}
        for value, new in values.items():
            with open(path, "w") as file:
                file.write(text[:start] + new + text[start + len(old):])
            fresh = fs.FileStructure(root, 1, 0)
            fresh.generate_model_hashes()
            tag = fresh.hash_vib if which == "vib" else fresh.hash_rho
            obs.check(tag not in seen, "different numbers have different hashes", number=new, other=seen.get(tag))
            seen[tag] = new
            obs.step()
            obs.state(which, at, new)
        obs.trace()


def perturb(case, obs):
    """every single change of a model file is noticed"""
    import copy
    from pibronic.data import file_structure as fs
    which, A, N = case["history"]
    if N > 3:
        w = 0.02 + 0.001 * np.arange(N)
        base = {"vib": {"N": N, "A": A, "w": w, "E": c.sym_surfaces(c.pattern((A, A), 0.1, 0.3)),
                        "G1": c.pattern((N, A, A), 0.1, 0.5), "G2": c.pattern((N, N, A, A) if which == "vib" else (1,), 0.1, 0.7)},
                "rho": {"N": N, "A": A, "w": w, "E": c.pattern((A,), 0.1, 0.3), "G1": c.pattern((N, A), 0.1, 0.5)}}
        other = "rho" if which == "vib" else "vib"      # small
        base[other] = {"vib": c.vibronic_model(2, 2, "elELqQ"), "rho": c.sampling_model(2, 2)}[other]
    else:
        base = {"vib": c.vibronic_model(A, N, "elELqQ"), "rho": c.sampling_model(A, N)}
    with obs.tmp() as root:
        FS = fs.FileStructure(root, 1, 0)
        path = {"vib": FS.path_vib_model, "rho": FS.path_rho_model}
        for k in base:
            write_json(path[k], base[k])

        def hashes():
            fresh = fs.FileStructure(root, 1, 0)
            fresh.generate_model_hashes()
            return {"vib": fresh.hash_vib, "rho": fresh.hash_rho}

        reference = hashes()
        obs.check(reference == hashes(), "the hash is a function of the file")
        seen = {reference[which]}
        changes = []
        for key, array in base[which].items():
            if not isinstance(array, np.ndarray):
                continue
            stride = max(1, array.size // 40)
            for index in list(np.ndindex(array.shape))[::-stride]:
                for change in (lambda x: x + 0.5, lambda x: x * (1 + 1e-12) + 1e-14, lambda x: -x - 0.001):
                    changes.append((key, index, change))
            changes.append((key, None, None))
        for key, index, change in changes:
            new = copy.deepcopy(base[which])
            if index is None:
                del new[key]
            else:
                new[key][index] = change(new[key][index])
            write_json(path[which], new)
            got = hashes()
            other = "rho" if which == "vib" else "vib"
            obs.check(got[which] not in seen, "every change of the model changes its hash", key=key, index=index)
            obs.check(got[other] == reference[other], "the hash of the other model stays")
            seen.add(got[which])
            obs.step()
            obs.state(which, A, N, key, index, len(seen))
        write_json(path[which], base[which])
        obs.check(hashes() == reference, "restoring the model restores the hash")
        obs.trace()


def versions():
    vib = [c.vibronic_model(2, 1, "el"), c.vibronic_model(2, 1, "eL")]
    rho = [c.sampling_model(2, 1), c.sampling_model(2, 1, linear=False)]
    return vib, rho


def write_json(path, model):
    c.write_model(path, model)


class Reference:
    """the boring model: versions of the files, the versions every result was computed for"""

    def __init__(self):
        self.vib = 0
        self.rho = {0: 0, 1: 0}
        self.current = 0
        self.cached = None            # (vib, rho) versions the long-lived object believes in
        self.results = {0: [], 1: []}  # for both rho directories: [job, vib, rho, tag]

    def generate(self, force):
        if force or self.cached is None:
            self.cached = (self.vib, self.rho[self.current])


def execute(case, obs):
    if case["start"] == "perturb":
        return perturb(case, obs)
    if case["start"] == "near":
        return near_hashes(case, obs)
    if case["start"] == "numerals":
        return numerals(case, obs)
    from pibronic.data import file_structure as fs
    from pibronic.data import postprocessing as pp
    from pibronic.pimc import pimc
    vib, rho = versions()
    ref = Reference()
    with obs.tmp() as root:
        FS = fs.FileStructure(root, 4, 0)
        other = fs.FileStructure(root, 4, 1)
        write_json(FS.path_vib_model, vib[0])
        write_json(FS.path_rho_model, rho[0])
        write_json(other.path_rho_model, rho[0])
        job, tag = [0], [0]

        def run_job(again=False):
            """a job of another process: fresh objects, stores its tag in every array"""
            fresh = fs.FileStructure(root, 4, ref.current)
            fresh.generate_model_hashes()
            tag[0] += 1
            if again:
                job_number = 1
            else:
                job[0] = max(job[0], 1) + 1
                job_number = job[0]
            result = pimc.BoxResultPM(X=1)
            result.hash_vib, result.hash_rho = fresh.hash_vib, fresh.hash_rho
            result.path_root, result.id_job = fresh.path_rho_results, job_number
            result.partial_name = lambda J: f"P{P}_T{T:.2f}_J{J}_data_points.npz"
            for name in ("scaled_g", "scaled_rho", "scaled_gofr_plus", "scaled_gofr_minus"):
                setattr(result, name, np.array([float(tag[0])]))
            result.save_results(1)
            with open(os.path.join(fresh.path_rho_results, f"P{P}_T{T:.2f}_X{job_number}_thermo"), "w") as file:
                json.dump({"hash_vib": fresh.hash_vib, "hash_rho": fresh.hash_rho, "Z": tag[0]}, file)
            ref.results[ref.current] = [r for r in ref.results[ref.current] if r[0] != job_number]
            ref.results[ref.current].append((job_number, ref.vib, ref.rho[ref.current], tag[0]))

        def apply(op):
            nonlocal FS
            obs.step()
            if op in ("vib0", "vib1"):
                ref.vib = int(op[-1])
                write_json(FS.path_vib_model, vib[ref.vib])
            elif op in ("rho0", "rho1"):
                ref.rho[ref.current] = int(op[-1])
                write_json(FS.path_rho_model, rho[ref.rho[ref.current]])
            elif op in ("job", "redo"):
                run_job(again=(op == "redo"))
            elif op in ("hash", "force"):
                FS.generate_model_hashes(force_flag=(op == "force"))
                ref.generate(op == "force")
            elif op in ("to0", "to1"):
                ref.current = int(op[-1])
                FS.change_rho(ref.current)
                ref.cached = None

        def usable(v, r):
            return {(str(j), str(tag)) for j, jv, jr, tag in ref.results[ref.current] if (jv, jr) == (v, r)}

        def read(files, usable_now, label):
            expect, tags = {j for j, _ in usable_now}, {t for _, t in usable_now}
            paths = pp.retrive_pimc_file_list(files)
            obs.check(len(paths) == len(ref.results[ref.current]), "every result file of this rho is found",
                      found=paths, label=label)
            kept = {p.split("_J")[-1].split("_")[0] for p in pp.prune_results_using_hashes(files, paths)}
            obs.check(kept == expect, "exactly the results of the current models are kept", label=label, kept=kept,
                      expected=expect)
            thermo = pp.retrive_jackknife_file_list(files)
            kept = {p.split("_X")[-1].split("_")[0] for p in pp.prune_results_using_hashes(files, thermo)}
            obs.check(kept == expect, "exactly the analysis files of the current models are kept", label=label,
                      kept=kept, expected=expect)
            result = pimc.BoxResultPM()
            try:
                pp.load_pimc_data(files, P, T, result)
                got = {str(int(x)) for x in result.scaled_g}
                obs.check(len(result.scaled_g) == int(result.samples) == len(got), "each sample is loaded once",
                          g=result.scaled_g, samples=result.samples)
            except AssertionError:
                got = set()
            obs.check(got == tags, "exactly the results of the current models are loaded", label=label, got=got,
                      expected=tags)
            for name in ("hash_vib", "hash_rho"):
                good = {"hash_vib": files.hash_vib, "hash_rho": files.hash_rho}
                obs.check(files.valid_vib_and_rho_hashes(good), "the current hashes are valid", label=label)
                obs.check(not files.valid_vib_and_rho_hashes({**good, name: "0" * 128}), "other hashes are not valid",
                          label=label)

        def observe():
            # a new object (what a new process sees)
            fresh = fs.FileStructure(root, 4, ref.current)
            fresh.generate_model_hashes()
            read(fresh, usable(ref.vib, ref.rho[ref.current]), "new object")
            # the long-lived object: judges against the hashes it has, generates them when it has none
            twin = fs.FileStructure(root, 4, ref.current, no_makedir=True)
            if ref.cached is not None:
                twin.hash_vib, twin.hash_rho = FS.hash_vib, FS.hash_rho
                read(twin, usable(*ref.cached), "long-lived object")
                same = (FS.hash_vib == fresh.hash_vib, FS.hash_rho == fresh.hash_rho)
                truth = (ref.cached[0] == ref.vib, ref.cached[1] == ref.rho[ref.current])
                obs.check(same == truth, "the hash differs exactly when the model differs", same=same, truth=truth)
            else:
                result = pimc.BoxResultPM()
                try:
                    pp.load_pimc_data(twin, P, T, result)
                    got = {str(int(x)) for x in result.scaled_g}
                except AssertionError:
                    got = set()
                obs.check(got == {t for _, t in usable(ref.vib, ref.rho[ref.current])},
                          "an object without hashes generates them before it loads", got=got)
            obs.state(ref.vib, ref.rho[0], ref.rho[1], ref.current, ref.cached, ref.results)

        if case["start"] == "stale":
            for op in ("hash", "job", "vib1", "job"):
                apply(op)
        for op in case["history"]:
            apply(op)
            if case["start"] == "redo":
                observe()
        if case["start"] != "redo":
            observe()
        obs.trace()
        if len({v[1:3] for r in ref.results.values() for v in r}) > 1:
            obs.nontriv(case["start"], case["history"])
