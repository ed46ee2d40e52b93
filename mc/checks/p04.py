"""the result of a sample does not depend on how the samples are cut in blocks or what was computed before."""
import glob
import itertools as it
import os

import numpy as np

from mc import common as c

PROPERTY = "P04"
RULE = ("a case is (model sizes, kind of run, number of samples); every block size that divides the number of samples "
        "and every history of up to two earlier runs on the same object is executed with the same planned random "
        "numbers; non-trivial: more than one block or an earlier run")
ASSUMPTIONS = ["agreement to 1e-9 relative (the block shape may change the order of floating point additions)"]


def cases(tier):
    kinds = ("plain", "pm", "gR")
    sizes = (6, 12) if tier == "quick" else (1, 6, 12, 24)
    for A, N, S, P in it.product((1, 2, 3), (1, 2), (1, 2, 3), (3, 4)):
        if tier == "quick" and P == 4 and N == 2:
            continue
        for kind in kinds:
            for X in sizes:
                yield {"A": A, "N": N, "S": S, "P": P, "kind": kind, "X": X}


    # many samples, many or large blocks, more surfaces, modes and beads
    for kind in kinds:
        for A, N, S, P, X, blocks in ((2, 2, 2, 3, 1200, (1200, 600, 400, 100, 1)), (4, 5, 3, 3, 60, (60, 30, 12, 5)),
                                      (1, 3, 4, 16, 60, (60, 30, 20, 4)), (3, 1, 5, 7, 300, (300, 150, 100, 75)),
                                      (1, 1, 1, 5, 5000, (5000, 2500, 1000, 500)), (2, 2, 11, 3, 60, (60, 30, 12, 4))):
            yield {"A": A, "N": N, "S": S, "P": P, "kind": kind, "X": X, "blocks": blocks}


def outcome(case, shift):
    X, N, P, S = case["X"], case["N"], case["P"], case["S"]
    k = np.arange(X * N * P) + 17 * shift
    normals = (1.3 * np.sin(1.7 * k + 0.05 * k * k)).reshape(X, N, P)
    sources = (np.arange(X) * 2 + shift) % S
    return sources, normals


def arrays(case, result):
    names = ["scaled_g"] + (["scaled_rho"] if case["kind"] != "gR" else [])
    names += ["scaled_gofr_plus", "scaled_gofr_minus"] if case["kind"] == "pm" else []
    return {name: np.array(getattr(result, name), dtype=float) for name in names}


def ratios(values):
    """the stored numbers themselves, and what the analysis makes of them"""
    if "scaled_rho" not in values:
        return values
    return {**values, **{"ratio " + name: array / values["scaled_rho"] for name, array in values.items()}}


def compute(case, data, result):
    from pibronic.pimc import pimc
    {"plain": pimc.block_compute, "pm": pimc.block_compute_pm, "gR": pimc.block_compute_gR}[case["kind"]](data, result)


def fresh(case, FS, shift, B):
    """one run from scratch"""
    from pibronic.pimc import pimc
    rng = c.Rng(*outcome(case, shift))
    with rng.installed():
        data, result = c.box(FS, 300.0, case["P"], case["X"], B, pm=case["kind"] == "pm", delta_beta=None)
        compute(case, data, result)
    return data, result


def saved(FS, case):
    found = glob.glob(os.path.join(FS.path_rho_results, f"P{case['P']}_T300.00_J*_data_points.npz"))
    if len(found) != 1:
        return found, None
    with np.load(found[0]) as file:
        return found, {k: np.array(file[k]) for k in file.keys()}


def execute(case, obs):
    from pibronic.pimc import pimc
    X, P = case["X"], case["P"]
    vib = c.vibronic_model(case["A"], case["N"], "elELqQ")
    rho = c.sampling_model(case["S"], case["N"], own_frequencies=case["S"] == case["A"])
    keys = {"s_g": "scaled_g", "s_rho": "scaled_rho", "s_gP": "scaled_gofr_plus", "s_gM": "scaled_gofr_minus"}
    with obs.tmp() as root:
        FS = c.file_structure(root, vib, rho)
        try:
            want = {shift: ratios(arrays(case, fresh(case, FS, shift, case["blocks"][2] // 2 if "blocks" in case else 1)[1])) for shift in (0, 1)}
        except c.Undecided:
            return
        for B in case.get("blocks") or [b for b in range(1, X + 1) if X % b == 0]:
            for name in os.listdir(FS.path_rho_results):
                os.remove(os.path.join(FS.path_rho_results, name))
            data, result = fresh(case, FS, 0, B)
            values = arrays(case, result)
            for name, array in values.items():
                obs.check(array.shape == (X,) and np.isfinite(array).all(),
                          "every sample of every block is computed", block_size=B, name=name, array=array)
            got = ratios(values)
            for name in got:
                obs.check(np.allclose(got[name], want[0][name], rtol=1e-9, atol=0),
                          "the values of the samples do not depend on the block size", block_size=B, name=name,
                          got=got[name], expected=want[0][name])
            found, stored = saved(FS, case)
            obs.check(stored is not None, "one result file is written", found=found)
            obs.check(int(stored["number_of_samples"]) == X and str(stored["hash_vib"]) == FS.hash_vib
                      and str(stored["hash_rho"]) == FS.hash_rho, "the file describes the run", stored=stored)
            for key, name in keys.items():
                if name in values:
                    obs.check(key in stored and np.array_equal(stored[key], values[name]),
                              "the stored samples are the computed ones", key=key)
            # the same objects are used for a second run, with other random numbers and then the same again
            for shift in (1, 0):
                sources = outcome(case, 0)[0]  # the sources belong to the object and stay
                rng = c.Rng(sources, outcome(case, shift)[1])
                with rng.installed():
                    result2 = (pimc.BoxResultPM if case["kind"] == "pm" else pimc.BoxResult)(data=data)
                    result2.path_root = FS.path_rho_results
                    compute(case, data, result2)
                rng3 = c.Rng(sources, outcome(case, shift)[1])
                with rng3.installed():
                    data3, result3 = c.box(FS, 300.0, P, X, B, pm=case["kind"] == "pm")
                    compute(case, data3, result3)
                again, expect = ratios(arrays(case, result2)), ratios(arrays(case, result3))
                for name in again:
                    obs.check(np.allclose(again[name], expect[name], rtol=1e-9, atol=0),
                              "a run is not affected by the runs before it", block_size=B, name=name,
                              got=again[name], expected=expect[name])
                # and the same object for the results
                rng4 = c.Rng(sources, outcome(case, shift)[1])
                with rng4.installed():
                    compute(case, data, result)
                again = arrays(case, result)
                for name in again:
                    obs.check(np.allclose(again[name], expect[name], rtol=1e-9, atol=0),
                              "a run replaces all earlier results of the same object", block_size=B, name=name,
                              got=again[name], expected=expect[name])
                stored = saved(FS, case)[1]
                for key, name in keys.items():
                    if name in again:
                        obs.check(np.array_equal(stored[key], again[name]), "the stored samples are the computed ones", key=key)
                obs.step(3 * X)
                obs.state(*case.values(), B, shift)
            obs.step(X)
            obs.trace()
            obs.state(*case.values(), B)
            if B < X:
                obs.nontriv(*case.values(), B)
