"""the uncoupled model and the sampling model made from a coupled model."""
import copy
import itertools as it
import os

import numpy as np

from mc import common as c
from mc.checks import p11, p12

PROPERTY = "P13"
RULE = ("a case is (surfaces, modes, which arrays are present); the harmonic and the sampling model are made from it over "
        "every previous content of the destination {none, other dimensions, same dimensions}; the reweighting is run for "
        "every (surfaces of the sampling model, which of its arrays are present); non-trivial: a coupled model with an "
        "off-diagonal entry")
ASSUMPTIONS = ["agreement of eigenvalues to 1e-10"]
ARRAYS = ("E", "G1", "G2", "G3", "G4")


def cases(tier):
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] if tier == "quick" else list(it.product((1, 2, 3, 4), (1, 2, 3)))
    for A, N in ((4, 2), (5, 1), (1, 5), (7, 3), (3, 11)):
        for present in (("E",), ("G1",), ("E", "G1"), ("E", "G1", "G2"), ("G3",)):
            yield {"A": A, "N": N, "present": present}
    for A, N in sizes:
        for k in range(6):
            for present in it.combinations(ARRAYS, k):
                if A * N > 6 and "G4" in present:
                    continue
                yield {"A": A, "N": N, "present": present}


def file_model(path):
    import json
    with open(path) as file:
        raw = json.load(file)
    return {k: (np.array(v) if isinstance(v, list) else v) for k, v in raw.items()}


def execute(case, obs):
    from pibronic.vibronic import VMK, vIO
    A, N = case["A"], case["N"]
    full = p12.base_model("coupled", A, N)
    model = {k: v for k, v in full.items() if k in (VMK.N, VMK.A, VMK.w) or k.name in names(case["present"])}
    size = p11.shapes("diagonal", A, N)
    expected = {VMK.w: model[VMK.w]}
    for k in ARRAYS:
        a = model.get(VMK[k])
        expected[VMK[k]] = np.zeros(size[k]) if a is None else np.einsum("...aa->...a", a)
    with obs.tmp() as root:
        FS = c.file_structure(root, None, None, 3, 1)
        for old in ("none", "other", "same"):
            for dest in (FS.path_har_model, FS.path_rho_model):
                if old == "none":
                    if os.path.exists(dest):
                        os.remove(dest)
                elif old == "other":
                    vIO.save_diagonal_model_to_JSON(dest, p12.base_model("diagonal", A + 1, N + 1))
                else:
                    vIO.save_diagonal_model_to_JSON(dest, p12.base_model("diagonal", A, N))
            vIO.save_model_to_JSON(FS.path_vib_model, model)
            with open(FS.path_vib_model, "rb") as file:
                source = file.read()
            vIO.create_basic_diagonal_model(FS)
            obs.step()
            for dest in (FS.path_har_model, FS.path_rho_model):
                got = vIO.load_diagonal_model_from_JSON(dest)
                obs.check((got[VMK.A], got[VMK.N]) == (A, N), "the dimensions of the uncoupled model", old=old)
                for k, v in expected.items():
                    a = got.get(k, np.zeros(size[k.name] if k.name in size else v.shape))
                    obs.check(a.shape == v.shape and np.array_equal(a, v),
                              "the uncoupled model is the surface diagonal of the coupled model", key=k, old=old,
                              got=a, expected=v)
            if old == "same":
                vIO.save_diagonal_model_to_JSON(FS.path_har_model, p12.base_model("diagonal", A, N))
                with open(FS.path_rho_model, "rb") as file:
                    rho = file.read()
                vIO.create_harmonic_model(FS)
                got = vIO.load_diagonal_model_from_JSON(FS.path_har_model)
                obs.check(all(np.array_equal(got[k], v) for k, v in expected.items() if k in got),
                          "the harmonic model is refreshed")
                with open(FS.path_rho_model, "rb") as file:
                    obs.check(file.read() == rho, "refreshing the harmonic model leaves the sampling model alone")
            with open(FS.path_vib_model, "rb") as file:
                obs.check(file.read() == source, "the coupled model is not changed")
            obs.trace()
        # zeros off the diagonal, in place
        bare = copy.deepcopy(model)
        vIO.fill_offdiagonal_of_model_with_zeros(bare)
        for k, v in model.items():
            if k in (VMK.N, VMK.A, VMK.w):
                ok = np.array_equal(bare[k], v)
            else:
                ok = np.array_equal(bare[k], v * np.eye(A))
            obs.check(ok, "only the entries off the surface diagonal become zero", key=k)
        obs.step()
        reweight(case, obs, FS, model)
    obs.state(A, N, *case["present"])
    if A > 1 and case["present"]:
        obs.nontriv(A, N, *case["present"])


def names(keys):
    from pibronic.vibronic import VMK
    return {VMK[k].name for k in keys}


def single_quadratic(case, obs, FS, model):
    """one quadratic term alone, anywhere in either model, is enough to refuse"""
    from pibronic.vibronic import VMK, vIO
    A, N = case["A"], case["N"]
    rho = {k: v for k, v in p12.base_model("diagonal", 2, N).items() if k in (VMK.N, VMK.A, VMK.w, VMK.E, VMK.G1)}
    path, count = FS.path_rho_model, 0
    for kind, shape in (("coupled", (N, N, A, A)), ("rho", (N, N, 2))):
        for index in it.product(*map(range, shape)):
            if A * N > 6 and count % 5:
                count += 1
                continue
            G2 = np.zeros(shape)
            G2[index] = 1e-5 if count % 2 else -0.01
            G2 = G2 + G2.swapaxes(0, 1)
            if kind == "coupled":
                G2 = G2 + G2.swapaxes(2, 3)
            vIO.save_model_to_JSON(FS.path_vib_model, {**model, VMK.G2: G2} if kind == "coupled" else model)
            vIO.save_diagonal_model_to_JSON(path, {**rho, VMK.G2: G2} if kind == "rho" else rho)
            with open(path, "rb") as file:
                before = file.read()
            p11.refused(obs, lambda: vIO.recalculate_energy_values_of_diagonal_model(FS, path),
                        "reweighting with one quadratic coupling", kind=kind, index=index)
            with open(path, "rb") as file:
                obs.check(file.read() == before, "a refused reweighting leaves the file alone")
            count += 1
    vIO.save_model_to_JSON(FS.path_vib_model, model)


def reweight(case, obs, FS, model):
    """the energies of a sampling model are recomputed from the coupled model at the minima of its oscillators"""
    from pibronic.vibronic import VMK, vIO
    A, N = case["A"], case["N"]
    vIO.save_model_to_JSON(FS.path_vib_model, model)
    E = model.get(VMK.E, np.zeros((A, A)))
    lin = model.get(VMK.G1, np.zeros((N, A, A)))
    w = model[VMK.w]
    path = FS.path_rho_model
    if "G2" not in case["present"]:
        single_quadratic(case, obs, FS, model)
    for S in (1, 2, 3) if A < 4 else (1, 4, 9):
        for keys in ((), ("E",), ("G1",), ("E", "G1"), ("E", "G1", "G2")):
            rho = p12.base_model("diagonal", S, N)
            if S > 1:
                rho[VMK.w] = rho[VMK.w] * 1.37      # oscillators with frequencies of their own
            rho = {k: v for k, v in rho.items() if k in (VMK.N, VMK.A, VMK.w) or k.name in names(keys)}
            vIO.save_diagonal_model_to_JSON(path, rho)
            with open(path, "rb") as file:
                before = file.read()
            if "G2" in keys or "G2" in case["present"]:
                p11.refused(obs, lambda: vIO.recalculate_energy_values_of_diagonal_model(FS, path),
                            "reweighting with quadratic couplings", keys=keys)
                with open(path, "rb") as file:
                    obs.check(file.read() == before, "a refused reweighting leaves the file alone")
                continue
            lr = rho.get(VMK.G1, np.zeros((N, S)))
            expected = np.zeros(S)
            for s in range(S):
                q = -lr[:, s] / rho[VMK.w]
                V = E + 0.5 * np.sum(w * q**2) * np.eye(A) + np.einsum("iab,i->ab", lin, q)
                expected[s] = np.linalg.eigvalsh(V)[0]
            got = vIO.simple_single_point_energy_calculation(FS, path)
            obs.check(np.allclose(got, expected, atol=1e-10), "the energies at the minima of the oscillators",
                      got=got, expected=expected, keys=keys, S=S)
            vIO.recalculate_energy_values_of_diagonal_model(FS, path)
            new = vIO.load_diagonal_model_from_JSON(path)
            delta = -0.5 * (lr**2 / rho[VMK.w][:, None]).sum(axis=0)
            obs.check(np.allclose(new[VMK.E], expected - delta, atol=1e-10),
                      "the bottom of every oscillator is the lowest energy of the coupled model at that point",
                      got=new[VMK.E], expected=expected - delta, keys=keys, S=S)
            obs.check(all(np.array_equal(new.get(k, np.zeros_like(v)), v) for k, v in rho.items() if k != VMK.E),
                      "nothing but the energies changes")
            obs.step(2)
