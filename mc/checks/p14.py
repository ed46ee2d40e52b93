"""artificial coupled models: an exact rotation of the surfaces, reproducible from its files."""
import itertools as it

import numpy as np

from mc import common as c
from mc.checks import p11, p12, p13

PROPERTY = "P14"
RULE = ("matrices: every order 2..10 x every tuning parameter of a grid of [0, 1]; models: every (surfaces, modes, "
        "subset of arrays, way to choose the rotation {tuning 0 / small / 1, given matrix, re-use}); histories of two "
        "transformations; non-trivial: the rotation is not the identity")
ASSUMPTIONS = ["tuning parameters between the grid points behave like their neighbours",
               "agreement of rotated entries to 1e-9 of the largest entry"]


def cases(tier):
    steps = 100 if tier == "quick" else 2000
    for order in range(2, 11):
        for lo in range(0, steps, steps // 20):
            yield {"what": "matrix", "order": order, "lo": lo, "hi": lo + steps // 20, "steps": steps}
    sizes = [(2, 1), (2, 2), (3, 1), (3, 2)] if tier == "quick" else [(2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (3, 3)]
    for A, N in ((4, 1), (5, 3), (7, 2)):
        for present in (("E",), ("E", "G1"), ("G1", "G2")):
            for how in (0.0, 0.5, "given", "re-use"):
                yield {"what": "model", "A": A, "N": N, "present": present, "how": how}
    for A, N in ((2, 1), (3, 2), (4, 1)):       # surfaces of the same energy, coupled or not
        for present in (("E",), ("E", "G1")):
            for how in (0.0, 0.5, "given", "re-use"):
                for level in ("coupled", "uncoupled"):
                    yield {"what": "model", "A": A, "N": N, "present": present, "how": how, "level": level}
    for A, N in sizes:
        for k in range(6):
            for present in it.combinations(p13.ARRAYS, k):
                for how in (0.0, 0.01, 1.0, "given", "re-use"):
                    yield {"what": "model", "A": A, "N": N, "present": present, "how": how}


def rotation(A, angle):
    U = np.eye(A)
    for i in range(A - 1):
        R = np.eye(A)
        t = angle * (i + 1)
        R[i, i] = R[i + 1, i + 1] = np.cos(t)
        R[i, i + 1], R[i + 1, i] = -np.sin(t), np.sin(t)
        U = U @ R
    return U


def not_orthonormal(U):
    A = len(U)
    for i, j in it.product(range(A), repeat=2):
        bad = U.copy()          # one wrong entry
        bad[i, j] += 0.01
        yield bad
        if i < j:
            shear = np.eye(A)
            shear[i, j] = 0.5
            bad = U @ shear     # determinant 1, nothing else
            yield bad
            yield bad / np.linalg.norm(bad, axis=0)                     # columns of length one, not perpendicular
            yield (shear @ U) / np.linalg.norm(shear @ U, axis=1)[:, None]   # the same with the rows
            bad = U.copy()      # twice the same column, or row
            bad[:, j] = bad[:, i]
            yield bad
            yield bad.T.copy()
    for i in range(A):
        scale = np.eye(A)
        scale[i, i] = 2.0
        yield U @ scale         # perpendicular columns, not of length one
        yield scale @ U
        scale[(i + 1) % A, (i + 1) % A] = 0.5
        yield U @ scale         # of determinant 1
    yield from (2 * U, np.eye(A + 1), np.zeros((A, A)), U * np.nan, U[:-1].copy(), U[:, :-1].copy(), "nonsense")


def execute(case, obs):
    if case["what"] == "matrix":
        matrices(case, obs)
    else:
        models(case, obs)


def matrices(case, obs):
    from pibronic.vibronic import vIO
    create = vIO.create_orthonormal_matrix_lambda_close_to_identity
    order, eye = case["order"], np.eye(case["order"])
    last, largest = -1.0, np.linalg.norm(create(order, 1.0) - eye)
    for k in range(case["lo"], case["hi"] + 1):
        t = k / case["steps"]
        U = create(order, t)
        obs.step()
        obs.check(U.shape == (order, order) and np.allclose(U @ U.T, eye, atol=1e-10), "the matrix is orthonormal",
                  order=order, tuning=t)
        d = np.linalg.norm(U - eye)
        if k == 0:
            obs.check(np.array_equal(U, eye), "tuning 0 is the identity", order=order)
        else:
            obs.check(d > 0, "any other tuning is not the identity", order=order, tuning=t)
        obs.check(d >= last - 1e-9, "the distance from the identity does not decrease with the tuning parameter",
                  order=order, tuning=t, distance=d, previous=last)
        obs.check(abs(d - t * largest) <= 3e-4 * largest,       # the spacing of the stored table is 1e-4 of its range
                  "the distance from the identity is proportional to the tuning parameter",
                  order=order, tuning=t, distance=d, expected=t * largest)
        last = d
        if k == case["hi"]:
            obs.check(np.array_equal(U, create(order, t)), "the matrix is reproducible", order=order, tuning=t)
        obs.state(order, k)
    for t in (-1e-9, 1.0 + 1e-9, 2.0, -1.0):
        p11.refused(obs, lambda: create(order, t), "a tuning parameter outside [0, 1]", tuning=t)
    obs.trace()
    obs.nontriv(order, case["lo"])


def models(case, obs):
    from pibronic.vibronic import VMK, vIO
    A, N, how = case["A"], case["N"], case["how"]
    full = p12.base_model("coupled", A, N)
    model = {k: v for k, v in full.items() if k in (VMK.N, VMK.A, VMK.w) or k.name in p13.names(case["present"])}
    arrays = [k for k in model if k not in (VMK.N, VMK.A, VMK.w)]
    if "level" in case:
        model[VMK.E][np.diag_indices(A)] = 0.5
        if case["level"] == "uncoupled":
            for k in arrays:
                model[k] = model[k] * np.eye(A)
    with obs.tmp() as root:
        FS = c.file_structure(root, None, None, 2, 0)
        vIO.save_model_to_JSON(FS.path_vib_model, model)
        old = {k: model[k].copy() for k in arrays}
        for turn in range(2):
            with open(FS.path_vib_model, "rb") as file:
                original = file.read()
            if how == "given":
                U = rotation(A, 0.3 + turn)
                if turn and A > 1:      # a reflection of one surface, a swap of two
                    U = U[::-1].copy()
                    U[0] *= -1 if A > 2 else 1
                for wrong in not_orthonormal(U):
                    p11.refused(obs, lambda: vIO.create_fake_coupled_model(FS, transformation_matrix=wrong),
                                "a matrix that is not orthonormal", matrix=wrong)
                with open(FS.path_vib_model, "rb") as file:
                    obs.check(file.read() == original, "a refused transformation leaves the model alone")
                vIO.create_fake_coupled_model(FS, transformation_matrix=U)
            elif how == "re-use":
                U = rotation(A, 0.7 + turn)
                U[-1] *= -1 if turn else 1
                np.save(FS.path_ortho_mat, U)
                vIO.create_fake_coupled_model(FS, transformation_matrix="re-use")
            else:
                U = vIO.create_orthonormal_matrix_lambda_close_to_identity(A, how)
                vIO.create_fake_coupled_model(FS, how)
            obs.step()
            obs.check(np.allclose(np.load(FS.path_ortho_mat), U, atol=1e-14), "the rotation is stored", turn=turn)
            with open(FS.path_orig_model, "rb") as file:
                obs.check(file.read() == original, "the model before the transformation is kept", turn=turn)
            new = vIO.load_model_from_JSON(FS.path_vib_model)
            obs.check((new[VMK.A], new[VMK.N]) == (A, N) and np.array_equal(new[VMK.w], model[VMK.w]),
                      "dimensions and frequencies are not changed")
            for k in (VMK.E, VMK.G1, VMK.G2, VMK.G3, VMK.G4):
                if k not in old:
                    obs.check(not np.any(new.get(k, 0.0)), "an absent array stays absent", key=k)
                    continue
                expected = np.einsum("ij,...jk,lk->...il", U, old[k], U)
                obs.check(np.allclose(new[k], expected, rtol=0, atol=1e-9), "every array is rotated: U old U^T",
                          key=k, turn=turn, got=new[k], expected=expected)
                old[k] = expected
            obs.trace()
    obs.state(A, N, how, *case["present"])
    if how != 0.0 and arrays:
        obs.nontriv(A, N, how, *case["present"])
