"""preparation of a data set: every history of import, rotation, diagonal models and reweighting."""
import itertools as it
import os

import numpy as np

from mc import common as c
from mc.checks import p15

PROPERTY = "P25"
RULE = ("every history of 3 (thorough: 4) preparation steps {import one of two .op files, save a model, rotate by a new matrix, "
        "by a given one, by the stored one, refresh the harmonic model, make the basic sampling model, the sampling model "
        "of the original model, reweight the sampling model, change rho, change to another data set} from three start "
        "states; after every step every file below the root directory is compared with a reference store; non-trivial: "
        "the history changes rho or the data set, or imports a model after a rotation")
ASSUMPTIONS = ["agreement of parameters to 1e-9; one process prepares a data set at a time"]
OPS = ["op0", "op1", "save", "fresh", "given", "re-use", "harmonic", "basic", "original", "reweight", "rho", "set"]
STARTS = {"empty": (), "imported": ("op0", "set", "op1", "set"),
          "prepared": ("op0", "fresh", "basic", "rho", "original", "set", "op1", "given", "basic", "set")}

TUNING = 0.01
MATRIX = {}     # order -> the matrix of that tuning parameter


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for start in STARTS:
        for head in it.product(OPS, repeat=depth - 1):
            yield {"start": start, "head": head}


def rotation(angle):
    return np.array([[np.cos(angle), -np.sin(angle)], [np.sin(angle), np.cos(angle)]])


def terms(which):
    """(A, N, energies, frequencies, linear terms) of the two .op files"""
    A, N = (2, 2) if which == 0 else (3, 2)
    E = [round(1.1 + 0.37 * a + which, 6) for a in range(A)]
    w = [round(0.02 + 0.007 * i + 0.001 * which, 6) for i in range(N)]
    rows, lin = [], np.zeros((N, A, A))
    for n, (label, index) in enumerate(p15.terms("C1", A, N)):
        if which == 1 and n % 2:
            continue
        value = round((-1)**n * (0.013 + 0.00731 * n + 0.002 * which), 6)
        rows.append(("C1", label, value))
        i, a, b = index
        lin[i, a, b] = lin[i, b, a] = value
    return A, N, E, w, rows, lin


class World:
    """what the files of both data sets have to hold"""

    def __init__(self, obs, root, op_files):
        from pibronic.data import file_structure as fs
        self.obs, self.op_files = obs, op_files
        self.FS = [fs.FileStructure(root, 6, 0), fs.FileStructure(root, 61, 0)]
        self.now, self.rho = 0, [0, 0]
        self.root = root
        self.store = {}      # path relative to root -> model (dict of arrays) | matrix
        self.seen = self.snapshot()

    def snapshot(self):
        out = {}
        for base, _, names in os.walk(self.root):
            for name in names:
                path = os.path.join(base, name)
                with open(path, "rb") as file:
                    out[os.path.relpath(path, self.root)] = file.read()
        return out

    def rel(self, path):
        return os.path.relpath(path, self.root)

    # --- reference
    def diagonal(self, model):
        return {"w": model["w"], **{k: np.einsum("...aa->...a", v) for k, v in model.items() if k != "w"}}

    def rotated(self, model, U):
        return {"w": model["w"], **{k: U @ v @ U.T for k, v in model.items() if k != "w"}}

    def reweighted(self, rho, vib):
        out, S = dict(rho), rho["E"].shape[0]
        energies = np.zeros(S)
        for s in range(S):
            q = -rho["G1"][:, s] / rho["w"]
            V = vib["E"] + 0.5 * np.sum(vib["w"] * q**2) * np.eye(len(vib["E"])) + np.einsum("iab,i->ab", vib["G1"], q)
            energies[s] = np.linalg.eigvalsh(V)[0] + 0.5 * np.sum(rho["G1"][:, s]**2 / rho["w"])
        out["E"] = energies
        return out

    def expect(self, op):
        """None: refused; else {path: content}"""
        FS = self.FS[self.now]
        vib, har, rho = self.rel(FS.path_vib_model), self.rel(FS.path_har_model), self.rel(FS.path_rho_model)
        orig, mat = self.rel(FS.path_orig_model), self.rel(FS.path_ortho_mat)
        get = self.store.get
        if op in ("op0", "op1"):
            A, N, E, w, rows, lin = terms(int(op[-1]))
            return {vib: {"w": np.array(w), "E": np.diag(E), "G1": lin}}
        if op == "save":
            return {vib: saved_model()}
        if op in ("rho", "set"):
            return {}
        if op == "original":
            return None if get(orig) is None else {rho: self.diagonal(get(orig))}
        if get(vib) is None:
            return None
        A = len(get(vib)["E"])
        if op == "harmonic":
            return {har: self.diagonal(get(vib))}
        if op == "basic":
            return {har: self.diagonal(get(vib)), rho: self.diagonal(get(vib))}
        if op == "reweight":
            return None if get(rho) is None else {rho: self.reweighted(get(rho), get(vib))}
        if op == "fresh":
            if A not in MATRIX:
                from pibronic.vibronic import vIO
                MATRIX[A] = vIO.create_orthonormal_matrix_lambda_close_to_identity(A, TUNING)
            U = MATRIX[A]
        else:
            U = rotation(0.4) if op == "given" else get(mat)
            if U is None or U.shape != (A, A):
                return None
        return {vib: self.rotated(get(vib), U), orig: get(vib), mat: U}

    # --- the real thing
    def apply(self, op):
        from pibronic.vibronic import VMK, vIO
        FS = self.FS[self.now]
        if op in ("op0", "op1"):
            vIO.create_coupling_from_op_file(FS, self.op_files[int(op[-1])])
        elif op == "save":
            m = saved_model()
            vIO.save_model_to_JSON(FS.path_vib_model, {VMK.A: len(m["E"]), VMK.N: len(m["w"]),
                                                       **{VMK[k]: v for k, v in m.items()}})
        elif op == "fresh":
            vIO.create_fake_coupled_model(FS, tuning_parameter=TUNING)
        elif op == "given":
            vIO.create_fake_coupled_model(FS, transformation_matrix=rotation(0.4))
        elif op == "re-use":
            vIO.create_fake_coupled_model(FS, transformation_matrix="re-use")
        elif op == "harmonic":
            vIO.create_harmonic_model(FS)
        elif op == "basic":
            vIO.create_basic_diagonal_model(FS)
        elif op == "original":
            vIO.remove_coupling_from_model(FS.path_orig_model, FS.path_rho_model)
        elif op == "reweight":
            vIO.recalculate_energy_values_of_diagonal_model(FS, FS.path_rho_model)
        elif op == "rho":
            self.rho[self.now] = 1 - self.rho[self.now]
            FS.change_rho(self.rho[self.now])
        elif op == "set":
            self.now = 1 - self.now

    def do(self, op, history):
        expected = self.expect(op)
        try:
            self.apply(op)
        except Exception as err:
            if expected is not None:
                self.obs.check(False, "a preparation step that is possible is done", history=history, step=op, error=err)
            expected = {}
        else:
            self.obs.check(expected is not None, "a preparation step without its input is refused", history=history,
                           step=op)
        self.obs.step()
        after = self.snapshot()
        changed = {p for p in set(after) | set(self.seen) if after.get(p) != self.seen.get(p)}
        self.obs.check(changed <= set(expected), "a preparation step changes its own files only", history=history,
                       step=op, also=sorted(changed - set(expected)))
        self.seen = after
        self.store.update(expected)
        for path, want in expected.items():
            self.compare(path, want, history, op)

    def compare(self, path, want, history, op):
        from pibronic.vibronic import VMK, vIO
        full = os.path.join(self.root, path)
        if path.endswith(".npy"):
            self.obs.check(os.path.isfile(full) and np.allclose(np.load(full), want, atol=1e-14),
                           "the rotation is stored", history=history, step=op)
            return
        diagonal = want["E"].ndim == 1
        got = (vIO.load_diagonal_model_from_JSON if diagonal else vIO.load_model_from_JSON)(full)
        self.obs.check(got[VMK.A] == len(want["E"]) and got[VMK.N] == len(want["w"]), "the dimensions of the model",
                       history=history, step=op, path=path)
        for k in ("w", "E", "G1", "G2"):
            w = want.get(k)
            a = got.get(VMK[k])
            if w is None:
                ok = a is None or not np.any(a)
            else:
                ok = (a is None and np.allclose(w, 0.0, atol=1e-9)) or \
                     (a is not None and a.shape == w.shape and np.allclose(a, w, rtol=0, atol=1e-9))
            self.obs.check(ok, "the model is made from the current models of its own data set", history=history,
                           step=op, path=path, key=k, got=a, expected=w)


def saved_model():
    G1 = np.zeros((1, 2, 2))
    G1[0] = [[0.03, 0.011], [0.011, -0.02]]
    return {"w": np.array([0.025]), "E": np.array([[0.4, 0.02], [0.02, 0.7]]), "G1": G1}


def same_modes(world):
    """reweighting a sampling model with other modes than the coupled model is a mistake of the user"""
    FS = world.FS[world.now]
    rho, vib = (world.store.get(world.rel(p)) for p in (FS.path_rho_model, FS.path_vib_model))
    return rho is None or vib is None or len(rho["w"]) == len(vib["w"])


def execute(case, obs):
    with obs.tmp() as top:
        op_files = []
        for k in (0, 1):
            A, N, E, w, rows, lin = terms(k)
            op_files.append(os.path.join(top, f"model{k}.op"))
            p15.write(op_files[-1], A, N, E, w, rows, False)
        for last in OPS:
            history = (*STARTS[case["start"]], *case["head"], last)
            root = os.path.join(top, "root_" + last)
            os.mkdir(root)
            world = World(obs, root, op_files)
            for k, op in enumerate(history):
                if op == "reweight" and not same_modes(world):
                    continue
                world.do(op, history[:k + 1])
                obs.state(world.now, *world.rho, sorted(world.seen.items()))
            obs.trace()
            own = history[len(STARTS[case["start"]]):]
            if "rho" in own or "set" in own or "fresh" in history and any(o in own for o in ("op0", "op1", "save")):
                obs.nontriv(case["start"], *own)
