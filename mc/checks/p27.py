"""training data: histories of g(R) runs, rho(R) evaluations, change of the sampling model and ordinary runs on one object."""
import itertools as it
import os

import numpy as np

from mc import common as c

PROPERTY = "P27"
RULE = ("a case is (sizes, block size, array in which the two sampling models differ); every history of 3 (thorough: 4) operations {g(R) of new R for job 0 / job 1, rho(R) "
        "of the stored R of job 0 / job 1 (the same or a new result object), go to the other sampling model, edit all the "
        "model files in place, an ordinary run} on one BoxData is executed; after every operation all files of the data set are compared with a reference "
        "store; non-trivial: the history changes the sampling model or mixes kinds of runs")
ASSUMPTIONS = ["integrands agree to 1e-8 relative with the dense reference of P01",
               "random numbers come from numpy.random (any other source is not judged)"]
OPS = ["g0", "g1", "rho0", "rho1", "other", "run0", "same_g1", "same_run", "edit"]
T = 300.0


def cases(tier):
    depth = 3 if tier == "quick" else 4
    sizes = [(2, 2, 2, 3), (1, 1, 3, 3), (3, 1, 2, 4), (2, 1, 1, 3)] if tier == "quick" else \
        [(2, 2, 2, 3), (1, 1, 3, 3), (3, 1, 2, 4), (2, 1, 1, 3), (2, 3, 4, 3)]
    for A, N, S, P in sizes:
        for B in (1, 2, 3, 6):
            for second in ("all", "w", "E", "G1") if B == 2 or tier != "quick" else ("all",):
                for head in it.product(OPS, repeat=depth - 2):
                    yield {"A": A, "N": N, "S": S, "P": P, "B": B, "second": second, "head": head}


X = 6


class World:
    def __init__(self, case, obs, root, memo):
        self.memo = memo
        self.case, self.obs, self.root = case, obs, root
        A, N, S, P = case["A"], case["N"], case["S"], case["P"]
        self.vibs = [c.vibronic_model(A, N, "elELqQ"), c.vibronic_model(A, N, "elELqQ", scale=0.6)]
        if A == 1:
            self.vibs[1]["E"] = self.vibs[1]["E"] * 1.5
        self.vib, self.version = self.vibs[0], 0
        self.rhos = [c.sampling_model(S, N), c.sampling_model(S % 3 + 1, N, own_frequencies=True, scale=0.5)]
        if case["second"] != "all":     # the models differ in one array only
            first = dict(self.rhos[0])
            first[case["second"]] = first[case["second"]] * 1.4 + 0.002
            self.rhos[1] = first
        self.paths = []
        for k, rho in enumerate(self.rhos):
            FS = c.file_structure(root, self.vib, rho, 3, k)
            self.paths.append(FS)
        self.write()
        self.k, self.turn = 0, 0
        FS = self.paths[0]
        self.rng = c.Rng(sources=np.arange(X) % S, normals=np.zeros(1), uniforms=np.zeros(1))
        with self.rng.installed():
            self.data, self.result = c.box(FS, T, P, X, case["B"])
        self.result.path_root = FS.path_rho_results
        self.files = {}     # relative path -> reference content
        self.seen = self.snapshot()

    def snapshot(self):
        out = {}
        for base, _, names in os.walk(self.root):
            for name in names:
                path = os.path.join(base, name)
                with open(path, "rb") as file:
                    out[os.path.relpath(path, self.root)] = file.read()
        return out

    def name(self, kind, job, directory):
        end = {"run": "data_points", "in": "training_data_input", "g": "training_data_g_output"}[kind]
        return os.path.relpath(os.path.join(directory, f"P{self.case['P']}_T{T:.2f}_J{job}_{end}.npz"), self.root)

    def new_result(self, job, directory):
        from pibronic.pimc import pimc
        self.result = pimc.BoxResult(data=self.data)
        self.result.id_job, self.result.path_root = job, directory

    def do(self, op):
        from pibronic.pimc import pimc
        case, N, P = self.case, self.case["N"], self.case["P"]
        tau = c.beta_of(T) / P
        self.turn += 1
        i = np.arange(X * N * P) + 31 * self.turn
        R = (0.5 + 0.5 * np.sin(1.7 * i + 0.05 * i * i)).reshape(X, N, P)
        normals = (1.3 * np.sin(1.1 * i + 0.07 * i * i)).reshape(X, N, P)
        S = self.rhos[1 - self.k if op in ("other", "edit") else self.k]["A"]
        rng = c.Rng(sources=np.arange(X) % S, normals=normals, uniforms=R)
        FS = self.paths[self.k]
        targets = {}
        with rng.installed():
            if op == "other":
                self.k = 1 - self.k
                self.data.id_rho = self.k
                self.data.path_rho_model = self.paths[self.k].path_rho_model
                self.data.initialize_models()
            elif op == "edit":
                self.edit()
                self.data.initialize_models()
            elif op in ("g0", "g1", "same_g1"):
                if op != "same_g1":
                    self.new_result(int(op[-1]), FS.path_vib_results)
                job, directory = self.result.id_job or 0, self.result.path_root
                pimc.block_compute_gR_from_raw_samples(self.data, self.result)
                targets = {self.name("in", job, directory): R, self.name("g", job, directory): R}
            elif op in ("run0", "same_run"):
                if op == "run0":
                    self.new_result(0, FS.path_rho_results)
                job, directory = self.result.id_job or 0, self.result.path_root
                pimc.block_compute(self.data, self.result)
                targets = {self.name("run", job, directory): None}
            else:
                self.evaluate(int(op[-1]), tau)
        self.obs.step()
        after = self.snapshot()
        changed = {p for p in set(after) | set(self.seen) if after.get(p) != self.seen.get(p)}
        self.obs.check(changed <= set(targets) and set(targets) <= set(after), "a run writes its own files only",
                       operation=op, changed=sorted(changed), expected=sorted(targets))
        self.seen = after
        for path, R in targets.items():
            with np.load(os.path.join(self.root, path)) as file:
                got = {k: np.array(file[k]) for k in file.keys()}
            self.obs.check(int(got["number_of_samples"]) == X, "the number of samples is stored", path=path)
            if R is None:
                self.obs.check(np.isfinite(got["s_g"]).all() and got["s_g"].shape == (X,) == got["s_rho"].shape,
                               "an ordinary run stores its samples", path=path)
                self.files[path] = ("run", got["s_g"])
                want = self.fresh(normals, tau)
                for key, w in want.items():
                    self.obs.check(np.allclose(got[key], w, rtol=1e-9, atol=0), "an ordinary run is that of a fresh object",
                                   operation=op, key=key, got=got[key], expected=w)
            elif path.endswith("input.npz"):
                self.stored_R = got["input_R_values"]
                self.obs.check(self.stored_R.shape == R.shape and np.isfinite(self.stored_R).all(),
                               "every R is stored", path=path)
                self.files[path] = ("in", self.stored_R)
            else:
                want = c.g_reference(self.stored_R, self.vib, tau)
                self.obs.check(np.allclose(got["g"], want, rtol=1e-8, atol=1e-14 * np.abs(want).max()),
                               "g(R) belongs to the R of the same job", operation=op, path=path, got=got["g"],
                               expected=want)

    def edit(self):
        """the sampling models change places, the coupled model changes its values: all files keep path and size"""
        self.rhos = self.rhos[::-1]
        self.version = 1 - self.version
        self.vib = self.vibs[self.version]
        self.write()
        self.seen = self.snapshot()

    def write(self):
        for FS, rho in zip(self.paths, self.rhos):
            for path, model in ((FS.path_rho_model, rho), (FS.path_vib_model, self.vib)):
                c.write_model(path, model)
                with open(path, "a") as file:
                    file.write(" " * (9000 - os.path.getsize(path)))

    def fresh(self, normals, tau):
        """the same draws on an object that was not used before"""
        from pibronic.pimc import pimc
        key = (self.k, self.version, self.turn)
        if key not in self.memo:
            with self.obs.tmp() as root:
                FS = c.file_structure(root, self.vib, self.rhos[self.k], 3, self.k)
                rng = c.Rng(sources=np.arange(X) % self.rhos[self.k]["A"], normals=normals)
                with rng.installed():
                    data, result = c.box(FS, T, self.case["P"], X, X)
                    pimc.block_compute(data, result)
            self.memo[key] = {"s_g": result.scaled_g.copy(), "s_rho": result.scaled_rho.copy()}
        return self.memo[key]

    def evaluate(self, job, tau):
        """rho(R) of stored R, as the machine learning example does it"""
        from pibronic.pimc import pimc
        path = self.name("in", job, self.paths[0].path_vib_results)
        if path not in self.files:
            return
        R = self.files[path][1].copy()
        keep = R.copy()
        if self.result.id_job != job:
            self.new_result(job, self.paths[self.k].path_rho_results)
        pimc.block_compute_rhoR_from_input_samples(self.data, self.result, R)
        want = c.rho_reference(R, self.rhos[self.k], tau)
        self.obs.check(np.array_equal(R, keep), "the given R are left alone")
        self.obs.check(np.allclose(self.result.scaled_rho, want, rtol=1e-8, atol=1e-14 * want.max()),
                       "rho(R) is that of the current sampling model", job=job, rho=self.k,
                       got=self.result.scaled_rho, expected=want)


def execute(case, obs):
    memo = {}
    with obs.tmp() as top:
        for tail in it.product(OPS, repeat=2):
            history = (*case["head"], *tail)
            root = os.path.join(top, "_".join(history))
            os.mkdir(root)
            try:
                world = World(case, obs, root, memo)
                for op in history:
                    world.do(op)
                    obs.state(*[case[k] for k in ("A", "N", "S", "P", "B", "second")], world.k, sorted(world.files), op)
            except c.Undecided:
                return
            obs.trace()
            if "other" in history or len({op.strip("01") for op in history}) > 1:
                obs.nontriv(*[case[k] for k in ("A", "N", "S", "P", "B", "second")], *history)
