"""intensity grids: all small sign patterns, sizes and absent arrays, and histories of edits."""
import itertools as it
import os

import numpy as np

from mc import common as c
from mc.checks import p28

PROPERTY = "P30"
RULE = ("every sign pattern of {-, 0, tiny, +} over the matrix of 2 surfaces and of {-, 0, +} over that of 3 surfaces (thorough: all, quick: "
        "those of the upper triangle with at least one zero), in either model; sizes 1..3 (4) x 1..2 (3) x subsets of the "
        "arrays in either model, and up to 11 surfaces or modes; every history of 3 (thorough: 4) operations from {edit either model, load, plot energies, "
        "linear, quadratic}; non-trivial: the two models differ in a sign")
ASSUMPTIONS = ["the matrices are symmetric in the surfaces", "figures are taken from Figure.savefig and inspected, latex does not run"]
OPS = ["vib", "orig", "load", "energy", "linear", "quadratic"]


def cases(tier):
    quick = tier == "quick"
    for signs in it.product((-1, 0, 1e-14, 1), repeat=3):
        for which in (0, 1):
            yield {"what": "signs", "A": 2, "signs": signs, "which": which}
    for signs in it.product((-1, 0, 1), repeat=6):
        if quick and signs.count(0) != 2:
            continue
        yield {"what": "signs", "A": 3, "signs": signs, "which": sum(s > 0 for s in signs) % 2}
    for A, N in it.product(range(1, 4 if quick else 5), range(1, 3 if quick else 4)):
        for orig, vib in it.product(it.product((False, True), repeat=2), repeat=2):
            yield {"what": "sizes", "A": A, "N": N, "orig": orig, "vib": vib}
    for A, N, G in ((1, 11, "linear"), (2, 10, "linear"), (1, 10, "quadratic"), (11, 1, "quadratic"), (11, 1, "linear")):
        yield {"what": "sizes", "A": A, "N": N, "orig": (G == "linear", G != "linear"), "vib": (G == "linear", G != "linear")}
    for history in it.product(OPS, repeat=3 if quick else 4):
        if set(history) & {"energy", "linear", "quadratic"}:
            yield {"what": "history", "history": history}


def panels(ax):
    """(image, signs by square) of one axes"""
    images = [np.array(i.get_array(), float) for i in ax.images]
    signs = {}
    for text in ax.texts:
        signs.setdefault(tuple(float(v) for v in text.get_position()), []).append(text.get_text())
    return images, signs


def judge(obs, drawn, matrix):
    """drawn: the axes of a figure"""
    obs.check(sum(len(images) for images, _ in drawn) == 1, "one grid per figure", drawn=drawn)
    images, signs = next(d for d in drawn if d[0])
    obs.check(images[0].shape == matrix.shape and np.array_equal(images[0], matrix), "the grid shows the numbers of the model",
              got=images[0], expected=matrix)
    want = {(float(a), float(b)): ["+" if matrix[b, a] > 0 else "-" if matrix[b, a] < 0 else "0"]
            for a, b in it.product(range(len(matrix)), repeat=2)}
    obs.check(signs == want, "every square carries the sign of its number", got=signs, expected=want)


def expected(FS, kind, orig, vib):
    """{path: matrix}, or None if the arrays are absent"""
    out = {}
    D = FS.id_data
    key = {"energy": "E", "linear": "G1", "quadratic": "G2"}[kind]
    if key not in orig or key not in vib:
        return None
    for name, model in (("original", orig), ("coupled", vib)):
        data = np.asarray(model[key], float)
        if kind == "energy":
            out[f"{name}_energy_grid_D{D}.pdf"] = data
        elif kind == "linear":
            for j in range(len(data)):
                out[f"{name}_linear_grid_D{D}_N{j + 1}.pdf"] = data[j]
        else:
            for i, j in it.product(range(len(data)), repeat=2):
                out[f"{name}_quadratic_grid_D{D}_N{i + 1}_N{j + 1}.pdf"] = data[i, j]
    return {os.path.abspath(os.path.join(FS.path_vib_plots, k)): v for k, v in out.items()}


def plot(obs, FS, grids, kind, loaded):
    from pibronic.plotting import grid_plots  # noqa: F401
    run = {"energy": grids.plot_energy, "linear": grids.plot_linear_coupling, "quadratic": grids.plot_quadratic_coupling}[kind]
    want = expected(FS, kind, *loaded)
    saved = {}
    with p28.figures(panels) as saved:
        try:
            run()
            obs.check(want is not None, "couplings that are absent cannot be plotted")
        except Exception as err:
            if want is not None or type(err).__name__ == "Violation":
                raise
            obs.check(not saved, "nothing is drawn of couplings that one of the models does not have", saved=list(saved))
            return
    obs.check(set(saved) == set(want), "one figure per matrix", saved=sorted(saved), expected=sorted(want))
    for path, matrix in want.items():
        judge(obs, saved[path], matrix)
    obs.step(len(want))


def model(A, N, groups, scale=1.0):
    m = c.vibronic_model(A, N, "e" + "".join(groups), scale)
    for key, letters in (("G1", "lL"), ("G2", "qQ")):
        if not set(letters) & set(groups):
            del m[key]
    return m


def execute(case, obs):
    from pibronic.plotting import grid_plots
    with obs.tmp() as root:
        if case["what"] == "history":
            history(case, obs, root)
        else:
            A, N = case["A"], case.get("N", 1)
            if case["what"] == "signs":
                models = [model(A, N, "ElLqQ"), model(A, N, "ElLqQ", -1.7)]
                E = np.zeros((A, A))
                for k, (a, b) in enumerate((a, b) for a in range(A) for b in range(a, A)):
                    E[a, b] = E[b, a] = case["signs"][k] * (0.4 + 0.1 * k)
                m = models[case["which"]]
                m["E"] = E
                m["G1"] = np.array([-E] * N)
                m["G2"] = np.array([[E * 2.0] * N] * N)
            else:
                models = [model(A, N, ("lL" if case[k][0] else "") + ("qQ" if case[k][1] else ""), s)
                          for k, s in (("orig", 1.0), ("vib", -1.3))]
            FS = c.file_structure(root, models[1], c.sampling_model(A, N), 7, 2)
            c.write_model(FS.path_orig_model, models[0])
            grids = grid_plots.plotGrids(FS)
            grids.load_data()
            for kind in ("energy", "linear", "quadratic"):
                plot(obs, FS, grids, kind, models)
        obs.state(*case.values())
        if case["what"] == "history" or not np.array_equal(np.sign(models[0]["E"]), np.sign(models[1]["E"])):
            obs.nontriv(*case.values())
        obs.trace()


def history(case, obs, root):
    from pibronic.plotting import grid_plots
    A, N = 2, 1
    models = {"orig": model(A, N, "ElLqQ"), "vib": model(A, N, "ElLqQ", -0.8)}
    FS = c.file_structure(root, models["vib"], c.sampling_model(A, N), 7, 2)
    c.write_model(FS.path_orig_model, models["orig"])
    grids = grid_plots.plotGrids(FS)
    grids.load_data()
    loaded = dict(models)
    for k, op in enumerate(case["history"]):
        obs.step()
        if op in ("vib", "orig"):
            models[op] = model(A, N, "ElLqQ", (-1) ** k * (1.2 + 0.1 * k))
            c.write_model(FS.path_vib_model if op == "vib" else FS.path_orig_model, models[op])
        elif op == "load":
            grids.load_data()
            loaded = dict(models)
        else:
            plot(obs, FS, grids, op, (loaded["orig"], loaded["vib"]))
