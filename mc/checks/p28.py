"""plots: every grid of analysed results, and histories of analyses, model edits and plots."""
import contextlib
import itertools as it
import json
import os

import numpy as np

from mc import common as c
from mc import outside

PROPERTY = "P28"
RULE = ("every assignment of {absent, current, of an older coupled model, of an older sampling model, without hashes} to the "
        "thermo files of a grid of beads x temperatures x samples, plotted on their own, against the exact results, and "
        "together with another sampling model; files with and without jackknife estimates; "
        "every assignment of present / absent to the exact results of two data sets; every history of 3 (thorough: 4) operations from {analyse a cell, edit the "
        "coupled or the sampling model, remove a file, plot}; non-trivial: some but not all of the cells are shown")
ASSUMPTIONS = ["figures are taken from Figure.savefig and inspected, latex does not run; modulecmd is a stand-in",
               "the files of exact results have the keys which the plots read"]
STATUS = ["absent", "current", "older vib", "older rho", "unhashed"]
KEYS = ["Z", "Z error", "E", "E error", "Cv", "Cv error", "jk_E", "jk_E error", "jk_Cv", "jk_Cv error"]
# grids of (P, T, X)
SMALL = [(5, 250.53, 100), (12, 250.53, 100), (12, 300.0, 100), (5, 300.0, 1000)]
CUBE = list(it.product((5, 12), (250.53, 300.0), (100, 1000000)))
LINE = [(P, T, 12345678) for T in (10.5, 10.75, 10.25) for P in (12, 2)]
OPS = ["cell 0", "cell 1", "cell 2", "vib", "rho", "remove", "plot", "plot anew"]


def cases(tier):
    quick = tier == "quick"
    for what in ("single", "original"):
        for status in it.product(STATUS, repeat=4):
            yield {"what": what, "grid": "small", "status": status}
    # results of the plain analysis have no jackknife estimates
    for what in ("single", "original"):
        for status in it.product(("absent", "current", "basic") if quick else (*STATUS, "basic"), repeat=4):
            if "basic" in status:
                yield {"what": what, "grid": "small", "status": status}
    for what, cells in (("multiple", 8), ("versus", 4)):
        for status in it.product(("current", "basic") if cells == 8 else ("absent", "current", "basic"), repeat=cells):
            if "basic" in status and not (quick and cells == 8 and status.count("basic") % 3):
                yield {"what": what, "grid": "cube" if cells == 8 else "versus", "status": status, "other": 4}
    for present in it.product((False, True), repeat=7):
        yield {"what": "exact", "present": present}
    for what in ("single", "multiple"):
        for status in it.product(STATUS[:2] if quick else STATUS[:3], repeat=8):
            if quick and what == "single" and sum(s == "absent" for s in status) % 2:
                continue
            yield {"what": what, "grid": "cube", "status": status}
    for what in ("single", "original"):
        for status in it.product(STATUS[:2] if quick else STATUS[:3], repeat=6):
            yield {"what": what, "grid": "line", "status": status}
    for status in it.product(STATUS[:3] if quick else STATUS, repeat=4):
        for data in (3, 4):
            yield {"what": "versus", "grid": "versus", "status": status, "other": data}
    for history in it.product(OPS, repeat=3 if quick else 4):
        if not any(op.startswith("cell") for op in history):
            continue
        yield {"what": "history", "history": history}


GRIDS = {"small": SMALL, "cube": CUBE, "line": LINE, "versus": [(5, 300.0, 100), (12, 300.0, 100), (5, 300.0, 1000), (40, 300.0, 1000)]}


def values(k):
    """distinct results; k identifies the writing"""
    return {key: (-1) ** (n // 2 + k) * (0.3 + 0.07 * n + 0.011 * k + 0.002 * n * k) if not key.endswith("error")
            else 0.01 + 0.003 * n + 0.001 * k for n, key in enumerate(KEYS)}


def basic(data):
    return {key: np.nan if key.startswith("jk") else v for key, v in data.items()}


def write(FS, cell, k, status="current"):
    P, T, X = cell
    data = dict(values(k))
    if status == "basic":
        data = {key: v for key, v in data.items() if not key.startswith("jk")}
    if status != "unhashed":
        data["hash_vib"] = FS.hash_vib if status != "older vib" else FS.hash_vib[:-1] + ("0" if FS.hash_vib[-1] != "0" else "1")
        data["hash_rho"] = FS.hash_rho if status != "older rho" else FS.hash_rho[:-1] + ("0" if FS.hash_rho[-1] != "0" else "1")
    path = os.path.join(FS.path_rho_results, f"P{P:d}_T{T:.2f}_X{X:d}_thermo")
    with open(path, "w") as file:
        json.dump(data, file)
    return path


@contextlib.contextmanager
def figures(inspect=None):
    """{path: what is drawn on its axes} of all figures that are saved"""
    import matplotlib
    matplotlib.use("agg")
    import matplotlib.figure
    import matplotlib.pyplot as plt
    saved = {}

    def savefig(self, fname, *args, **kwargs):
        saved[os.path.abspath(os.fspath(fname))] = [(inspect or curves)(ax) for ax in self.axes]

    keep = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = savefig
    params = matplotlib.rcParams.copy()
    try:
        with outside.Shell(lambda argv, text: ("", "", 0) if argv[0] == "modulecmd" else ("", "not found", 127)).installed():
            yield saved
    finally:
        matplotlib.figure.Figure.savefig = keep
        matplotlib.rcParams.update({k: params[k] for k in ("text.usetex", "text.latex.preamble", "font.family", "font.serif")})
        plt.close("all")


def curves(ax):
    """[(label, [(x, y, error)...])] of the curves with error bars, without the points that are not drawn"""
    out = []
    for container in ax.containers:
        line, caps, bars = container
        x, y = (np.asarray(a, float) for a in line.get_data())
        segments = bars[0].get_segments()
        points = []
        for n in range(len(x)):
            if not np.isfinite(y[n]):
                continue
            seg = np.asarray(segments[n], float)
            points.append((x[n], y[n], 0.5 * (seg[1][1] - seg[0][1])))
        if points:
            out.append((container.get_label(), sorted(points)))
    return sorted(out)


def label(quantity, T, X):
    return f"{quantity} (T={T:.2f}K) (X={X:.1E})"


def expected(shown, quantity, transform=lambda T, y, e: (y, e)):
    """shown: {cell: values}; one curve per temperature and number of samples, at tau = beta / P"""
    out = {}
    for (P, T, X), data in shown.items():
        y, e = transform(T, data[quantity], data[quantity + " error"])
        out.setdefault(label(quantity, T, X), []).append((c.beta_of(T) / P, y, e))
    return sorted((k, sorted(v)) for k, v in out.items())


def same(got, want):
    return [k for k, _ in got] == [k for k, _ in want] and all(
        len(a) == len(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12) for (_, a), (_, b) in zip(got, want))


def check_array(obs, arr, axes, shown, transform=None):
    Ps, Ts, Xs = axes
    obs.check([list(a) for a in axes] == [sorted({cell[n] for cell in shown}) for n in range(3)],
              "the beads, temperatures and samples are those of the current results", axes=axes, cells=list(shown))
    obs.check(arr.shape == (len(Ps), len(Ts), len(Xs)), "one entry per combination", shape=arr.shape)
    for (i, P), (j, T), (k, X) in it.product(enumerate(Ps), enumerate(Ts), enumerate(Xs)):
        for key in KEYS:
            got = arr[i, j, k][key]
            if (P, T, X) in shown:
                want = shown[P, T, X][key]
                if transform and key == "Z":
                    want = transform(T, want, 0.0)[0]
                if transform and key == "Z error":
                    want = transform(T, 0.0, want)[1]
                obs.check(np.isclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True), "the entry is that of the file", cell=(P, T, X),
                          key=key, got=got, want=want)
            else:
                obs.check(np.isnan(got), "an entry without a file is empty", cell=(P, T, X), key=key, got=got)


def single(obs, FS, shown):
    from pibronic.plotting import plotting
    with figures() as saved:
        plotter = plotting.plot_Z_test(FS)
        plotter.load_data()
        check_array(obs, plotter.arr, (plotter.lst_P[0], plotter.lst_T[0], plotter.lst_X[0]), shown)
        plotter.plot()
    obs.step(len(shown) + 1)
    names = {q: os.path.abspath(os.path.join(FS.path_rho_plots, f"{q}_D{FS.id_data}_R{FS.id_rho}.pdf")) for q in ("Z", "E", "Cv")}
    obs.check(set(saved) == set(names.values()), "one figure each of Z, E and Cv", saved=sorted(saved), names=names)
    for q, path in names.items():
        got = sorted(sum(saved[path], []))
        obs.check(same(got, expected(shown, q)), "the figure shows the results of the current models", quantity=q, got=got,
                  want=expected(shown, q))
        for drawn in saved[path]:
            obs.check(len({k.split("(T=")[1].split("K")[0] for k, _ in drawn}) <= 1, "every temperature has its own axes",
                      drawn=drawn)


EXACT = {250.53: (1.7, 0.81), 300.0: (2.3, 1.9), 10.75: (0.4, 1.1), 10.25: (0.9, 0.7), 10.5: (0.6, 1.2)}   # Z of rho, Z of the original model


def exact_files(FS, factor=1.0, factor_orig=1.0):
    with open(FS.path_analytic_rho, "w") as file:
        json.dump({f"{T:.2f}": {"Z_sampling": zr * factor, "E_sampling": -3.0, "Z_coupled": 77.0} for T, (zr, zc) in EXACT.items()}, file)
    with open(FS.path_analytic_orig, "w") as file:
        json.dump({f"{T:.2f}": {"Z_coupled": zc * factor_orig, "E_coupled": -5.0, "Z_sampling": 55.0} for T, (zr, zc) in EXACT.items()}, file)


def percent(factor=1.0, factor_orig=1.0):
    def transform(T, y, e):
        zr, zc = EXACT[T]
        zr *= factor
        zc *= factor_orig
        return 100.0 * (y * zr - zc) / zc, 100.0 * e * zr / zc
    return transform


def original(obs, FS, shown):
    from pibronic.plotting import plotting
    exact_files(FS)
    with figures() as saved:
        plotter = plotting.plot_original_Z_test(FS)
        plotter.load_data()
        check_array(obs, plotter.arr, (plotter.lst_P[0], plotter.lst_T[0], plotter.lst_X[0]), shown, percent())
        if shown:
            plotter.plot()
    obs.step(len(shown) + 1)
    if not shown:
        return
    path = os.path.abspath(os.path.join(FS.path_rho_plots, f"Z_orig_D{FS.id_data}_R{FS.id_rho}.pdf"))
    obs.check(set(saved) == {path}, "one figure", saved=sorted(saved))
    got = sorted(sum(saved[path], []))
    want = expected(shown, "Z", percent())
    obs.check(same(got, want), "the figure shows the difference of the current results to the exact ones", got=got, want=want)


def multiple(obs, FS, other, shown, shown_other):
    from pibronic.plotting import plotting
    for pair, parts in (([FS, other], [shown, shown_other]), ([other, FS], [shown_other, shown])):
        if not shown and not shown_other:
            try:
                plotting.plot_Z_multiple_FS(pair)
                obs.check(False, "nothing to plot is reported")
            except Exception as err:
                obs.check("empty" in str(err), "nothing to plot is reported", err=err)
            continue
        plotter = plotting.plot_Z_multiple_FS(pair)
        plotter.load_data()
        obs.step(len(shown) + 1)
        for n, part in enumerate(parts):
            check_array(obs, plotter.arr[n], (plotter.lst_P[n], plotter.lst_T[n], plotter.lst_X[n]), part)


def versus(obs, FS, other, shown, shown_other):
    from pibronic.plotting import plotting
    exact_files(FS)
    factors = (1.0, 1.0), (1.3, 0.9 if other.id_data != FS.id_data else 1.0)
    exact_files(other, *factors[1])
    if not shown and not shown_other:
        return
    with figures() as saved:
        plotter = plotting.plot_original_Z_vs_diagonal_test([FS, other])
        plotter.load_data()
        for n, (part, f) in enumerate(zip((shown, shown_other), factors)):
            check_array(obs, plotter.arr[n], (plotter.lst_P[n], plotter.lst_T[n], plotter.lst_X[n]), part, percent(*f))
        plotter.plot()
    obs.step(len(shown) + 1)
    path = os.path.abspath(os.path.join(FS.path_vib_plots, f"Z_orig_D{FS.id_data}_R{FS.id_rho}_R{other.id_rho}.pdf"))
    obs.check(set(saved) == {path}, "one figure", saved=sorted(saved))
    got = sorted(sum(saved[path], []), key=lambda curve: curve[1])
    want = []
    for model, part, f in ((FS, shown, factors[0]), (other, shown_other, factors[1])):     # the largest number of samples of each
        most = max((cell[2] for cell in part), default=None)
        for k, points in expected({cell: v for cell, v in part.items() if cell[2] == most}, "Z", percent(*f)):
            want.append((points, f"={model.id_rho:d})", f"(X={most:.1E})"))
    want.sort()
    obs.check(len(got) == len(want) and all(
        rho in name and X in name and len(a) == len(b) and np.allclose(a, b, rtol=1e-9)
        for (name, a), (b, rho, X) in zip(got, want)),
        "the figure shows both sampling models' differences to the exact results", got=got, want=want)


def exact(case, obs, root):
    """the exact results that the plots compare with are those of the data set they belong to"""
    from pibronic.plotting import plotting
    sets = [c.file_structure(root, c.vibronic_model(2, 1, "el"), c.sampling_model(2, 1), d, 1) for d in (3, 4)]
    cells = [SMALL[:3], [(5, 300.0, 100), (40, 300.0, 100)]]
    names = ("Z_trotter", "E_trotter", "SvN_trotter", "S2_trotter")
    trotter = ((0, 5), (0, 12), (1, 5))             # (data set, beads)
    sos, others = case["present"][:2], dict(zip(trotter, case["present"][2:5]))
    original, rho = case["present"][5:]
    value = lambda *key: 0.5 + 0.01 * (sum(ord(x) * (n + 1) for n, x in enumerate(str(key))) % 997)  # noqa: E731
    for d, FS in enumerate(sets):
        FS.generate_model_hashes()
        for k, cell in enumerate(cells[d]):
            write(FS, cell, k)
        temperatures = [f"{T:.2f}" for T in (250.53, 280.0, 300.0)]

        def store(path, kind, keys=("Z_coupled", "E_coupled"), extra=()):
            with open(path, "w") as file:
                json.dump({t: {key: value(kind, d, t, key) for key in keys} for t in temperatures}, file)
        if sos[d]:
            store(FS.template_sos_vib.format(B=80), "sos")
        store(FS.template_sos_vib.format(B=8), "sos 8")
        store(FS.template_sos_rho.format(B=80), "sos rho")
        for P in (5, 12, 40):
            if others.get((d, P), True):
                store(FS.template_trotter_vib.format(P=P, B=80), f"trotter {P}", names)
            store(FS.template_trotter_vib.format(P=P, B=8), f"trotter 8 {P}", names)
        if original or not d:
            store(FS.path_analytic_orig, "original")
        if rho or not d:
            store(FS.path_analytic_rho, "rho")
    for order in ((0, 1), (1, 0)):
        plotter = plotting.plot_rectangle([sets[d] for d in order])
        jobs = (("sos", plotting.load_sos, "sos_list", sos), ("original", plotting.load_analytical_original, "analytical_orig_list", (True, original)),
                ("rho", plotting.load_analytical_sampling, "analytical_rho_list", (True, rho)))
        for kind, load, where, present in jobs:
            obs.step()
            try:
                load(plotter)
            except Exception:
                obs.check(not all(present), "exact results which exist are loaded", kind=kind, present=present)
                continue
            for n, d in enumerate(order):
                Ts = [f"{T:.2f}" for T in sorted({cell[1] for cell in cells[d]})]
                got = getattr(plotter, where)[n]
                want = {t: {key: value(kind, d, t, key) for key in ("Z_coupled", "E_coupled")} for t in Ts} if present[d] else {}
                obs.check({t: v for t, v in got.items() if v} == want, "the exact results are those of the data set",
                          kind=kind, data_set=d, got=got, want=want)
        plotting.load_trotter_coupled(plotter)
        obs.step()
        for n, d in enumerate(order):
            Ps = sorted({cell[0] for cell in cells[d]})
            got = plotter.trotter_coupled_list[n]
            obs.check(sorted(got) == [f"{T:.2f}" for T in sorted({cell[1] for cell in cells[d]})], "all the temperatures", got=got)
            for t in got:
                for key in names:
                    want = [value(f"trotter {P}", d, t, key) if others.get((d, P), True) else np.nan for P in Ps]
                    obs.check(np.array_equal(got[t][key], want, equal_nan=True), "the trotter results are those of the "
                              "data set and the beads", data_set=d, temperature=t, key=key, got=got[t][key], want=want)
    obs.state("exact", *case["present"])
    if not all(case["present"]):
        obs.nontriv("exact", *case["present"])
    obs.trace()


def history(case, obs, root):
    A, N = 2, 1
    FS = c.file_structure(root, c.vibronic_model(A, N, "el"), c.sampling_model(A, N), 3, 1)
    FS.generate_model_hashes()
    files, edits = {}, 0              # cell -> (hashes, values)
    for k, op in enumerate((*case["history"], "plot anew")):
        obs.step()
        if op.startswith("cell"):
            cell = SMALL[int(op.split()[1])]
            write(FS, cell, k + 3)
            files[cell] = (FS.hash_vib, FS.hash_rho, values(k + 3))
        elif op == "remove":
            if files:
                cell = sorted(files)[0]
                P, T, X = cell
                os.remove(os.path.join(FS.path_rho_results, f"P{P:d}_T{T:.2f}_X{X:d}_thermo"))
                del files[cell]
        elif op in ("vib", "rho"):
            edits += 1
            if op == "vib":
                c.write_model(FS.path_vib_model, c.vibronic_model(A, N, "el", scale=1.0 + 0.1 * edits))
            else:
                c.write_model(FS.path_rho_model, c.sampling_model(A, N, scale=1.0 + 0.1 * edits))
            FS.generate_model_hashes(force_flag=True)
        else:
            shown = {cell: v for cell, (hv, hr, v) in files.items() if (hv, hr) == (FS.hash_vib, FS.hash_rho)}
            used = FS
            if op == "plot anew":
                from pibronic.data import file_structure as fs
                used = fs.FileStructure(root, 3, 1)
            single(obs, used, shown)
        obs.state("history", *case["history"][:k + 1])
        if 0 < sum((hv, hr) == (FS.hash_vib, FS.hash_rho) for hv, hr, _ in files.values()) < len(files):
            obs.nontriv("history", *case["history"])


def execute(case, obs):
    with obs.tmp() as root:
        if case["what"] == "exact":
            exact(case, obs, root)
            return
        if case["what"] == "history":
            history(case, obs, root)
            obs.trace()
            return
        FS = c.file_structure(root, c.vibronic_model(2, 1, "el"), c.sampling_model(2, 1), 3, 1)
        FS.generate_model_hashes()
        shown = {}
        cells = GRIDS[case["grid"]]
        for k, (cell, status) in enumerate(zip(cells, case["status"])):
            if status == "absent":
                continue
            write(FS, cell, k, status)
            if status in ("current", "basic"):
                shown[cell] = values(k) if status == "current" else basic(values(k))
        # another data set and another sampling model in the same root never show up
        stranger = c.file_structure(root, c.vibronic_model(2, 1, "el"), c.sampling_model(2, 1), 30, 1)
        stranger.generate_model_hashes()
        write(stranger, (7, 300.0, 100), 50)
        id_data = case.get("other", 3)
        other = c.file_structure(root, None if id_data == 3 else c.vibronic_model(2, 1, "el"), c.sampling_model(2, 1, scale=0.7), id_data, 0)
        other.generate_model_hashes()
        shown_other = {}
        for k, cell in enumerate(cells[1:3]):
            write(other, cell, 20 + k)
            shown_other[cell] = values(20 + k)
        if case["what"] == "single":
            single(obs, FS, shown)
        elif case["what"] == "original":
            original(obs, FS, shown)
        elif case["what"] == "multiple":
            if case["status"][0] == "absent":
                for P, T, X in cells[1:3]:
                    os.remove(os.path.join(other.path_rho_results, f"P{P:d}_T{T:.2f}_X{X:d}_thermo"))
                shown_other = {}
            multiple(obs, FS, other, shown, shown_other)
            multiple(obs, FS, stranger, shown, {(7, 300.0, 100): values(50)})
        else:
            if shown:
                versus(obs, FS, other, shown, shown_other)
        obs.state(case["what"], case["grid"], *case["status"])
        if 0 < len(shown) < len(cells):
            obs.nontriv(case["what"], case["grid"], *case["status"])
        obs.trace()
