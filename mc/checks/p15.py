"""parsing of .op files: every parameter of the file ends up in its place, exactly once."""
import itertools as it
import os

import numpy as np

from mc import common as c

PROPERTY = "P15"
RULE = ("a case is (surfaces, modes, kind of term); for every admissible index of that kind one file with that term alone "
        "is written and parsed, for every pair of indices one file with both, and one file with all the terms of all "
        "kinds; non-trivial: the term is off the surface diagonal or couples two modes")
ASSUMPTIONS = ["files have all the section headers, in the order of the program that writes them, and name a pair of "
               "surfaces as s_a s_b with a <= b and a pair of modes of a quadratic term as v_i v_j with i >= j",
               "numbers are written with six to ten decimals"]
KINDS = {"C1": ("linear", 1), "C2": ("quadratic", 2), "C3": ("cubic", 1), "C4": ("quartic", 1),
         "B3": ("bicubic", 2), "B4": ("biquartic", 2), "A4": ("biquartic", 2)}


def cases(tier):
    sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)] if tier == "quick" else [
        (1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2)]
    for A, N in sizes:
        for kind in KINDS:
            for noise in (False, True):
                yield {"A": A, "N": N, "kind": kind, "noise": noise}
    for A, N in sizes + [(2, 12), (12, 2), (11, 11), (1, 26)]:
        yield {"A": A, "N": N, "kind": "all", "noise": True}


def terms(kind, A, N):
    """all admissible (label, index) of one kind"""
    for a in range(A):
        for b in range(a, A):
            for i in range(N):
                if KINDS[kind][1] == 1:
                    n = {"C1": 1, "C3": 3, "C4": 4}[kind]
                    yield f"{kind}_s{a+1:02}_s{b+1:02}_v{i+1:02}", (i,) * n + (a, b)
                    continue
                for j in range(N):
                    label = f"{kind}_s{a+1:02}s{b+1:02}_v{i+1:02}v{j+1:02}"
                    if kind == "C2" and j <= i:
                        yield label, (i, j, a, b)
                    if kind == "B3" and i != j:
                        yield label, (i, j, j, a, b)
                    if kind == "B4" and i != j:
                        yield label, (i, j, j, j, a, b)
                    if kind == "A4" and i < j:
                        yield label, (i, i, j, j, a, b)


ARRAY = {"C1": "G1", "C2": "G2", "C3": "G3", "B3": "G3", "C4": "G4", "B4": "G4", "A4": "G4"}


def write(path, A, N, energies, freqs, chosen, noise):
    """chosen: list of (kind, label, value)"""
    digits = 10 if noise else 6

    def lines(kinds):
        return [f"{label:<25}= {value:14.{digits}f}    , ev " for kind, label, value in chosen if kind in kinds]

    quad_diag = [(k, l, v) for k, l, v in chosen if k == "C2" and l.split("_v")[1][:2] == l.split("v")[-1]]
    quad_off = [(k, l, v) for k, l, v in chosen if k == "C2" and (k, l, v) not in quad_diag]

    def fmt(items):
        return [f"{label:<25}= {value:14.{digits}f}    , ev " for kind, label, value in items]
    out = ["OP_DEFINE-SECTION", "title", "IP", "end-title", "end-op_define-section", ""]
    out += ["# some comment" if noise else "", "PARAMETER-SECTION", "", ""]
    out += ["#        Frequencies ", "# ------------------------ ", ""]
    out += [f"w{i+1:02}                      = {w:14.6f}    , ev " for i, w in enumerate(freqs)]
    out += ["", "#        Zeropoint energy     1.247753", "", "#   Electronic Hamitonian ",
            "#   Vertical energies - Zeropoint ", "# ------------------------------- ", ""]
    out += [f"EH_s{a+1:02}_s{a+1:02}               = {e:14.6f}    , ev " for a, e in enumerate(energies)]
    out += ["", "#     Electronic transition moments ", "# ----------------------------------"]
    if noise:
        out += ["", "# tmom in direction Ex", "Ex_s02_s01               =       0.100000    , ev ", ""]
    out += ["#     Magnetic transition moments ", "# ----------------------------------"]
    if noise:
        out += ["", "# tmom in direction Mx", "Mx_s02_s01               =       0.100000    , ev ", ""]
    out += ["#  Linear Coupling Constants ", "# -------------------------- ", ""] + lines(["C1"])
    out += ["", "#  Diagonal Quadratic Coupling Constants ", "# -------------------------------------- ", ""]
    out += fmt(quad_diag)
    out += ["", "# Off_diagonal Quadratic Coupling Constants ", "# ----------------------------------------- ", ""]
    out += fmt(quad_off)
    out += ["", "#  Cubic Coupling Constants ", "# -------------------------- ", ""] + lines(["C3"])
    out += ["", "#  Quartic Coupling Constants ", "# -------------------------- ", ""] + lines(["C4"])
    out += ["", "#  Bi-Cubic Constants ", "# -------------------------- ", ""] + lines(["B3"])
    out += ["", "#  Bi-Quartic Constants ", "# -------------------------- ", ""] + lines(["B4", "A4"])
    out += ["", "", "end-parameter-section", ""]
    if noise:
        out += ["HAMILTONIAN-SECTION ", "modes | el | v01", "C1_s01_s01_v01 |1 S1&1 |2 q", "end-hamiltonian-section", ""]
    with open(path, "w") as file:
        file.write("\n".join(out) + "\n")


def execute(case, obs):
    from pibronic.vibronic import VMK, vIO
    A, N, kind = case["A"], case["N"], case["kind"]
    energies = [round(1.5 - 0.37 * a, 6) for a in range(A)]
    freqs = [round(0.02 + 0.007 * i, 6) for i in range(N)]
    if case["noise"]:       # in no order, some of them equal (degenerate modes and states)
        energies = [round(0.4 + 0.37 * (a * 3 % 4 % 3), 6) for a in range(A)]
        freqs = [round(0.05 - 0.007 * (i * 2 % 5 // 2), 6) for i in range(N)]
    if kind == "all":
        everything = [(k, l, i) for k in KINDS for l, i in terms(k, A, N)]
        sets = [everything, everything[::2], []]
    else:
        own = [(kind, l, i) for l, i in terms(kind, A, N)]
        sets = [[t] for t in own]
        if len(own) <= 30:
            sets += [list(p) for p in it.combinations(own, 2)]
        sets.append(own)
    with obs.tmp() as root:
        FS = c.file_structure(root, None, None)
        path = os.path.join(root, "model.op")
        tail = {"G1": (N,), "G2": (N, N), "G3": (N,) * 3, "G4": (N,) * 4}
        for chosen in sets:
            expected = {k: np.zeros(s + (A, A)) for k, s in tail.items()}
            rows = []
            for n, (k, label, index) in enumerate(chosen):
                value = round((-1)**n * (0.013 + 0.000731 * n), 6)
                if case["noise"] and (len(chosen) < 3 or n % 3 == 1):
                    value = round(value * 1e-7, 10)     # small terms are terms
                rows.append((k, label, value))
                places = {index, index[:-2] + index[:-3:-1]}
                if k == "C2":
                    places |= {(p[1], p[0]) + p[2:] for p in places}
                for p in places:
                    expected[ARRAY[k]][p] = value
            write(path, A, N, energies, freqs, rows, case["noise"])
            with open(path, "rb") as file:
                before = file.read()
            vIO.create_coupling_from_op_file(FS, path)
            obs.step()
            for got in (vIO.read_model_op_file(path), vIO.load_model_from_JSON(FS.path_vib_model)):
                obs.check((got[VMK.A], got[VMK.N]) == (A, N), "the number of surfaces and modes")
                obs.check(np.array_equal(got[VMK.E], np.diag(energies)), "the energies of the file", got=got[VMK.E])
                obs.check(np.array_equal(got[VMK.w], freqs), "the frequencies of the file", got=got[VMK.w])
                for k in expected:
                    a = got.get(VMK[k], np.zeros_like(expected[k]))
                    obs.check(a.shape == expected[k].shape and np.allclose(a, expected[k], rtol=0, atol=1e-14),
                              "every term of the file is in its place, once, symmetric in the surfaces",
                              terms=rows if len(rows) < 6 else len(rows), array=k,
                              wrong=[(i, float(a[i]), float(expected[k][i])) for i in
                                     map(tuple, np.argwhere(~np.isclose(a, expected[k], rtol=0, atol=1e-14)))][:8]
                              if a.shape == expected[k].shape else a.shape)
            with open(path, "rb") as file:
                obs.check(file.read() == before, "the .op file is not changed")
            obs.trace()
            obs.state(A, N, case["noise"], [t[1] for t in chosen])
            if any(t[2][-1] != t[2][-2] or len(set(t[2][:-2])) > 1 for t in chosen):
                obs.nontriv(A, N, case["noise"], [t[1] for t in chosen])
        missing = os.path.join(root, "missing.op")
        try:
            vIO.read_model_op_file(missing)
        except Exception:
            pass
        else:
            obs.check(False, "a missing file is refused")
