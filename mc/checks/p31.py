"""parsing of .h files: every parameter of the pair of files ends up in its place, exactly once."""
import itertools as it
import os

import numpy as np

from mc import common as c

PROPERTY = "P31"
RULE = ("a case is (surfaces, symmetric modes, other modes, frequencies of the modes chosen from an alphabet in which one "
        "frequency is part of another); for every element of the linear terms and of the reference Hamiltonian one pair of "
        "files with that element alone and for every pair of elements one with both, one with all elements; every pair of "
        "files is also read directly after any other one of a set of different sizes; every history of that length is imported "
        "into one or two data sets, with an incomplete pair of files before every import; every missing section or block and "
        "every asymmetric element is tried; non-trivial: two modes share a frequency or one is part of the other")
ASSUMPTIONS = ["files have the layout of tests/test_models/*/electronic_structure, blocks in the order of the modes, "
               "headers with the frequency in wavenumbers (8065.5 per eV) with two decimals",
               "second order terms are documented as not extracted; no claim is made for them"]
FREQS = [0.0200, 0.0400, 0.2000, 0.0028, 0.1000, 0.3]      # eV
PART = [22.62 / 8065.5, 322.62 / 8065.5]      # the digits of the first one are part of the other


def cases(tier):
    quick = tier == "quick"
    for A, n in it.product((1, 2, 3) if quick else (1, 2, 3, 4), (1, 2, 3)):
        pool = [FREQS[0], FREQS[2], PART[0], PART[1]]
        for w in it.product(pool, repeat=n):
            if quick and n == 3 and (A != 2 or len(set(w)) == 3):
                continue
            for sym in range(1, n + 1) if n > 1 else (0, 1):
                yield {"what": "terms", "A": A, "w": w, "sym": sym}
    for A, n in [(2, 12), (5, 4), (10, 2), (2, 40), (4, 26)]:
        yield {"what": "terms", "A": A, "w": [round(0.011 * (k % 7 + 1), 6) for k in range(n)], "sym": n // 2}
    sizes = [(1, 1, 1), (2, 2, 1), (3, 1, 1), (2, 3, 2), (3, 3, 3)]
    for history in it.product(sizes, repeat=2 if quick else 3):
        yield {"what": "history", "history": history}
    for history in it.product(sizes, repeat=2 if quick else 3):
        yield {"what": "import", "history": history}
    for A, n in [(1, 1), (2, 1), (2, 2), (2, 3), (3, 2)]:
        yield {"what": "refused", "A": A, "n": n}


def write(path, A, w, sym, E, G1, drop=(), units=0):
    """the pair of files; `drop`: names of sections, or numbers of blocks of linear terms which are left out"""
    n = len(w)
    lines = [f"     {units}              ! units in eV"]
    for name, value in (("Number of electronic states", A), ("Number of symmetric normal modes ", sym),
                        ("Number of non-A1 normal modes ", n - sym)):
        if name.strip() not in drop:
            lines.append(f"     {value}              ! {name}")
    lines += ["   500              ! Number of Lanczos iterations ", "   0   0",
              "   " + "   ".join(repr(float(x)) for x in w[:sym]), "",
              "   " + "   ".join(repr(float(x)) for x in w[sym:]), "   0.100", "   3.000", " auto", "", "*vibron", "*end"]
    with open(path[:-2] + ".in", "w") as file:
        file.write("\n".join(lines) + "\n")
    cm = [f"{x * 8065.5:.2f}" for x in w]
    rule = "-" * 70
    out = ["", "              Vibronic Coupling elements for case             HEFF_IP2          ", rule, rule, "",
           f"  Vibronic grid in ACESII :    {n}", f"  Number of modes per symmetry   {n}",
           f"  [ ]      {n}  A          " + " ".join(cm), "", "        Gradients parent energy along normal modes", rule, ""]
    out += [f"  Normal mode {i + 1:4d}   Gradient :0.0E0" for i in range(n)]
    out += ["", "                   Diagonal Hessian parent energy", rule, ""]
    out += [f"  Normal mode {i + 1:4d}    Frequency :  {cm[i]} cm-1    {w[i]:.4f} eV" for i in range(n)] + [""]

    def rows(matrix):
        return ["  ".join(f"{v:14.8f}" for v in row) for row in matrix]
    if "Reference Hamiltonian" not in drop:
        out += ["                            Reference Hamiltonian"] + rows(E) + ["", ""]
    if "Gradients" not in drop:
        out += ["  Gradients of heff along normal modes ", rule, ""]
    for i in range(n):
        if i not in drop:
            out += [f"  Normal mode :{i + 1:4d} Frequency :{cm[i]:>10}"] + rows(G1[i]) + [""]
    if "Diagonal second order" not in drop:
        out += ["", "  Diagonal second order corrections of heff", rule, ""]
    for i in range(n):      # other numbers below the same headers
        out += [f"  Normal mode :{i + 1:4d} Frequency :{cm[i]:>10}"] + rows(np.full((A, A), 0.7 + i)) + [""]
    out += ["", "  Off-diagonal second order corrections heff", rule, ""]
    for i in range(n):
        for j in range(i):
            out += [f"  [1] {i + 1:5d} {cm[i]:>11} {j + 1:8d} {cm[j]:>11}"] + rows(np.full((A, A), -0.3 - i - j)) + [""]
    with open(path, "w") as file:
        file.write("\n".join(out) + "\n")


def read(path):
    from pibronic.vibronic import model_h
    return model_h.read_model_h_file(path)


def compare(obs, path, A, w, E, G1):
    from pibronic.vibronic import VMK
    with open(path, "rb") as file, open(path[:-2] + ".in", "rb") as other:
        before = file.read(), other.read()
    got = read(path)
    obs.step()
    obs.check((got[VMK.A], got[VMK.N]) == (A, len(w)), "the number of surfaces and modes", got=(got[VMK.A], got[VMK.N]))
    for key, want, what in ((VMK.w, np.array(w), "frequencies"), (VMK.E, E, "energies"), (VMK.G1, G1, "linear terms")):
        a = np.asarray(got[key])
        obs.check(a.shape == want.shape and np.allclose(a, want, rtol=0, atol=1e-12),
                  f"the {what} of the files are in their places", frequencies=w, got=a, expected=want)
    with open(path, "rb") as file, open(path[:-2] + ".in", "rb") as other:
        obs.check((file.read(), other.read()) == before, "the files are not changed")
    return got


def full(A, n, shift=0.0):
    E = np.zeros((A, A))
    G1 = np.zeros((n, A, A))
    for k, (a, b) in enumerate((a, b) for a in range(A) for b in range(a, A)):
        E[a, b] = E[b, a] = round((-1)**k * (0.1 + 0.0137 * k) + shift, 8)
        for i in range(n):
            G1[i, a, b] = G1[i, b, a] = round((-1)**(k + i) * (0.02 + 0.00413 * k + 0.1 * i) - shift, 8)
    return E, G1


def execute(case, obs):
    with obs.tmp() as root:
        folder = os.path.join(root, "mol.h.in")      # looks like a file name
        os.mkdir(folder)
        path = os.path.join(folder, "model_vibron.h")
        if case["what"] == "terms":
            A, w = case["A"], list(case["w"])
            n = len(w)
            E, G1 = full(A, n)
            write(path, A, w, case["sym"], E, G1)
            compare(obs, path, A, w, E, G1)
            places = [(a, b) for a in range(A) for b in range(a, A)]
            places = [("E",) + p for p in places] + [(i,) + p for i in range(n) for p in places]
            chosen = [(p,) for p in places] + (list(it.combinations(places, 2)) if len(places) <= 12 else [])
            for some in chosen:
                E1, G2 = np.zeros((A, A)), np.zeros((n, A, A))
                for k, (i, a, b) in enumerate(some):
                    target = E1 if i == "E" else G2[i]
                    target[a, b] = target[b, a] = round((-1)**k * (0.0173 + 0.01 * k), 6)
                write(path, A, w, case["sym"], E1, G2)
                compare(obs, path, A, w, E1, G2)
            cm = [f"{x * 8065.5:.2f}" for x in w]
            if any(x in y for x, y in it.permutations(cm, 2)):
                obs.nontriv(*case.values())
        elif case["what"] == "history":
            kept = []
            for k, (A, n, sym) in enumerate(case["history"]):
                path = os.path.join(root, f"model{k}_vibron.h")
                E, G1 = full(A, n, 0.01 * k)
                w = [round(FREQS[(i + k) % 4], 6) for i in range(n)]
                write(path, A, w, sym, E, G1)
                kept.append((compare(obs, path, A, w, E, G1), E, G1))
            from pibronic.vibronic import VMK
            for got, E, G1 in kept:     # what was returned earlier does not change
                obs.check(np.allclose(got[VMK.E], E, rtol=0, atol=1e-12) and np.allclose(got[VMK.G1], G1, rtol=0, atol=1e-12),
                          "reading a file does not change the model read before")
            if len(set(case["history"])) > 1:
                obs.nontriv(*case.values())
        elif case["what"] == "import":
            imports(case, obs, root)
        else:
            refused(case, obs, path)
        obs.state(*case.values())
        obs.trace()


def imports(case, obs, root):
    """models imported one after the other, in the same or another data set, and an import that is refused"""
    from pibronic.data import file_structure
    from pibronic.vibronic import VMK, vIO
    stored = {}

    def judge():
        for d, (A, w, E, G1) in stored.items():
            model = vIO.load_model_from_JSON(places[d].path_vib_model)
            obs.check((model[VMK.A], model[VMK.N]) == (A, len(w)) and
                      all(np.array_equal(np.asarray(model[key]) if key in model else np.zeros_like(want), want)
                          for key, want in ((VMK.w, np.array(w)), (VMK.E, E), (VMK.G1, G1))) and
                      not np.any(model.get(VMK.G2, 0.0)),
                      "the stored model is the one that was imported last for its data set", data_set=d, got=model)
        obs.check({d for d in places if os.path.exists(places[d].path_vib_model)} == set(stored),
                  "only models that were imported are stored")

    for sets in it.product((3, 4), repeat=len(case["history"])):
        base = os.path.join(root, "_".join(map(str, sets)))
        os.mkdir(base)
        places = {}
        for d in (3, 4):
            places[d] = file_structure.FileStructure(base, d, 0)
            places[d].make_directories()
        stored.clear()
        for k, ((A, n, sym), d) in enumerate(zip(case["history"], sets)):
            path = os.path.join(places[d].path_es, "model_vibron.h")
            E, G1 = full(A, n, 0.01 * k)
            w = [round(FREQS[(i + k) % 4], 6) for i in range(n)]
            write(path, A, w, sym, E, G1, drop=("Gradients",))
            try:
                vIO.create_coupling_from_h_file(places[d], path)
                obs.check(False, "incomplete files are not imported")
            except Exception:
                pass
            obs.step()
            judge()
            write(path, A, w, sym, E, G1)
            got = vIO.create_coupling_from_h_file(places[d], path)
            obs.check(got == places[d].path_vib_model, "the path of the stored model is returned", got=got)
            stored[d] = (A, w, E, G1)
            obs.step()
            judge()
        if len(set(sets)) > 1:
            obs.nontriv(*case.values(), sets)


def refused(case, obs, path):
    A, n = case["A"], case["n"]
    w = FREQS[:n]
    E, G1 = full(A, n)

    def must_fail(what):
        obs.step()
        try:
            got = read(path)
        except Exception:
            return
        obs.check(False, "incomplete or inconsistent files are refused", what=what, got=got)
    write(path, A, w, n, E, G1)
    compare(obs, path, A, w, E, G1)
    for name in ["Number of electronic states", "Number of symmetric normal modes", "Number of non-A1 normal modes",
                 "Reference Hamiltonian", "Gradients", "Diagonal second order", *range(n)]:
        write(path, A, w, n, E, G1, drop=(name,))
        must_fail(f"without {name}")
    for target in [E, *G1]:
        for a, b in it.permutations(range(A), 2):
            old = target[a, b]
            target[a, b] += 0.01 if a < b else 1e-4
            write(path, A, w, n, E, G1)
            must_fail(f"asymmetric in {a} {b}")
            target[a, b] = old
    write(path, A, w, n, E, G1)
    compare(obs, path, A, w, E, G1)
    for name in (path, path[:-2] + ".in"):
        with open(name) as file:
            text = file.read()
        os.remove(name)
        must_fail(f"without the file {os.path.basename(name)}")
        with open(name, "w") as file:
            file.write(text)
    obs.nontriv(*case.values())
