"""g(R) and rho(R) are the path integral integrands of the model files, at every enumerated R."""
import glob
import itertools as it
import os

import numpy as np

from mc import common as c

PROPERTY = "P01"
RULE = ("a case is (surfaces, modes, which parameter groups of the model are non-zero, surfaces of rho, beads, "
        "temperature); within it every assignment of the grid values to all bead positions is executed; "
        "non-trivial: at least one coupling group is on and g differs from the uncoupled value")
ASSUMPTIONS = ["bead positions outside the grid {-1.3, 0.2, 0.9} behave like the enumerated ones (the integrands "
               "are analytic in R)", "floating point agreement to 1e-8 relative"]
GRID = (-1.3, 0.2, 0.9)

ODD = ("degenerate energies", "equal frequencies", "negative energies", "half coupled", "unsymmetric modes", "one mode",
       "zero linear", "far energies", "no absolute energies", "strong coupling", "huge coupling", "steep", "far bead")


def subsets(letters):
    return ["".join(s) for k in range(len(letters) + 1) for s in it.combinations(letters, k)]


def cases(tier):
    beads = (3, 4) if tier == "quick" else (3, 4, 5, 6)
    for A, N in it.product((1, 2, 3), (1, 2)):
        for groups in subsets("elq" if A == 1 else "elELqQ"):
            for S in (1, 2, 3):
                for P in beads:
                    full = len(groups) in (3 if A == 1 else 6, 5)
                    if tier == "quick" and P > 3 and not full:
                        continue
                    for T in (300.0, 150.0) if full else (300.0,):
                        yield {"A": A, "N": N, "groups": groups, "S": S, "P": P, "T": T,
                               "values": 3 if N * P <= (6 if tier != "quick" else 4) else 2}
    # more surfaces, modes and beads, and models with a peculiarity: fixed bead positions
    for A, N, S in ((1, 4, 3), (2, 3, 1), (3, 3, 3), (4, 1, 2), (4, 4, 4), (5, 2, 3), (6, 3, 2), (2, 9, 2), (3, 11, 5)):
        for P, T in ((3, 300.0), (4, 77.4), (7, 287.65), (12, 300.0), (33, 300.0), (64, 1250.0)):
            for odd in [o for k in range(2 if tier == "quick" else 3) for o in it.combinations(ODD, k)]:
                if tier == "quick" and odd and P not in (4, 7) and not (odd == ("steep",) and P == 64):
                    continue
                yield {"kind": "spot", "A": A, "N": N, "groups": "elELqQ" if A > 1 else "elq", "S": S, "P": P, "T": T,
                       "odd": list(odd)}
    # the model files are edited between runs of the same process
    for A, N, S, P in it.product((1, 2, 3), (1, 2), (1, 2, 3), (3, 4)):
        yield {"kind": "edit", "A": A, "N": N, "groups": "elELqQ" if A > 1 else "elq", "S": S, "P": P, "T": 300.0}
    # sampling runs: bead positions which are known whatever the code does with the normal deviates
    for A, N, S in it.product((1, 2, 3), (1, 2), (1, 2, 3)):
        for groups in ("", "el", "elq") if A == 1 else ("", "el", "ELQ", "elELqQ"):
            for P in (3,) if tier == "quick" else (3, 4, 5):
                for pm in (False, True):
                    if tier == "quick" and pm and len(groups) < 3:
                        continue
                    yield {"kind": "shift", "A": A, "N": N, "groups": groups, "S": S, "P": P, "T": 300.0, "pm": pm}
    for N, P, T in it.product((1, 4, 9) if tier == "quick" else (1, 4, 9, 16), (16, 64), (30.0, 300.0, 1200.0)):
        for A, S in ((1, 1), (2, 2), (2, 3), (3, 2)):
            yield {"kind": "large", "A": A, "N": N, "groups": "elELqQ" if A > 1 else "elq", "S": S, "P": P, "T": T,
                   "pm": bool(P % 3)}
    # the ratio is the same for all bead positions when the model is copies of the surfaces of rho
    for A, N, S, P in it.product((1, 2, 3), (1, 2, 3), (1, 2, 3), (3, 4, 5, 8)):
        for pm in (False, True):
            yield {"kind": "copies", "A": A, "N": N, "groups": "el", "S": S, "P": P, "T": 300.0, "pm": pm}


def sampling_run(case, obs, vib, rho, sources, normals, B, T=None):
    """a sampling run with planned random numbers: the arrays of the result"""
    from pibronic.pimc import pimc
    rng = c.Rng(sources=sources, normals=normals)
    with obs.tmp() as root:
        FS = c.file_structure(root, vib, rho)
        with rng.installed():
            data, result = c.box(FS, case["T"], case["P"], len(sources), B, pm=case["pm"])
            (pimc.block_compute_pm if case["pm"] else pimc.block_compute)(data, result)
    obs.step(len(sources))
    obs.trace()
    return data, result


def compare(case, obs, result, R, vib, rho, rtol):
    log_g, log_rho = c.log_integrands(R, vib, rho, c.beta_of(case["T"]) / case["P"])
    with np.errstate(all="ignore"):
        got, expect = np.log(result.scaled_g / result.scaled_rho), log_g - log_rho
    obs.check(np.allclose(got, expect, rtol=0, atol=rtol), "g(R)/rho(R) of a sampling run is that of the two models",
              R=R[..., 0], got=got, expected=expect)


def sampled(case, obs):
    A, N, S, P = case["A"], case["N"], case["S"], case["P"]
    vib = c.vibronic_model(A, N, case["groups"], scale=1.0 if N < 4 else 0.5)
    rho = c.sampling_model(S, N, own_frequencies=bool(S % 2))
    sources = np.tile(np.arange(S), 2)
    if case["kind"] == "shift":
        # no deviation from the centre of the chosen surface: all the beads sit at its displacement
        for point in it.product(GRID, repeat=N * S):
            d = np.array(point).reshape(N, S)
            rho["G1"] = -d * rho["w"][:, None]
            data, result = sampling_run(case, obs, vib, rho, sources, np.zeros((2 * S, N, P)), S)
            R = np.repeat(d.T[sources][..., None], P, axis=-1)
            compare(case, obs, result, R, vib, rho, 1e-8)
        obs.bulk(len(GRID)**(N * S), *case.values())
    elif case["kind"] == "large":
        data, result = sampling_run(case, obs, vib, rho, sources, np.zeros((2 * S, N, P)), S)
        R = np.repeat((-rho["G1"] / rho["w"][:, None]).T[sources][..., None], P, axis=-1)
        compare(case, obs, result, R, vib, rho, 1e-6)
        obs.state(*case.values())
    else:
        # every surface of both models is a copy of one surface: g/rho is A/S for all bead positions
        vib["w"] = rho["w"]
        for E, scale in it.product((0.0, 0.03), (0.0, 1.0)):
            lin = c.pattern((N,), 0.02, 1.3) * scale
            rho["E"], rho["G1"] = np.full(S, E), np.repeat(lin[:, None], S, axis=1)
            vib["E"], vib["G1"] = np.eye(A) * E, lin[:, None, None] * np.eye(A)
            k = np.arange(6 * S * N * P)
            normals = (1.3 * np.sin(1.7 * k + 0.05 * k * k)).reshape(6 * S, N, P)
            sources = np.tile(np.arange(S), 6)
            data, result = sampling_run(case, obs, vib, rho, sources, normals, 3 * S)
            obs.check(np.allclose(result.scaled_g / result.scaled_rho, A / S, rtol=1e-9, atol=0),
                      "g(R)/rho(R) of copies of the same surface is the ratio of their numbers",
                      got=result.scaled_g / result.scaled_rho, expected=A / S)
            obs.state(*case.values(), E, scale)
    obs.nontriv(*case.values())


def peculiar(vib, rho, odd, P):
    """models with one or more peculiarities"""
    A, N, S = vib["A"], vib["N"], rho["A"]
    eye = np.eye(A)
    for what in odd:
        if what == "degenerate energies":
            vib["E"] = vib["E"] * (1 - eye) + 0.02 * eye
            rho["E"] = np.full(S, 0.02)
        elif what == "equal frequencies":
            vib["w"], rho["w"] = np.full(N, 0.025), np.full(N, 0.025)
        elif what == "negative energies":
            vib["E"] = vib["E"] - 0.06 * eye
            rho["E"] = rho["E"] - 0.05
        elif what == "half coupled":     # the first surface stands alone
            for k in ("E", "G1", "G2"):
                vib[k][..., 0, 1:] = vib[k][..., 1:, 0] = 0
        elif what == "unsymmetric modes":    # only G2_ij + G2_ji is in the potential
            vib["G2"] = vib["G2"] * 1.0
            vib["G2"][tuple(np.triu_indices(N, 1))] = 0
        elif what == "one mode":         # only the last mode is coupled
            for k in ("G1", "G2"):
                vib[k][:-1] = 0
            vib["G2"][:, :-1] = 0
        elif what == "zero linear":
            vib["G1"] = vib["G1"] * (1 - eye)
            rho["G1"] = rho["G1"] * 0
        elif what == "far energies":
            vib["E"] = vib["E"] + np.diag(0.11 * np.arange(A))
            rho["E"] = rho["E"] + 0.13 * np.arange(S)[::-1]
        elif what == "strong coupling":
            vib["E"] = vib["E"] * (1 + 18 * (1 - eye))
            vib["G1"] = vib["G1"] * (1 + 9 * (1 - eye))
        elif what == "huge coupling":     # potentials of many eV
            vib["E"] = vib["E"] + 6.0 * (1 - eye)
            vib["G1"] = vib["G1"] * (1 + 99 * (1 - eye))
        elif what == "steep":            # potentials of many eV at every bead
            vib["G2"] = vib["G2"] + (12 if P < 64 else 120) * np.eye(A) * np.eye(N)[:, :, None, None] / N
        elif what == "no absolute energies":
            vib["E"] = vib["E"] * (1 - eye)
            rho["E"] = rho["E"] * 0


def fixed_R(X, N, P, tau, shift=0):
    k = np.arange(X * N * P) + shift
    R = (min(1.2, 6 * np.sqrt(tau * 0.02 / (P * N))) * np.sin(1.7 * k + 0.05 * k * k)).reshape(X, N, P)
    return R + 0.8 * np.cos(np.arange(X * N)).reshape(X, N, 1)


def pointwise(case, obs, FS, vib, rho, R):
    """g and rho of given bead positions, in blocks"""
    from pibronic.pimc import pimc
    P, T = case["P"], case["T"]
    X, tau = len(R), c.beta_of(T) / P
    with c.Rng(np.zeros(X, dtype=int), np.zeros(R.shape), uniforms=R).installed():
        data, result = c.box(FS, T, P, X, 8)
        pimc.block_compute_gR_from_raw_samples(data, result)
    found = glob.glob(os.path.join(FS.path_rho_results, f"P{P}_T{T:.2f}_J*_training_data_input.npz"))
    obs.check(len(found) == 1, "exactly one input file is written", found=found)
    with np.load(found[0]) as file:
        stored_R = file["input_R_values"].copy()
    with np.load(found[0].replace("data_input", "data_g_output")) as file:
        stored_g = file["g"].copy()
    data2, result2 = c.box(FS, T, P, X, 6)
    pimc.block_compute_rhoR_from_input_samples(data2, result2, stored_R.copy())
    g, rho_R = c.g_reference(stored_R, vib, tau), c.rho_reference(stored_R, rho, tau)
    for name, got, expect in (("g", stored_g, g), ("rho", result2.scaled_rho, rho_R)):
        if not ((np.abs(expect) > 1e-250) & (np.abs(expect) < 1e250)).all():
            continue      # beyond the floating point numbers
        obs.check(np.allclose(got, expect, rtol=1e-7, atol=0), f"{name}(R) of the stored R", got=got, expected=expect,
                  **{k: v for k, v in case.items() if k in ("odd", "step")})
    obs.step(2 * X)
    obs.trace(2)


def spot(case, obs):
    """24 fixed sets of bead positions"""
    A, N, S, P, T = case["A"], case["N"], case["S"], case["P"], case["T"]
    vib = c.vibronic_model(A, N, case["groups"], scale=1.0 if N * A < 9 else 0.4)
    rho = c.sampling_model(S, N, own_frequencies=bool(A % 2))
    peculiar(vib, rho, case["odd"], P)
    tau = c.beta_of(T) / P
    with obs.tmp() as root, np.errstate(all="ignore"):
        R = fixed_R(24, N, P, tau)
        if "far bead" in case["odd"]:    # as far as the floating point numbers reach
            for far in np.linspace(400, 0, 200):
                shifted = R.copy()
                shifted[:, :, P // 2] += far
                if min(c.rho_reference(shifted, rho, tau).min(), np.abs(c.g_reference(shifted, vib, tau)).min()) > 1e-245:
                    break
            R = shifted
        pointwise(case, obs, c.file_structure(root, vib, rho), vib, rho, R)
    obs.state(*map(str, case.values()))
    obs.nontriv(*map(str, case.values()))


def edited(case, obs):
    """the same files hold one model after the other"""
    A, N, S, P, T = case["A"], case["N"], case["S"], case["P"], case["T"]
    sizes = [(A, S, 1.0), (A, S, 0.7), (A, S % 3 + 1, 0.7), (A % 3 + 1, S, 0.7), (A, S, 1.0)]
    with obs.tmp() as root, np.errstate(all="ignore"):
        for step, (A, S, scale) in enumerate(sizes):
            vib = c.vibronic_model(A, N, "elELqQ" if A > 1 else "elq", scale=scale)
            rho = c.sampling_model(S, N, own_frequencies=bool(step % 2), scale=scale)
            FS = c.file_structure(root, vib, rho)
            for path in (FS.path_vib_model, FS.path_rho_model):     # edits do not change the size of the files
                with open(path, "a") as file:
                    file.write(" " * (9000 - os.path.getsize(path)))
            pointwise({**case, "step": step}, obs, FS, vib, rho, fixed_R(24, N, P, c.beta_of(T) / P, 5 * step))
            obs.state(*map(str, case.values()), step)
    obs.nontriv(*map(str, case.values()))


def execute(case, obs):
    from pibronic.pimc import pimc
    if case.get("kind") in ("spot", "edit"):
        try:
            return {"spot": spot, "edit": edited}[case["kind"]](case, obs)
        except c.Undecided:
            return
    if "kind" in case:
        try:
            return sampled(case, obs)
        except c.Undecided:
            return
    A, N, S, P, T = case["A"], case["N"], case["S"], case["P"], case["T"]
    vib = c.vibronic_model(A, N, case["groups"])
    rho = c.sampling_model(S, N, linear="l" in case["groups"], energies="e" in case["groups"],
                           own_frequencies=bool(P % 2))
    values = GRID[:case["values"]]
    R = np.array(list(it.product(values, repeat=N * P))).reshape(-1, N, P)
    B = 9 if len(R) % 9 == 0 else 8
    tau = c.beta_of(T) / P
    with obs.tmp() as root:
        FS = c.file_structure(root, vib, rho)
        rng = c.Rng(sources=np.zeros(len(R), dtype=int), normals=np.zeros((len(R), N, P)), uniforms=R)
        with rng.installed():
            data, result = c.box(FS, T, P, len(R), B)
            try:
                pimc.block_compute_gR_from_raw_samples(data, result)
            except c.Undecided:
                return
        found = glob.glob(os.path.join(FS.path_rho_results, f"P{P}_T{T:.2f}_J*_training_data_input.npz"))
        obs.check(len(found) == 1, "exactly one input file is written", found=found)
        with np.load(found[0]) as file:
            stored_R, n_in = file["input_R_values"].copy(), int(file["number_of_samples"])
        with np.load(found[0].replace("data_input", "data_g_output")) as file:
            stored_g, n_out = file["g"].copy(), int(file["number_of_samples"])
        obs.check(n_in == n_out == len(R) and stored_R.shape == R.shape and stored_g.shape == (len(R),),
                  "the stored arrays have one entry for each sample", n_in=n_in, n_out=n_out,
                  shapes=(stored_R.shape, stored_g.shape))
        expect = c.g_reference(stored_R, vib, tau)
        bad = ~np.isclose(stored_g, expect, rtol=1e-8, atol=1e-14 * np.abs(expect).max())
        obs.check(not bad.any(), "g(R) is the integrand of the coupled model at the stored R",
                  R=stored_R[bad][:1], g=stored_g[bad][:1], expected=expect[bad][:1])
        # rho at the same R, twice: the second evaluation in the opposite order
        for order in (1, -1):
            data2, result2 = c.box(FS, T, P, len(R), B)
            pimc.block_compute_rhoR_from_input_samples(data2, result2, stored_R[::order].copy())
            expect_rho = c.rho_reference(stored_R[::order], rho, tau)
            bad = ~np.isclose(result2.scaled_rho, expect_rho, rtol=1e-8, atol=1e-14 * expect_rho.max())
            obs.check(not bad.any(), "rho(R) is the integrand of the sampling model at the given R",
                      R=stored_R[::order][bad][:1], rho=result2.scaled_rho[bad][:1],
                      expected=expect_rho[bad][:1])
            obs.step(len(R))
    obs.step(len(R))
    obs.trace(2)
    obs.bulk(len(R), *case.values())
    if any(x in case["groups"] for x in "ELqQ"):
        obs.nontriv(A, N, case["groups"], S, P, T)
