"""importance sampling is unbiased: exhaustive enumeration of the random outcomes (quadrature nodes)."""
import itertools as it

import numpy as np

from mc import common as c

PROPERTY = "P02"
RULE = ("a case is (model, sampling model, beads, temperature); within it every outcome of the discretised random "
        "numbers is executed: every surface of the mixture x every tuple of Gauss-Hermite nodes for all collective "
        "coordinates; non-trivial: more than one surface in rho or a coupled model")
ASSUMPTIONS = ["the Gauss-Hermite outcomes represent the normal deviates (quadrature error below the tolerance: "
               "1e-5 to 2e-3 for one mode with 3 to 6 beads, 3e-3 (quick) / 3e-4 (thorough) for two modes)",
               "numpy's normal and choice draw from the distribution they are asked for"]
CASE_TIMEOUT = 300
GROUPS = ["", "e", "l", "el", "E", "L", "q", "Q", "elE", "elL", "elq", "elQ", "ELQ", "elELQ", "elELqQ"]


def cases(tier, pm=False):
    nodes = {3: 14, 4: 8, 5: 6} if tier == "quick" else {3: 20, 4: 10, 5: 8, 6: 6}
    for P in nodes:
        for A in (1, 2, 3):
            for groups in GROUPS:
                if A == 1 and set(groups) & set("ELQ"):
                    continue
                if P > 3 and tier == "quick" and len(groups) < 5:
                    continue
                for S in (1, 2, 3):
                    for own in (False, True):
                        if own and tier == "quick" and len(groups) not in (0, 6):
                            continue
                        yield {"A": A, "N": 1, "groups": groups, "S": S, "P": P, "T": 300.0, "K": nodes[P],
                               "own": own}
    # surfaces which are (almost) never chosen: energy gaps from 2 to 20 kT in the sampling model
    for A, S in it.product((1, 2), (2, 3)):
        for groups in ("el", "elELqQ") if A > 1 else ("el",):
            for gap in (0.05, 0.12, 0.2, 0.3, 0.5):
                for P in (3, 4) if tier != "quick" else (3,):
                    yield {"A": A, "N": 1, "groups": groups, "S": S, "P": P, "T": 300.0, "K": nodes[P],
                           "own": False, "gap": gap}
    for A, S in ((1, 1), (2, 2), (2, 3), (3, 2)):
        for groups in ("", "elELqQ") if tier == "quick" else ("", "el", "ELQ", "elELqQ"):
            yield {"A": A, "N": 2, "groups": groups, "S": S, "P": 3, "T": 300.0,
                   "K": 5 if tier == "quick" else 7, "own": False}
    yield from gaussian_cases(tier)
    if not pm:
        # every number of beads
        for P in [*range(3, 41 if tier == "quick" else 97), 50, 100]:
            yield {"gauss": "frequencies", "A": 1, "N": 1, "S": 1, "P": P, "T": 287.65}
        yield from hidden_cases(tier)


def gaussian_cases(tier):
    """sizes far beyond the quadrature: for these models log g - log rho is a quadratic form of the normal deviates, which
    all pairs of unit deviates determine, and its expectation is known in closed form"""
    sizes = ((1, 7), (1, 16), (1, 33), (1, 64), (2, 5), (2, 12), (3, 9), (4, 3), (4, 12), (9, 4), (12, 3), (1, 96))
    if tier != "quick":
        sizes += ((1, 128), (2, 64), (5, 24), (9, 12), (16, 7))
    for (N, P), T in it.product(sizes, (30.0, 287.65, 1200.0)):
        for kind in ("copy", "frequencies", "displaced", "quadratic"):
            for A, S in ((1, 1), (2, 3)) if tier == "quick" else ((1, 1), (1, 4), (4, 1), (2, 3)):
                yield {"gauss": kind, "A": A, "N": N, "S": S, "P": P, "T": T}


def hidden_cases(tier):
    """the system sits where the sampling model has its rarest surface, far from the others"""
    for far, S, P, T in it.product((11.0, -14.0), (2, 3), (3, 5) if tier == "quick" else (3, 4, 5), (200.0, 300.0)):
        for gap in (2.0, 9.0, 18.0, 25.0, 32.0):
            yield {"hidden": far, "A": 1, "N": 1, "S": S, "P": P, "T": T, "gap": gap}


def hidden_surface(case, obs):
    """closed form for the system (one displaced oscillator); the rare surface's weight is exp(-gap)"""
    from pibronic.pimc import pimc
    P, T, S = case["P"], case["T"], case["S"]
    beta = c.beta_of(T)
    vib, rho = c.vibronic_model(1, 1, ""), c.sampling_model(S, 1)
    d = np.full(S, -case["hidden"] / 3)
    d[0] = case["hidden"]
    rho["G1"] = (-rho["w"] * d)[None, :] * 1.0
    rho["E"] = 0.5 * rho["w"][0] * d**2 + np.where(np.arange(S) == 0, case["gap"] / beta, 0.001 * np.arange(S))
    vib["G1"] = -vib["w"].reshape(1, 1, 1) * (case["hidden"] + 0.3)
    vib["E"] = np.full((1, 1), 0.01)
    sources, normals, W = plan({"N": 1, "P": P, "S": S, "K": {3: 12, 4: 9, 5: 6}[P]})
    X = len(sources)
    with obs.tmp() as root:
        FS = c.file_structure(root, vib, rho)
        rng = c.Rng(sources, normals)
        with rng.installed():
            data, result = c.box(FS, T, P, X, block_size(X))
            pimc.block_compute(data, result)
    if rng.p is None:
        return
    mean = (rng.p[sources] * W * result.scaled_g / result.scaled_rho).sum()
    log_z = log_integral(*quadratic_form(1, P, vib["w"], vib["G1"][:, 0, 0], np.diag(vib["E"]), np.zeros((1, 1)), beta / P))
    expect = np.exp(log_z) / c.z_rho_reference(rho, beta)
    obs.check(abs(mean / expect - 1) < 1e-2, "the expectation of g/rho includes the rare surfaces of the sampling model",
              mean=mean, expected=expect, weights=rng.p)
    obs.step(X)
    obs.trace(X)
    obs.bulk(X, *case.values())
    obs.nontriv(*case.values())


def gaussian_models(case):
    """the surfaces of a model differ in their energies only: g and rho are gaussian functions of R"""
    N, A, S, kind = case["N"], case["A"], case["S"], case["gauss"]
    vib, rho = c.vibronic_model(A, N, ""), c.sampling_model(S, N)
    lin = c.pattern((N,), 0.012, 1.9)
    vib["E"], rho["E"] = np.diag(0.004 + 0.007 * np.arange(A)), 0.003 + 0.005 * np.arange(S)
    vib["G1"] = lin[:, None, None] * np.eye(A)
    rho["G1"] = np.repeat((lin + (0.002 * np.arange(1, N + 1) / N if kind == "displaced" else 0))[:, None], S, axis=1)
    if kind != "copy":
        rho["w"] = rho["w"] * (1 + 0.02 * np.cos(np.arange(N)))
    if kind == "quadratic":
        G2 = c.pattern((N, N), 0.006 / N, 0.4)
        vib["G2"] = (0.5 * (G2 + G2.T))[..., None, None] * np.eye(A)
    return vib, rho


def quadratic_form(N, P, w, lin, energies, G2, tau):
    """sum over the surfaces of the gaussian = exp(c + b R - R K R / 2): K, b, c"""
    K, b = np.zeros((N, P, N, P)), np.zeros((N, P))
    coth, csch, d = 1 / np.tanh(tau * w), 1 / np.sinh(tau * w), -lin / w
    p = np.arange(P)
    for i in range(N):
        K[i, p, i, p] += 2 * coth[i]
        K[i, p, i, (p + 1) % P] -= csch[i]
        K[i, p, i, (p - 1) % P] -= csch[i]
    K = K.reshape(N * P, N * P)
    R0 = np.repeat(d[:, None], P, axis=1).ravel()
    b, const = K @ R0, -0.5 * R0 @ K @ R0
    const += P * (0.5 * np.log(csch).sum() + tau * 0.5 * (lin**2 / w).sum())
    top = energies.min()
    const += -P * tau * top + np.log(np.exp(-P * tau * (energies - top)).sum())
    K = K + tau * np.kron(G2, np.eye(P))
    return K, b, const


def log_integral(K, b, const):
    """of the gaussian over all R, without the (2 pi)^(NP/2)"""
    sign, log_det = np.linalg.slogdet(K)
    assert sign > 0
    return const + 0.5 * b @ np.linalg.solve(K, b) - 0.5 * log_det


def pairs(d):
    """0, the unit vectors, their opposites, and the sums of two of them"""
    one = np.eye(d)
    i, j = np.triu_indices(d, 1)
    return np.concatenate([np.zeros((1, d)), one, -one, one[i] + one[j]])


def log_expectation(f, d):
    """log of the expectation of exp(f(z)) over normal deviates; f at pairs(d), f must be quadratic"""
    up, down = f[1:d + 1] - f[0], f[d + 1:2 * d + 1] - f[0]
    L, Q = 0.5 * (up - down), np.diag(up + down)
    i, j = np.triu_indices(d, 1)
    Q[i, j] = Q[j, i] = f[2 * d + 1:] - f[0] - up[i] - up[j]
    if np.linalg.eigvalsh(np.eye(d) - Q).min() <= 0:
        return np.inf
    return f[0] + 0.5 * L @ np.linalg.solve(np.eye(d) - Q, L) - 0.5 * np.linalg.slogdet(np.eye(d) - Q)[1]


def gaussian(case, obs, pm=False):
    """expectations at sizes where only the closed form is possible"""
    from pibronic.pimc import pimc
    N, P, T, S = case["N"], case["P"], case["T"], case["S"]
    vib, rho = gaussian_models(case)
    beta, d = c.beta_of(T), N * P
    z = pairs(d)
    X = len(z) + -len(z) % 3
    normals = np.concatenate([z, np.zeros((X - len(z), d))]).reshape(X, N, P)
    with obs.tmp() as root:
        FS = c.file_structure(root, vib, rho)
        with c.Rng(np.arange(X) % S, normals).installed():
            data, result = c.box(FS, T, P, X, X // 3, pm=pm)
            (pimc.block_compute_pm if pm else pimc.block_compute)(data, result)
    lin = vib["G1"][:, 0, 0]
    base = log_integral(*quadratic_form(N, P, rho["w"], rho["G1"][:, 0], rho["E"], np.zeros((N, N)), beta / P))
    wanted = [("g", result.scaled_g, beta)]
    if pm:
        wanted += [("g plus", result.scaled_gofr_plus, beta + data.delta_beta),
                   ("g minus", result.scaled_gofr_minus, beta - data.delta_beta)]
    for name, array, b in wanted:
        with np.errstate(all="ignore"):
            f = np.log(array / result.scaled_rho)[:len(z)]
        obs.check(np.isfinite(f).all(), f"{name}/rho is positive for harmonic models", case=case)
        got = log_expectation(f, d)
        expect = log_integral(*quadratic_form(N, P, vib["w"], lin, np.diag(vib["E"]), vib["G2"][..., 0, 0],
                                              b / P)) - base
        obs.check(abs(got - expect) < 1e-6, f"the expectation of {name}/rho of harmonic models", beta=b,
                  got=got, expected=expect)
    obs.step(X)
    obs.trace(X)
    obs.bulk(X, *case.values())
    obs.nontriv(*case.values())


def plan(case):
    """every outcome: sources, standard normals (X, N, P), quadrature weights"""
    d = case["N"] * case["P"]
    x, w = np.polynomial.hermite_e.hermegauss(case["K"])
    w = w / w.sum()
    idx = np.array(list(it.product(range(case["K"]), repeat=d)))
    z, W = x[idx], np.prod(w[idx], axis=1)
    S = case["S"]
    sources = np.tile(np.arange(S), len(z))          # neighbouring samples come from different surfaces
    normals = np.repeat(z, S, axis=0).reshape(-1, case["N"], case["P"])
    return sources, normals, np.repeat(W, S)


def block_size(X):
    for B in (997, 500, 490, 343, 324, 256, 250, 200, 128, 100, 81, 64, 49, 36, 25):
        if X % B == 0 and X > B:
            return B
    return X


def models(case):
    vib = c.vibronic_model(case["A"], case["N"], case["groups"], scale=1.0 if case["A"] < 3 else 0.5)
    rho = c.sampling_model(case["S"], case["N"], linear=True, own_frequencies=case["own"])
    if "gap" in case:
        rho["E"] = rho["E"] + case["gap"] * np.arange(case["S"])[::-1]
    return vib, rho


def grid(case):
    return (160, 9.0) if case["N"] == 1 else (30, 7.0)


def tolerance(case):
    if case["N"] == 1:
        return {3: 1e-5, 4: 1e-4}.get(case["P"], 2e-3)
    return 3e-3 if case["K"] < 6 else 3e-4


def execute(case, obs):
    from pibronic.pimc import pimc
    if "gauss" in case or "hidden" in case:
        try:
            return gaussian(case, obs) if "gauss" in case else hidden_surface(case, obs)
        except c.Undecided:
            return
    vib, rho = models(case)
    sources, normals, W = plan(case)
    X = len(sources)
    beta = c.beta_of(case["T"])
    with obs.tmp() as root:
        FS = c.file_structure(root, vib, rho)
        rng = c.Rng(sources, normals)
        with rng.installed():
            try:
                data, result = c.box(FS, case["T"], case["P"], X, block_size(X))
                pimc.block_compute(data, result)
            except c.Undecided:
                return
    if rng.p is None:
        return
    obs.check(len(rng.p) == case["S"], "one weight for each surface of the sampling model", p=rng.p)
    ratio = result.scaled_g / result.scaled_rho
    obs.check(np.isfinite(ratio).all(), "every sample has a finite ratio g/rho")
    mean = (rng.p[sources] * W * ratio).sum()
    expect = c.z_g_reference(vib, beta, case["P"], *grid(case)) / c.z_rho_reference(rho, beta)
    obs.check(abs(mean / expect - 1) < tolerance(case),
              "the expectation of g/rho over all random outcomes is Z(trotter)/Z(rho)", mean=mean, expected=expect,
              weights=rng.p)
    obs.step(X)
    obs.trace(X)
    obs.bulk(X, *case.values())
    if case["S"] > 1 or case["groups"]:
        obs.nontriv(*case.values())
