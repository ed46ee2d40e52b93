"""the plus / minus integrands: expectation over all random outcomes."""
import numpy as np

from mc import common as c
from mc.checks import p02

PROPERTY = "P03"
RULE = ("as P02, for the plus/minus run: every mixture surface x every tuple of Gauss-Hermite nodes, for a small and "
        "a large delta beta; non-trivial: the two shifted expectations differ from the unshifted one")
ASSUMPTIONS = p02.ASSUMPTIONS
CASE_TIMEOUT = 300


def cases(tier):
    for case in p02.cases(tier, pm=True):
        if "gauss" in case:
            yield case
            continue
        if tier == "quick" and case["own"]:
            continue
        for fraction in (None, 0.1) if case["N"] == 1 else (0.1,):
            yield {**case, "fraction": fraction}


def execute(case, obs):
    from pibronic.pimc import pimc
    if "gauss" in case:
        try:
            return p02.gaussian(case, obs, pm=True)
        except c.Undecided:
            return
    from pibronic import constants
    default = constants.delta_beta
    vib, rho = p02.models(case)
    sources, normals, W = p02.plan(case)
    X = len(sources)
    beta = c.beta_of(case["T"])
    delta = None if case["fraction"] is None else case["fraction"] * beta
    with obs.tmp() as root:
        FS = c.file_structure(root, vib, rho)
        rng = c.Rng(sources, normals)
        with rng.installed():
            try:
                data, result = c.box(FS, case["T"], case["P"], X, p02.block_size(X), pm=True, delta_beta=delta)
                pimc.block_compute_pm(data, result)
            except c.Undecided:
                return
        rng = c.Rng(sources, normals)
        with rng.installed():
            data2, plain = c.box(FS, case["T"], case["P"], X, p02.block_size(X))
            pimc.block_compute(data2, plain)
    obs.check(pimc.BoxDataPM(delta_beta=0.37).delta_beta == 0.37, "a delta beta that is given is used")
    obs.check(pimc.BoxDataPM().delta_beta == default == constants.delta_beta and 0 < default <= 1,
              "the default delta beta is the same before and after a run with another one", default=default,
              got=(pimc.BoxDataPM().delta_beta, constants.delta_beta))
    if rng.p is None:
        return
    delta = float(data.delta_beta) if delta is None else delta
    obs.check(abs(data.beta_plus - (beta + delta)) < 1e-9 * beta and abs(data.beta_minus - (beta - delta)) < 1e-9 * beta,
              "beta plus/minus belong to the requested temperature", got=(data.beta_plus, data.beta_minus))
    base = c.z_rho_reference(rho, beta)
    prob = rng.p[sources] * W
    means = {}
    for name, array, b in (("g", result.scaled_g, beta), ("g plus", result.scaled_gofr_plus, beta + delta),
                           ("g minus", result.scaled_gofr_minus, beta - delta)):
        ratio = array / result.scaled_rho
        means[name] = (prob * ratio).sum()
        expect = c.z_g_reference(vib, b, case["P"], *p02.grid(case)) / base
        obs.check(abs(means[name] / expect - 1) < p02.tolerance(case) * (1 if case["fraction"] is None else 3),
                  f"the expectation of {name}/rho is Z(trotter) at its own beta over Z(rho) at beta",
                  mean=means[name], expected=expect, beta=b)
    same = np.allclose(result.scaled_g / result.scaled_rho, plain.scaled_g / plain.scaled_rho, rtol=1e-9, atol=0)
    obs.check(same, "g/rho of a plus/minus run equals that of a plain run on the same random numbers")
    obs.step(2 * X)
    obs.trace(2 * X)
    obs.bulk(X, *case.values())
    if abs(means["g plus"] - means["g"]) > 1e-12:
        obs.nontriv(*case.values())
