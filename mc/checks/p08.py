"""the estimators of Z, E and Cv, for every small table of samples."""
import itertools as it

import numpy as np

from mc import stats_ref as ref

PROPERTY = "P08"
RULE = ("every table of X = 2..4 (thorough: 5) samples whose rows (rho, g, g+, g-) come from an alphabet of distinct rows, in every "
        "order and with repetition, x temperature x delta beta x the sampling model's contribution and alpha factors; "
        "non-trivial: the rows are not all equal")
ASSUMPTIONS = ["sample values outside the alphabet behave alike (the estimators are rational functions of them)",
               "rounding errors are relative to the terms that cancel in the finite differences (1e-10)"]
ROWS = [(1.0, 2.0, 2.3, 1.6), (0.5, 0.75, 0.9, 0.4), (2.0, 1.0, 1.1, 0.7), (4.0, -0.5, -0.45, -0.6),
        (0.25, 3.0, 3.5, 2.0), (8.0, 1.5, 1.4, 1.4), (3.0, 0.0, 0.0, 0.0)]


def cases(tier):
    top = 4 if tier == "quick" else 5
    for T in (10.0, 300.0):
        for dB in (None, 0.01, 0.5):
            for contribution in ((0.0, 0.0), (1.5, -0.25)):
                for X in range(2, top + 1):
                    for first in range(len(ROWS)):
                        yield {"T": T, "dB": dB, "add": contribution, "X": X, "first": first}
    for X in (9, 10, 11, 64, 100, 999, 3000):
        for T, dB in ((10.0, 0.01), (287.65, None), (1500.0, 0.5)):
            yield {"T": T, "dB": dB, "add": (-0.5, 0.25), "X": X, "first": 0}
    for X in (20011, 131073):       # more samples than one submitted job draws
        yield {"T": 287.65, "dB": 0.01, "add": (-0.5, 0.25), "X": X, "first": 0}


class Table:
    """a BoxResultPM with given rows"""

    def __new__(cls, rows):
        from pibronic.pimc import pimc
        a = np.array(rows, dtype=float)
        result = pimc.BoxResultPM(X=len(rows))
        result.scaled_rho, result.scaled_g = a[:, 0].copy(), a[:, 1].copy()
        result.scaled_gofr_plus, result.scaled_gofr_minus = a[:, 2].copy(), a[:, 3].copy()
        return result


def close(got, expect, size):
    return abs(got - expect) <= 1e-10 * (abs(expect) + size)


def tables(case):
    if case["X"] > 8:       # one long table of distinct rows, the most unusual ones in different places
        X = case["X"]
        k = np.arange(X)
        rho, g = 1.5 + np.sin(1.3 * k), 1.0 + 0.8 * np.cos(0.7 * k + 0.001 * k * k)
        rows = [tuple(map(float, row)) for row in zip(rho, g, g * (1.1 + 0.05 * np.sin(k)), g * (0.9 - 0.04 * np.cos(3 * k)))]
        for place in (0, X // 3, X - 1):
            yield rows[:place] + [(0.01, 9.0, 9.5, 8.5)] + rows[place + 1:]
        return
    for rest in it.product(range(len(ROWS)), repeat=case["X"] - 1):
        yield [ROWS[i] for i in (case["first"],) + rest]


def usable(rows, ap=1.0, am=1.0):
    return abs(ref.mean([g / r for r, g, p, m in rows])) > 1e-6


def analyse(method, T, result, analytic, dB):
    """the analysis with the delta beta of the package (dB None) or with a given one"""
    from pibronic.stats import stats
    if dB is None:
        return {"basic": stats.basic_statistical_analysis, "alpha": stats.alpha_statistical_analysis}[method](
            T, result, analytic)
    data = [result.scaled_rho, result.scaled_g, result.scaled_gofr_plus, result.scaled_gofr_minus]
    if method == "basic":
        terms = stats.calculate_basic_property_terms(dB, *data)
    else:
        terms = stats.calculate_alpha_terms(dB, *data, analytic["alpha_plus"], analytic["alpha_minus"])[:3]
    out = stats.estimate_basic_properties(result.samples, T, *terms)
    stats.add_harmonic_contribution(out, analytic["E"], analytic["Cv"])
    return out


def execute(case, obs):
    from pibronic import constants
    T = case["T"]
    Es, Cs = case["add"]
    alphas = ((1.0, 1.0), (1.25, 0.8))
    dB = constants.delta_beta if case["dB"] is None else case["dB"]
    for rows in tables(case):
        if not usable(rows):
            continue
        for ap, am in alphas:
            analytic = {"E": Es, "Cv": Cs, "Z": 1.0, "alpha_plus": ap, "alpha_minus": am}
            for method in ("basic", "alpha"):
                result = Table(rows)
                before = [np.array(v) for v in (result.scaled_rho, result.scaled_g, result.scaled_gofr_plus,
                                                result.scaled_gofr_minus)]
                out = analyse(method, T, result, analytic, case["dB"])
                if method == "basic":
                    Z, E, C = ref.basic(rows, T, dB, Es, Cs)
                    se, sc = ref.size(rows, T, dB)
                else:
                    Z, E, C = ref.alpha(rows, T, dB, ap, am, Es, Cs)
                    se, sc = ref.size(rows, T, dB, ap, am)
                obs.check(close(out["Z"], Z, 1e-3) and close(out["E"], E, se) and close(out["Cv"], C, sc),
                          f"Z, E and Cv of the {method} analysis", rows=rows, T=T, dB=dB, got=out,
                          expected=(Z, E, C), alpha=(ap, am))
                obs.check(close(out["Z error"], ref.z_error(rows), 1e-3) and out["E error"] == 0
                          and out["Cv error"] == 0, "the errors of the plain estimates", rows=rows, got=out,
                          expected=ref.z_error(rows))
                after = [result.scaled_rho, result.scaled_g, result.scaled_gofr_plus, result.scaled_gofr_minus]
                obs.check(all(np.array_equal(a, b) for a, b in zip(before, after)) and
                          analytic == {"E": Es, "Cv": Cs, "Z": 1.0, "alpha_plus": ap, "alpha_minus": am},
                          "the samples and the analytic data are left alone")
                obs.step()
            obs.trace()
        obs.state(*case.values(), rows)
        if len(set(rows)) > 1:
            obs.nontriv(*case.values(), rows)
