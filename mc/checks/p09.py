"""the jackknife is the leave-one-out estimate, for every small table of samples."""
import numpy as np

from mc import stats_ref as ref
from mc.checks import p08

PROPERTY = "P09"
RULE = p08.RULE
ASSUMPTIONS = p08.ASSUMPTIONS + ["the error bars use the convention of the code: sqrt(X-1) times the standard deviation "
                                 "with X-1 in the denominator"]


def cases(tier):
    yield from p08.cases(tier)


def large(case, obs, rows, dB):
    """many samples: the leave-one-out means are the total without the sample"""
    T, X = case["T"], len(rows)
    a = np.array(rows).T
    for method, ap, am in (("basic", 1.0, 1.0), ("alpha", 1.25, 0.8)):
        analytic = {"E": case["add"][0], "Cv": case["add"][1], "Z": 1.0, "alpha_plus": ap, "alpha_minus": am}
        out = analyse(method, T, p08.Table(rows), analytic, case["dB"])
        g, p, m = a[1] / a[0], ap * a[2] / a[0], am * a[3] / a[0]

        def estimate(g, p, m):
            E = -(p - m) / (2 * dB) / g
            return E, ((p - 2 * g + m) / dB**2 / g - E * E) / (ref.KB * T * T)
        full = estimate(*[np.mean(v) for v in (g, p, m)])
        left = estimate(*[(v.sum() - v) / (X - 1) for v in (g, p, m)])
        se, sc = (0.02 * X * s for s in ref.size(rows, T, dB, ap, am))
        for name, f, l, add, size in zip(("E", "Cv"), full, left, case["add"], (se, sc)):
            obs.check(p08.close(out["jk_" + name], X * f - (X - 1) * l.mean() + add, size)
                      and p08.close(out[name], f + add, size), f"the {method} estimates of many samples", X=X, got=out)
            spread = np.sqrt(((l - l.mean())**2).sum() / (X - 1)) * np.sqrt(X - 1)
            # unlike the estimates the errors must not drown in the rounding of large numbers
            obs.check(abs(out[f"jk_{name} error"] - spread) <= 1e-6 * spread + 1e-10 * size,
                      f"the {method} jackknife errors of many samples", X=X, got=out, expected=spread)
        obs.step()
    obs.trace()
    obs.state(*map(str, case.values()))
    obs.nontriv(*map(str, case.values()))


def analyse(method, T, result, analytic, dB):
    """the analysis with the delta beta of the package (dB None) or with a given one"""
    from pibronic.stats import stats, jackknife as jk
    if dB is None:
        return {"basic": stats.basic_jackknife_analysis, "alpha": stats.alpha_jackknife_analysis}[method](
            T, result, analytic)
    X = result.samples
    data = [result.scaled_rho, result.scaled_g, result.scaled_gofr_plus, result.scaled_gofr_minus]
    if method == "basic":
        terms = stats.calculate_basic_property_terms(dB, *data)
        jk_terms = jk.calculate_jackknife_terms(X, terms)
    else:
        terms = stats.calculate_alpha_terms(dB, *data, analytic["alpha_plus"], analytic["alpha_minus"])
        jk_terms = jk.calculate_alpha_jackknife_terms(X, dB, terms[0], *terms[3:7])
    out = stats.estimate_basic_properties(X, T, *terms[:3])
    jack = jk.estimate_jackknife(X, T, dB, out, *jk_terms)
    stats.add_harmonic_contribution(out, analytic["E"], analytic["Cv"])
    stats.add_harmonic_contribution(jack, analytic["E"], analytic["Cv"])
    out.update({"jk_" + k: v for k, v in jack.items()})
    return out


def execute(case, obs):
    from pibronic import constants
    from pibronic.stats import jackknife as jk
    T = case["T"]
    Es, Cs = case["add"]
    dB = constants.delta_beta if case["dB"] is None else case["dB"]
    for rows in p08.tables(case):
        X = len(rows)
        if X > 64:
            large(case, obs, rows, dB)
            continue
        if X < 2 or not all(p08.usable(rows[:i] + rows[i + 1:]) for i in range(X)) or not p08.usable(rows):
            continue
        for method, ap, am in (("basic", 1.0, 1.0), ("alpha", 1.25, 0.8)):
            analytic = {"E": Es, "Cv": Cs, "Z": 1.0, "alpha_plus": ap, "alpha_minus": am}
            result = p08.Table(rows)
            out = analyse(method, T, result, analytic, case["dB"])
            est = (lambda s: ref.alpha(s, T, dB, ap, am)) if method == "alpha" else (lambda s: ref.basic(s, T, dB))
            Z, E, C = est(rows)
            jE, jEe, jC, jCe = ref.jackknife(rows, est)
            sizes = [ref.size(s, T, dB, ap, am) for s in [rows] + [rows[:i] + rows[i + 1:] for i in range(X)]]
            se, sc = X * max(s[0] for s in sizes), X * max(s[1] for s in sizes)
            obs.check(p08.close(out["Z"], Z, 1e-3) and p08.close(out["E"], E + Es, se)
                      and p08.close(out["Cv"], C + Cs, sc), f"the {method} estimates next to the jackknife",
                      rows=rows, got=out, expected=(Z, E + Es, C + Cs))
            obs.check(p08.close(out["Z error"], ref.z_error(rows), 1e-3), "the error of Z", rows=rows, got=out)
            obs.check(p08.close(out["jk_E"], jE + Es, se) and p08.close(out["jk_Cv"], jC + Cs, sc),
                      f"the {method} jackknife estimates are the leave-one-out ones", rows=rows, got=out,
                      expected=(jE + Es, jC + Cs))
            obs.check(p08.close(out["jk_E error"], jEe, se) and p08.close(out["jk_Cv error"], jCe, sc),
                      f"the {method} jackknife errors are the leave-one-out ones", rows=rows, got=out,
                      expected=(jEe, jCe))
            # a sample table in another order gives the same estimate
            again = analyse(method, T, p08.Table(rows[::-1]), analytic, case["dB"])
            obs.check(all(p08.close(again[k], out[k], sc if "Cv" in k else se) for k in out),
                      "the order of the samples does not matter", rows=rows, got=(out, again))
            obs.step(2)
        term = jk.calculate_jackknife_term(X, np.array([r[1] for r in rows]))
        expect = [ref.mean([s[1] for s in rows[:i] + rows[i + 1:]]) for i in range(X)]
        obs.check(np.allclose(term, expect, rtol=1e-12, atol=1e-12), "the leave-one-out means", got=term,
                  expected=expect)
        obs.trace()
        obs.state(*case.values(), rows)
        if len(set(rows)) > 1:
            obs.nontriv(*case.values(), rows)
