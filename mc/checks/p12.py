"""validation and comparison of models: every wrong shape, every single asymmetry, every single difference."""
import itertools as it

import numpy as np

from mc import common as c
from mc.checks import p11

PROPERTY = "P12"
RULE = ("a case is (coupled / sampling model, surfaces, modes, array); within it every shape that differs in one "
        "dimension (one more, one less, dropped, doubled, transposed) and every single-entry change of the array, "
        "with and without its mirror entry, is executed; non-trivial: the array has more than one entry")
ASSUMPTIONS = ["differences far above the tolerance of numpy.allclose (1e-2 and 1e-3 of numbers of order 1, 1e-6 of zero)"]


def cases(tier):
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] if tier == "quick" else list(it.product((1, 2, 3), repeat=2))
    for kind in ("coupled", "diagonal"):
        for A, N in sizes:
            for key in ("E", "w", "G1", "G2", "G3", "G4"):
                if key == "G4" and A * N > 6 or A * N > 6 and key == "G3" and tier == "quick":
                    continue
                yield {"kind": kind, "A": A, "N": N, "key": key}
        for A, N in ((5, 3), (3, 5), (12, 1), (1, 11)):
            for key in ("E", "w", "G1", "G2"):
                yield {"kind": kind, "A": A, "N": N, "key": key}


def wrong_shapes(shape, A, N):
    out = set()
    for i, n in enumerate(shape):
        out.add(shape[:i] + (n + 1,) + shape[i + 1:])
        if n > 1:
            out.add(shape[:i] + (n - 1,) + shape[i + 1:])
        out.add(shape[:i] + shape[i + 1:])
        out.add(shape[:i] + (n, n) + shape[i + 1:])
    out.add(shape[::-1])
    out.add(shape + (1,))
    out.add((1,) + shape)
    out.discard(shape)
    return sorted(out)


def base_model(kind, A, N):
    from pibronic.vibronic import VMK
    model = {VMK.N: N, VMK.A: A}
    for i, (k, shape) in enumerate(p11.shapes(kind, A, N).items()):
        a = c.pattern(shape, 0.2, 0.9 + 0.1 * i)
        a = np.abs(a) + 0.05 if k == "w" else a + 0.05 * np.sign(a)     # both signs, no zeros
        if kind == "coupled" and k != "w":
            a = a + np.swapaxes(a, -1, -2)
        if k == "G2":
            a = a + np.swapaxes(a, 0, 1)
        if k == "G4":
            axes = list(range(a.ndim))
            axes[0], axes[1], axes[2], axes[3] = axes[1], axes[0], axes[3], axes[2]
            a = a + a.transpose(axes)
        model[VMK[k]] = a
    return model


def execute(case, obs):
    from pibronic.vibronic import VMK, vIO
    kind, A, N, key = case["kind"], case["A"], case["N"], VMK[case["key"]]
    verify = vIO.verify_model_parameters if kind == "coupled" else vIO.verify_diagonal_model_parameters
    same = vIO._same_model if kind == "coupled" else vIO._same_diagonal_model
    model = base_model(kind, A, N)
    verify(model)
    obs.check(same(model, {k: (v.copy() if hasattr(v, "copy") else v) for k, v in model.items()}) is True,
              "a model is the same as its copy")
    for missing in (VMK.N, VMK.A):
        p11.refused(obs, lambda: verify({k: v for k, v in model.items() if k != missing}),
                    "a model without its dimensions", missing=missing)
    for shape in wrong_shapes(model[key].shape, A, N):
        bad = {**model, key: np.ones(shape)}
        p11.refused(obs, lambda: verify(bad), "an array of the wrong shape", shape=shape)
        p11.refused(obs, lambda: same(model, bad), "comparing an array of the wrong shape", shape=shape)
        p11.refused(obs, lambda: same(bad, model), "comparing an array of the wrong shape", shape=shape)
        obs.state(kind, A, N, key, shape)
    # dimensions that disagree with all the arrays
    for A2, N2 in it.product((1, 2, 3, 4), repeat=2):
        if (A2, N2) == (A, N):
            continue
        lie = {**model, VMK.A: A2, VMK.N: N2}
        p11.refused(obs, lambda: verify(lie), "a model whose dimensions are not those of its arrays", A2=A2, N2=N2)
        other = base_model(kind, A2, N2)
        obs.check(not truth(same, model, other), "models of different dimensions are not the same", A2=A2, N2=N2)
    # absent means zero
    absent = {k: v for k, v in model.items() if k != key}
    zero = {**model, key: np.zeros_like(model[key])}
    obs.check(same(absent, zero) is True and same(zero, absent) is True, "an absent array is an array of zeros")
    obs.check(same(absent, model) is False and same(model, absent) is False, "an absent array is not a non-zero array")
    if kind == "coupled":
        obs.check(vIO.model_parameters_are_symmetric_in_surfaces(model) is True
                  and vIO.model_parameters_are_symmetric_in_modes(model) is True, "a symmetric model is symmetric")
    # all single entries
    count = 0
    for index in it.product(*[range(n) for n in model[key].shape]):
        changed = {**model, key: model[key].copy()}
        changed[key][index] += 1e-3 if count % 2 else 0.01
        obs.check(same(model, changed) is False and same(changed, model) is False,
                  "models that differ in one entry are not the same", index=index)
        lonely = {**absent, key: np.zeros_like(model[key])}
        lonely[key][index] = 1e-6 if count % 2 else 0.01
        obs.check(same(lonely, absent) is False and same(absent, lonely) is False,
                  "one non-zero entry is not the same as an absent array", index=index)
        # nothing else in the model
        bare = {k: v for k, v in model.items() if k in (VMK.N, VMK.A)}
        alone = {**bare, key: lonely[key]}
        obs.check(same(alone, bare) is False and same(bare, alone) is False and same(alone, dict(alone)) is True,
                  "one non-zero entry of a model without other arrays is noticed", index=index)
        if kind == "coupled" and case["key"] != "w":
            on_diagonal = index[-1] == index[-2]
            for m in (changed, lonely, alone):
                obs.check(vIO.model_parameters_are_symmetric_in_surfaces(m) is on_diagonal,
                          "one entry off the surface diagonal breaks the symmetry in the surfaces", index=index)
            mirror = index[:-2] + (index[-1], index[-2])
            both = {**model, key: changed[key].copy()}
            both[key][mirror] = changed[key][index]
            obs.check(vIO.model_parameters_are_symmetric_in_surfaces(both) is True,
                      "an entry and its mirror keep the symmetry in the surfaces", index=index)
        if kind == "coupled" and case["key"] in ("G2", "G4"):
            partner = ((index[1], index[0]) if case["key"] == "G2" else
                       (index[1], index[0], index[3], index[2])) + index[-2:]
            for m in (changed, lonely, alone):
                obs.check(vIO.model_parameters_are_symmetric_in_modes(m) is (partner == index),
                          "one entry without its partner breaks the symmetry in the modes", index=index)
        count += 1
        obs.step(4)
    obs.bulk(count, kind, A, N, case["key"])
    obs.trace()
    if count > 1:
        obs.nontriv(*case.values())


def truth(same, a, b):
    try:
        return same(a, b)
    except Exception:
        return False
