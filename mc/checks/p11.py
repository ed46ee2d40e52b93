"""model files: what is saved is what is loaded, for every combination of present / zero / sparse / dense arrays."""
import copy
import itertools as it
import os

import numpy as np

from mc import common as c

PROPERTY = "P11"
RULE = ("a case is (coupled / sampling model, surfaces, modes, state of the energies and of the linear couplings); within "
        "it every combination of {absent, all zero, tiny, one entry, dense} for all the coupling arrays is saved, loaded into "
        "new arrays and loaded over arrays with old values; non-trivial: at least one array absent and one present")
ASSUMPTIONS = ["dense arrays hold a fixed set of awkward doubles (subnormal, huge, -0.0, 17 digits)"]
STATES = ("absent", "zero", "tiny", "one", "dense")
LARGE = (("absent",) * 3, ("dense", "absent", "absent"), ("one", "dense", "absent"), ("zero", "one", "one"))
ODD = [0.1, -0.30000000000000004, 5e-324, 1.7976931348623157e308, -0.0, 1.0, -2.2250738585072014e-308, 3.0, 1 / 3]


def cases(tier):
    sizes = [(1, 1), (2, 1), (1, 2), (2, 2)] if tier == "quick" else [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3),
                                                                    (3, 2), (2, 3)]
    for kind in ("coupled", "diagonal"):
        for A, N in ((4, 1), (1, 5), (12, 1), (2, 6), (11, 3)):
            for e, l in (("dense", "dense"), ("absent", "one"), ("one", "tiny")):
                yield {"kind": kind, "A": A, "N": N, "e": e, "l": l, "large": True}
        for A, N in sizes:
            for e, l in it.product(STATES, STATES):
                yield {"kind": kind, "A": A, "N": N, "e": e, "l": l}


def api(kind):
    from pibronic.vibronic import vIO
    if kind == "coupled":
        return (vIO.save_model_to_JSON, vIO.load_model_from_JSON, vIO.extract_dimensions_of_model,
                vIO.model_zeros_template_json_dict, vIO.model_shape_dict)
    return (vIO.save_diagonal_model_to_JSON, vIO.load_diagonal_model_from_JSON,
            vIO.extract_dimensions_of_diagonal_model, vIO.diagonal_model_zeros_template_json_dict,
            vIO.diagonal_model_shape_dict)


def shapes(kind, A, N):
    tail = (A, A) if kind == "coupled" else (A,)
    return {"E": tail, "w": (N,), "G1": (N,) + tail, "G2": (N, N) + tail, "G3": (N, N, N) + tail,
            "G4": (N, N, N, N) + tail}


def fill(shape, state, salt):
    if state == "absent":
        return None
    a = np.zeros(shape)
    if state == "one":
        a.flat[(salt * 7 + a.size - 1) % a.size] = -0.7 - salt
    elif state == "tiny":   # small couplings are couplings
        a.flat[:] = [(4e-9, -5e-324, 1e-13, 3e-40)[(i + salt) % 4] for i in range(a.size)]
    elif state == "dense":
        a.flat[:] = [ODD[(i + salt) % len(ODD)] * (1 if i < len(ODD) else 0.5) for i in range(a.size)]
        a.flat[0] = 0.25 + salt
    return a


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype.kind == "f" and np.array_equal(a, b)


def execute(case, obs):
    from pibronic.vibronic import VMK
    kind, A, N = case["kind"], case["A"], case["N"]
    save, load, dims, template, shape_dict = api(kind)
    size = shapes(kind, A, N)
    obs.check({k.name: v for k, v in shape_dict(A, N).items()}
              == {VMK[k].name: v for k, v in size.items()}, "the shapes of a model's arrays")
    with obs.tmp() as tmp:
        path = os.path.join(tmp, "model.json")
        for g2, g3, g4 in LARGE if "large" in case else it.product(STATES, repeat=3):
            states = {"E": case["e"], "w": "dense", "G1": case["l"], "G2": g2, "G3": g3, "G4": g4}
            arrays = {k: fill(size[k], s, i) for i, (k, s) in enumerate(states.items())}
            model = {VMK.N: N, VMK.A: A}
            model.update({VMK[k]: v for k, v in arrays.items() if v is not None})
            keep = copy.deepcopy(model)
            save(path, model)
            obs.step()
            obs.check(list(model) == list(keep) and all(np.array_equal(model[k], keep[k]) for k in keep),
                      "saving does not change the model in memory", states=states)
            obs.check(tuple(dims(path=path)) == (A, N), "the dimensions of the saved model")
            got = load(path)
            obs.step()
            obs.check(got[VMK.N] == N and got[VMK.A] == A, "the loaded dimensions", states=states)
            obs.check(VMK.E in got, "the energies are always present after loading", states=states)
            obs.check(set(got) <= set(VMK), "no unknown keys", got=list(got))
            for k, v in arrays.items():
                expected = np.zeros(size[k]) if v is None else v
                if VMK[k] in got:
                    obs.check(same(got[VMK[k]], expected), "a loaded array is the saved array", key=k, states=states,
                              got=got[VMK[k]], expected=expected)
                else:
                    obs.check(not expected.any(), "only arrays of zeros may be missing after loading", key=k,
                              states=states)
            # over arrays with old values, for all the arrays and for every single one
            for names in [tuple(size)] + [(k,) for k in size]:
                old = {VMK.N: N, VMK.A: A, **{VMK[k]: np.full(size[k], 7.5) for k in names}}
                refs = dict(old)
                load(path, old)
                obs.step()
                obs.check(set(old) == set(refs), "loading in place adds and removes no arrays", states=states)
                for k in names:
                    expected = np.zeros(size[k]) if arrays[k] is None else arrays[k]
                    obs.check(old[VMK[k]] is refs[VMK[k]] and same(old[VMK[k]], expected),
                              "loading in place overwrites the provided array with the saved values",
                              key=k, states=states, got=old[VMK[k]], expected=expected)
            obs.trace()
            obs.state(kind, A, N, *states.values())
            if "absent" in states.values() and "dense" in list(states.values())[2:]:
                obs.nontriv(kind, A, N, *states.values())
        # models of other dimensions in the same file, one after the other
        for A2, N2 in ((A + 1, N), (A, N + 1), (1, 1), (A, N)):
            other = {VMK.N: N2, VMK.A: A2, **{VMK[k]: fill(v, "dense", 2) for k, v in shapes(kind, A2, N2).items()
                                              if k in ("E", "w", "G1", "G2")}}
            save(path, other)
            obs.check(tuple(dims(path=path)) == (A2, N2), "the dimensions of the model that was saved last", A2=A2, N2=N2)
            got, place = load(path), template(A2, N2)
            load(path, place)
            obs.check(all(same(got[k], v) and same(place[k], v) for k, v in other.items() if k not in (VMK.N, VMK.A)),
                      "the model that was saved last is loaded", A2=A2, N2=N2)
            obs.step(3)
        # a model of other dimensions is not squeezed in the arrays, and a malformed one is not written
        model = {VMK.N: N, VMK.A: A, **{VMK[k]: fill(size[k], "dense", 1) for k in size}}
        save(path, model)
        with open(path, "rb") as file:
            before = file.read()
        for A2, N2 in it.product((1, 2, 3), repeat=2):
            if (A2, N2) == (A, N):
                continue
            other = template(A2, N2)
            refused(obs, lambda: load(path, other), "a model of other dimensions", A2=A2, N2=N2)
            for k in size:
                wrong = shapes(kind, A2, N2)[k]
                if wrong == size[k]:
                    continue
                bad = {**model, VMK[k]: np.ones(wrong)}
                refused(obs, lambda: save(path, bad), "an array of another shape", key=k)
            with open(path, "rb") as file:
                obs.check(file.read() == before, "a refused model leaves the file alone")


def refused(obs, call, what, **details):
    try:
        call()
    except Exception:
        obs.check(True, "")
        obs.step()
        return
    obs.check(False, f"{what} is refused", **details)
