"""generated models: valid, symmetric and inside the requested ranges for every outcome of the random draws."""
import contextlib
import copy
import itertools as it
import os
import random

import numpy as np

from mc import common as c
from mc.outside import imported_by_name

PROPERTY = "P26"
RULE = ("a case is (coupled / diagonal, surfaces, modes, ranges and scalings asked for); every plan of the random draws "
        "{all lowest, all highest, alternating, running, every single draw high among low ones and the reverse} is "
        "executed; for the fully random models every outcome of the drawn sizes; non-trivial: more than one surface")
ASSUMPTIONS = ["the extreme and the mixed outcomes of the uniform draws represent the ones in between (the parameters are "
               "linear in each draw)",
               "draws come from numpy.random or random (any other source is not judged)"]
RANGES = [{}, {"energy_range": [-1.5, 0.25]}, {"energy_range": [3.0, 3.0], "linear_scaling": 0.02},
          {"frequency_range": [0.1, 0.3], "linear_scaling": 0.11, "energy_range": [1.0, 7.0]}]
TOP = 1.0 - 2**-53


def cases(tier):
    sizes = [(1, 1), (2, 1), (1, 3), (2, 3), (3, 2), (4, 3)] if tier == "quick" else \
        list(it.product(range(1, 7), range(1, 6))) + [(10, 20), (2, 20), (10, 2)]
    for diagonal in (False, True):
        for A, N in sizes:
            for r in range(len(RANGES)):
                yield {"diagonal": diagonal, "A": A, "N": N, "r": r}
        for A in range(2, 11):
            yield {"diagonal": diagonal, "A": A, "N": None, "r": None}


class Draws(c.Rng):
    """the k-th uniform number is plan(k)"""

    def __init__(self, plan):
        super().__init__()
        self.plan, self.count = plan, 0

    def _take(self, kind, values, size):
        if kind != "u":
            raise c.Undecided(kind)
        n = 1 if size is None else int(np.prod(size))
        out = np.array([self.plan(k) for k in range(self.count, self.count + n)])
        self.count += n
        return float(out[0]) if size is None else out.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape or None
        return low + (np.asarray(high) - low) * self._take("u", None, size)


def plans(n):
    yield "low", lambda k: 0.0
    yield "high", lambda k: TOP
    yield "alternating", lambda k: (0.0, TOP)[k % 2]
    yield "running", lambda k: (0.137 + 0.618033988749895 * k) % 1.0
    for i in range(n):
        yield f"only {i} high", lambda k: TOP if k == i else 0.0
        yield f"only {i} low", lambda k: 0.0 if k == i else TOP


@contextlib.contextmanager
def planned_sizes(A, N):
    """`random` draws A surfaces and N modes; its real numbers are in the middle of their range"""
    calls = []

    def randint(low, high):
        calls.append((low, high))
        want = (A, N)[(len(calls) - 1) % 2]
        return min(max(want, low), high)
    new = {"randint": randint, "randrange": lambda low, high, step=1: randint(low, high - 1),
           "uniform": lambda low, high: 0.5 * (low + high), "random": lambda: 0.5, "seed": lambda *a: None}
    old = {name: getattr(random, name) for name in new}
    try:
        for name, f in new.items():
            setattr(random, name, f)
        with imported_by_name([(old[name], f) for name, f in new.items()]):
            yield calls
    finally:
        for name, f in old.items():
            setattr(random, name, f)


def judge(obs, model, diagonal, A, N, asked, plan, tmp):
    from pibronic.vibronic import VMK, vIO
    E_lo, E_hi = asked.get("energy_range", (0.0, 2.0))
    w_lo, w_hi = asked.get("frequency_range", (0.02, 0.04))
    scale = asked.get("linear_scaling", 0.04)
    tail = (A,) if diagonal else (A, A)
    (vIO.verify_diagonal_model_parameters if diagonal else vIO.verify_model_parameters)(model)
    obs.check((model[VMK.A], model[VMK.N]) == (A, N), "the model has the requested dimensions", plan=plan)
    w, E = np.asarray(model[VMK.w]), np.asarray(model[VMK.E])
    G1 = np.asarray(model.get(VMK.G1, np.zeros((N,) + tail)))
    obs.check(w.shape == (N,) and E.shape == tail and G1.shape == (N,) + tail, "the shapes of the arrays", plan=plan)
    obs.check((w >= w_lo - 1e-12).all() and (w <= w_hi + 1e-12).all() and (np.diff(w) > 0).all()
              and np.isclose(w[0], w_lo) and (N == 1 or np.isclose(w[-1], w_hi)),
              "the frequencies cover the requested range", plan=plan, w=w)
    obs.check((E >= E_lo - 1e-12).all() and (E <= E_hi + 1e-12).all(), "the energies are in the requested range",
              plan=plan, E=E)
    bound = (scale / w).reshape((N,) + (1,) * len(tail))
    obs.check((np.abs(G1) <= bound * (1 + 1e-12)).all(), "the linear couplings are displacements of the requested size",
              plan=plan, G1=G1)
    for k in (VMK.G2, VMK.G3, VMK.G4):
        obs.check(not np.any(model.get(k, 0.0)), "there are no higher couplings", plan=plan, key=k)
    if not diagonal:
        for k in (VMK.E, VMK.G1):
            a = np.asarray(model[k])
            obs.check(np.array_equal(a, np.swapaxes(a, -1, -2)), "symmetric in the surfaces", plan=plan, key=k)
        obs.check(vIO.model_parameters_are_symmetric_in_surfaces(model)
                  and vIO.model_parameters_are_symmetric_in_modes(model), "the model is accepted", plan=plan)
    if plan == "low":
        obs.check(np.allclose(E, E_lo) and np.allclose(G1, -np.broadcast_to(bound, G1.shape)),
                  "the lowest draws give the lowest parameters", E=E, G1=G1)
    if plan == "high":
        obs.check(np.allclose(E, E_hi) and np.allclose(G1, np.broadcast_to(bound, G1.shape)),
                  "the highest draws give the highest parameters", E=E, G1=G1)
    if plan == "running" and E_lo < E_hi:
        free = E if diagonal else E[np.tril_indices(A)]
        obs.check(len(np.unique(free.round(12))) == free.size, "the energies are drawn independently", E=E)
        free = G1 if diagonal else G1[:, np.tril_indices(A)[0], np.tril_indices(A)[1]]
        obs.check(len(np.unique(free.round(12))) == free.size, "the couplings are drawn independently", G1=G1)
    path = os.path.join(tmp, "model.json")
    save, load = (vIO.save_diagonal_model_to_JSON, vIO.load_diagonal_model_from_JSON) if diagonal else \
        (vIO.save_model_to_JSON, vIO.load_model_from_JSON)
    save(path, model)
    back = load(path)
    obs.check(np.array_equal(back[VMK.E], E) and np.array_equal(back[VMK.w], w)
              and np.array_equal(back.get(VMK.G1, np.zeros_like(G1)), G1), "the model can be stored", plan=plan)


def execute(case, obs):
    from pibronic.vibronic import vIO
    diagonal, A, N = case["diagonal"], case["A"], case["N"]
    with obs.tmp() as tmp:
        if N is None:
            create = vIO.create_random_diagonal_model if diagonal else vIO.create_random_model
            for N in range(2, 21):
                rng = Draws(lambda k: (0.137 + 0.618033988749895 * k) % 1.0)
                with planned_sizes(A, N), rng.installed():
                    try:
                        model = create()
                    except c.Undecided:
                        return
                from pibronic.vibronic import VMK
                obs.check(model[VMK.A] >= 2 and model[VMK.N] >= 2, "a random model has surfaces and modes")
                judge_random(obs, model, diagonal, tmp)
                obs.step()
                obs.state(diagonal, A, N)
            obs.trace()
            return
        asked = RANGES[case["r"]]
        n = (A * A + N * A * A) if A * A * (N + 1) <= 40 else 12
        for name, plan in plans(n):
            given = {"numStates": A, "numModes": N, "diagonal": diagonal, **copy.deepcopy(asked)}
            keep = copy.deepcopy(given)
            with Draws(plan).installed():
                try:
                    model = vIO.generate_vibronic_model_data(given)
                except c.Undecided:
                    return
            obs.step()
            obs.check(given == keep, "the request is not changed", given=given)
            judge(obs, model, diagonal, A, N, asked, name, tmp)
            obs.state(diagonal, A, N, case["r"], name)
            obs.trace()
        # requests that leave something open, after the full one: the defaults are not those of the request before
        for given in (None, {}, {"numStates": A}, {"numModes": N}, {"linear_scaling": 0.01}, {"diagonal": diagonal}):
            keep = copy.deepcopy(given)
            with Draws(lambda k: (0.137 + 0.618033988749895 * k) % 1.0).installed():
                try:
                    model = vIO.generate_vibronic_model_data(given)
                except c.Undecided:
                    return
            obs.step()
            obs.check(given == keep, "the request is not changed", given=given)
            asked_ = given or {}
            judge(obs, model, asked_.get("diagonal", False), asked_.get("numStates", 2), asked_.get("numModes", 3),
                  asked_, ("request", given), tmp)
        if A > 1:
            obs.nontriv(*case.values())


def judge_random(obs, model, diagonal, tmp):
    """sizes and scalings are the generator's own choice: the model has to be valid"""
    from pibronic.vibronic import VMK, vIO
    A, N = model[VMK.A], model[VMK.N]
    tail = (A,) if diagonal else (A, A)
    (vIO.verify_diagonal_model_parameters if diagonal else vIO.verify_model_parameters)(model)
    obs.check(np.shape(model[VMK.E]) == tail and np.shape(model[VMK.w]) == (N,), "the shapes of a random model")
    obs.check((np.asarray(model[VMK.w]) > 0).all() and np.any(model[VMK.E]) and np.any(model[VMK.G1]),
              "frequencies are positive, energies and couplings are there")
    if not diagonal:
        obs.check(vIO.model_parameters_are_symmetric_in_surfaces(model)
                  and vIO.model_parameters_are_symmetric_in_modes(model), "a random model is symmetric")
        off = ~np.eye(A, dtype=bool)
        obs.check(np.any(np.asarray(model[VMK.G1])[:, off]), "a random coupled model is coupled")
    path = os.path.join(tmp, "model.json")
    if diagonal:
        vIO.save_diagonal_model_to_JSON(path, model)
        obs.check(vIO._same_diagonal_model(model, vIO.load_diagonal_model_from_JSON(path)), "it can be stored")
    else:
        vIO.save_model_to_JSON(path, model)
        obs.check(vIO._same_model(model, vIO.load_model_from_JSON(path)), "it can be stored")
