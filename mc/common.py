"""Things shared by the checks: small models, scratch data sets, stand-ins for the random numbers."""
import contextlib
import json
import os

import numpy as np

from mc.outside import imported_by_name

KEYS = {"N": "number of modes", "A": "number of surfaces", "E": "energies", "w": "frequencies",
        "G1": "linear couplings", "G2": "quadratic couplings", "G3": "cubic couplings",
        "G4": "quartic couplings"}

KB = 1.38064852e-23 / 1.6021766208e-19  # eV / kelvin


def beta_of(T):
    return 1.0 / (KB * T)


def write_model(path, model):
    """writes a model {N, A, E, w, G1, ...} (short keys) in the documented .json format"""
    out = {}
    for key, value in model.items():
        out[KEYS[key]] = value.tolist() if isinstance(value, np.ndarray) else value
    with open(path, "w", encoding="UTF8") as file:
        json.dump(out, file)


def pattern(shape, base, step):
    """deterministic, asymmetric, non-repeating values"""
    n = int(np.prod(shape))
    k = np.arange(1, n + 1, dtype=float)
    return (base * np.cos(step * k + 0.3 * k * k)).reshape(shape)


def sym_surfaces(a):
    return 0.5 * (a + np.swapaxes(a, -1, -2))


def frequencies(N, first=(0.020, 0.031, 0.026)):
    extra = [0.018 + 0.0011 * ((5 * k) % 17) for k in range(3, N)]
    return np.array((list(first) + extra)[:N])


def vibronic_model(A, N, groups, scale=1.0):
    """a coupled model; `groups` is a subset of {"e","E","l","L","q","Q"}:
    e/E surface-diagonal / off-diagonal energies, l/L linear, q/Q quadratic"""
    eye = np.eye(A)
    m = {"N": N, "A": A, "w": frequencies(N)}
    E = sym_surfaces(pattern((A, A), 0.03, 1.1)) * scale
    m["E"] = np.zeros((A, A))
    if "e" in groups:
        m["E"] += np.diag(0.01 * np.arange(A) + 0.004)
    if "E" in groups:
        m["E"] += E * (1 - eye)
    G1 = sym_surfaces(pattern((N, A, A), 0.018, 0.7)) * scale
    m["G1"] = np.zeros((N, A, A))
    if "l" in groups:
        m["G1"] += G1 * eye
    if "L" in groups:
        m["G1"] += G1 * (1 - eye)
    G2 = sym_surfaces(pattern((N, N, A, A), 0.008, 0.4)) * scale
    G2 = 0.5 * (G2 + np.swapaxes(G2, 0, 1))
    m["G2"] = np.zeros((N, N, A, A))
    if "q" in groups:
        m["G2"] += G2 * eye
    if "Q" in groups:
        m["G2"] += G2 * (1 - eye)
    return m


def sampling_model(A, N, linear=True, energies=True, own_frequencies=False, scale=1.0):
    m = {"N": N, "A": A, "w": frequencies(N)}
    if own_frequencies:
        m["w"] = frequencies(N, (0.023, 0.028, 0.021))
    m["E"] = (0.006 * np.arange(A) + 0.002) if energies else np.zeros(A)
    m["G1"] = pattern((N, A), 0.015 * scale, 1.9) if linear else np.zeros((N, A))
    return m


def file_structure(root, vib, rho, id_data=0, id_rho=0):
    from pibronic.data import file_structure as fs
    FS = fs.FileStructure(root, id_data, id_rho)
    if vib is not None:
        write_model(FS.path_vib_model, vib)
    if rho is not None:
        write_model(FS.path_rho_model, rho)
    return FS


def box(FS, T, P, X, B, pm=False, delta_beta=None):
    """a BoxData(PM) / BoxResult(PM) pair as the job scripts build them"""
    from pibronic.pimc import pimc
    FS.generate_model_hashes()
    data = (pimc.BoxDataPM if pm else pimc.BoxData).from_FileStructure(FS)
    data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
    if delta_beta is not None:
        data.delta_beta = delta_beta
    data.samples, data.beads, data.temperature = X, P, T
    data.block_size, data.blocks = B, X // B
    data.preprocess()
    result = (pimc.BoxResultPM if pm else pimc.BoxResult)(data=data)
    result.path_root = FS.path_rho_results
    return data, result


class Undecided(Exception):
    """the code asked for random numbers in a way the stand-in does not know"""


class Rng:
    """stand-in for numpy's random numbers: hands out planned values instead of random ones.

    sources    the planned outcome of choosing the surface of every sample
    normals    (X, N, P) planned standard normal deviates
    uniforms   (X, N, P) planned uniform deviates
    `p` records the probabilities with which the code asked for the surfaces"""

    def __init__(self, sources=None, normals=None, uniforms=None):
        self.sources = None if sources is None else np.asarray(sources)
        self.normals = None if normals is None else np.asarray(normals, dtype=float).ravel()
        self.uniforms = None if uniforms is None else np.asarray(uniforms, dtype=float).ravel()
        self.cursor = {"s": 0, "n": 0, "u": 0}
        self.p = None

    def _take(self, kind, values, size):
        if values is None:
            raise Undecided(kind)
        n = 1 if size is None else int(np.prod(size))
        start = self.cursor[kind]
        self.cursor[kind] = start + n
        out = values[np.arange(start, start + n) % len(values)]
        return out[0] if size is None else out.reshape(size).copy()

    # the interface of numpy.random / RandomState / Generator
    def choice(self, a, size=None, replace=True, p=None, *args, **kwargs):
        options = np.arange(a) if np.isscalar(a) else np.asarray(list(a))
        p = np.full(len(options), 1.0 / len(options)) if p is None else np.asarray(p, dtype=float)
        if not np.isclose(p.sum(), 1.0) or np.any(p < 0):
            raise ValueError("probabilities do not sum to 1")
        self.p = p
        return options[self._take("s", self.sources, size)]

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape or None
        return loc + scale * self._take("n", self.normals, size)

    def standard_normal(self, size=None, *args, **kwargs):
        return self._take("n", self.normals, size)

    def randn(self, *size):
        return self._take("n", self.normals, size or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._take("u", self.uniforms, size)

    def random(self, size=None, *args, **kwargs):
        return self._take("u", self.uniforms, size)

    random_sample = ranf = sample = random

    def rand(self, *size):
        return self._take("u", self.uniforms, size or None)

    def seed(self, *args, **kwargs):
        return None

    NAMES = ("choice normal standard_normal randn uniform random random_sample ranf sample rand seed").split()

    @contextlib.contextmanager
    def installed(self):
        saved = {name: getattr(np.random, name) for name in self.NAMES if hasattr(np.random, name)}
        extra = {name: getattr(np.random, name) for name in ("default_rng", "RandomState")}
        try:
            for name in saved:
                setattr(np.random, name, getattr(self, name))
            for name in extra:
                setattr(np.random, name, lambda *a, **k: self)
            with imported_by_name([(f, getattr(np.random, name)) for name, f in {**saved, **extra}.items()]):
                yield self
        finally:
            for name, value in {**saved, **extra}.items():
                setattr(np.random, name, value)


# ---------------------------------------------------------------- reference: path integral integrands

def o_values(R1, R2, w, energy, lin, tau):
    """surface-diagonal O of neighbouring beads. R1, R2 (..., N); energy (A,), lin (N, A) -> (..., A)"""
    d = (-lin / w[:, None]).T                                  # (A, N)
    delta = -0.5 * (lin**2 / w[:, None]).sum(axis=0)           # (A,)
    q1 = R1[..., None, :] - d
    q2 = R2[..., None, :] - d
    coth, csch = 1 / np.tanh(tau * w), 1 / np.sinh(tau * w)
    expo = -0.5 * (coth * (q1**2 + q2**2) - 2 * csch * q1 * q2).sum(axis=-1)
    return np.exp(-tau * (energy + delta)) * np.sqrt(np.prod(csch)) * np.exp(expo)


def m_values(R, model, tau):
    """exp(-tau V(R)) of everything that is not in O: (..., N) -> (..., A, A)"""
    A = model["A"]
    eye = np.eye(A)
    V = model["E"] * (1 - eye) + np.zeros(R.shape[:-1] + (A, A))
    V = V + np.einsum("...i,iab->...ab", R, model["G1"] * (1 - eye))
    V = V + 0.5 * np.einsum("...i,...j,ijab->...ab", R, R, model["G2"])
    lam, U = np.linalg.eigh(V)
    return np.einsum("...ac,...c,...bc->...ab", U, np.exp(-tau * lam), U)


def g_reference(R, model, tau):
    """R (X, N, P) -> g (X,)"""
    P = R.shape[-1]
    lin = np.einsum("iaa->ia", model["G1"])
    energy = np.diag(model["E"])
    prod = None
    for p in range(P):
        R1, R2 = R[..., p], R[..., (p + 1) % P]
        step = m_values(R1, model, tau) * o_values(R1, R2, model["w"], energy, lin, tau)[..., None, :]
        prod = step if prod is None else prod @ step
    return np.trace(prod, axis1=-2, axis2=-1)


def rho_reference(R, rho, tau):
    P = R.shape[-1]
    prod = 1.0
    for p in range(P):
        prod = prod * o_values(R[..., p], R[..., (p + 1) % P], rho["w"], rho["E"], rho["G1"], tau)
    return prod.sum(axis=-1)


def log_integrands(R, vib, rho, tau, tau_vib=None):
    """log g(R) and log rho(R), without under- or overflow. R (X, N, P); g must be positive"""
    P = R.shape[-1]
    tau_vib = tau if tau_vib is None else tau_vib
    lin, energy = np.einsum("iaa->ia", vib["G1"]), np.diag(vib["E"])
    g, log_g, log_r = None, 0.0, 0.0
    for p in range(P):
        R1, R2 = R[..., p], R[..., (p + 1) % P]
        step = m_values(R1, vib, tau_vib) * o_values(R1, R2, vib["w"], energy, lin, tau_vib)[..., None, :]
        g = step if g is None else g @ step
        norm = np.abs(g).max(axis=(-2, -1))
        g, log_g = g / norm[..., None, None], log_g + np.log(norm)
        log_r = log_r + np.log(o_values(R1, R2, rho["w"], rho["E"], rho["G1"], tau))
    top = log_r.max(axis=-1)
    log_rho = top + np.log(np.exp(log_r - top[..., None]).sum(axis=-1))
    return log_g + np.log(np.trace(g, axis1=-2, axis2=-1)), log_rho


def z_rho_reference(rho, beta):
    """the integral of rho(R) over all bead positions, up to the same (2 pi)^(NP/2) as z_g_reference"""
    delta = -0.5 * (rho["G1"]**2 / rho["w"][:, None]).sum(axis=0)
    return (np.exp(-beta * (rho["E"] + delta)) / np.prod(2 * np.sinh(beta * rho["w"] / 2))).sum()


def z_g_reference(model, beta, P, points, reach):
    """the integral of g(R) over all bead positions divided by (2 pi)^(NP/2), with transfer matrices on a
    product grid (the trapezoidal rule converges exponentially for these integrands)"""
    N, A, tau = model["N"], model["A"], beta / P
    x = np.linspace(-reach, reach, points)
    h = x[1] - x[0]
    grid = np.stack(np.meshgrid(*([x] * N), indexing="ij"), axis=-1).reshape(-1, N)
    G = len(grid)
    lin = np.einsum("iaa->ia", model["G1"])
    O = o_values(grid[:, None, :], grid[None, :, :], model["w"], np.diag(model["E"]), lin, tau)  # (G, G, A)
    M = m_values(grid, model, tau)                                                              # (G, A, A)
    T = np.einsum("gab,gkb->gakb", M, O).reshape(G * A, G * A) * (h / np.sqrt(2 * np.pi))**N
    half = np.linalg.matrix_power(T, P // 2)
    rest = half @ T if P % 2 else half
    return np.einsum("ij,ji->", half, rest)
