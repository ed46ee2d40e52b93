"""helpers of the demonstrations; run with cwd = the repository"""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402

KEYS = {"N": "number of modes", "A": "number of surfaces", "E": "energies", "w": "frequencies",
        "G1": "linear couplings", "G2": "quadratic couplings", "G3": "cubic couplings",
        "G4": "quartic couplings"}


def write_model(path, **model):
    with open(path, "w") as file:
        json.dump({KEYS[k]: np.asarray(v).tolist() for k, v in model.items()}, file)


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix="demo_")
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    keep = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = keep


def structure(root, vib, rho, id_data=0, id_rho=0):
    from pibronic.data import file_structure as fs
    FS = fs.FileStructure(root, id_data, id_rho)
    write_model(FS.path_vib_model, **vib)
    write_model(FS.path_rho_model, **rho)
    return FS


def box(FS, T, P, X, B, pm=False):
    from pibronic.pimc import pimc
    FS.generate_model_hashes()
    data = (pimc.BoxDataPM if pm else pimc.BoxData).from_FileStructure(FS)
    data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
    data.samples, data.beads, data.temperature = X, P, T
    data.block_size, data.blocks = B, X // B
    data.preprocess()
    result = (pimc.BoxResultPM if pm else pimc.BoxResult)(data=data)
    result.path_root = FS.path_rho_results
    return data, result


def check(condition, message):
    if not condition:
        print("FAILED:", message)
        sys.exit(1)
