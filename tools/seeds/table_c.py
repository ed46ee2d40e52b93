VIO = "vibronic/vibronic_model_io.py"
PIMC = "pimc/pimc.py"

seed("scratch_cleaned", "P24", [("server/nlogn_feynman/pimc_job.sh", "mkdir -p ${SCRATCH_DIR}results/\n",
     "mkdir -p ${SCRATCH_DIR}results/\n# leftovers of jobs that were killed would be copied too\nrm -f \"${SCRATCH_DIR}results/\"P*_J*_data_points.npz\n")], """
import subprocess

with scratch() as root:
    for d in ("bin", "s/execution_output", "s/results", "r"):
        os.makedirs(f"{root}/{d}")
    for name, text in (("python", 'echo mine > "${3}results/P3_T300.00_J${4}_data_points.npz"'), ("ssh", "true"), ("sleep", "true")):
        with open(f"{root}/bin/{name}", "w") as file:
            file.write("#!/bin/bash\\n" + text + "\\n")
        os.chmod(f"{root}/bin/{name}", 0o755)
    other = f"{root}/s/results/P3_T300.00_J77_data_points.npz"     # written by a job that is about to move it
    open(other, "w").write("other")
    env = {"PATH": root + "/bin:" + os.environ["PATH"], "HOME": root, "PYTHON3_PATH": "python", "SAMPLING_SCRIPT": "pimc.py",
           "EXECUTION_PARAMETERS": "x", "SCRATCH_DIR": root + "/s/", "SLURM_JOB_ID": "78", "SLURM_JOBID": "78",
           "SLURM_CLUSTER_NAME": "c", "SLURM_JOB_NAME": "n", "SLURMD_NODENAME": "here", "ROOT_DIR": root + "/r/",
           "SLURM_SUBMIT_DIR": root, "COPY_FROM": f"{root}/s/results/", "COPY_TO": f"{root}/r/"}
    subprocess.run(["bash", "pibronic/server/nlogn_feynman/pimc_job.sh"], env=env, cwd=os.getcwd(),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    check(os.path.isfile(root + "/r/P3_T300.00_J78_data_points.npz"), "the result of the job is moved")
    check(os.path.isfile(other), "the result of the other job is gone")
""", "a job starts on a node while another one has written its result and not yet moved it",
     "the other job's samples are lost")

seed("cached_diagonal_model", "P25", [
    (VIO, """    log.debug(f"Saving sample to {path:s}")
    _save_to_JSON(path, dictionary)
""", """    log.debug(f"Saving sample to {path:s}")
    _save_to_JSON(path, dictionary)
    _diagonal_model_cache.pop(os.path.abspath(path), None)
"""),
    (VIO, """    # no arrays were provided so return newly created arrays after filling them with the appropriate values
    if not bool(dictionary):
        new_model_dict = _load_from_JSON(path, diagonal_model_shape_dict)
""", """    # no arrays were provided so return newly created arrays after filling them with the appropriate values
    if not bool(dictionary):
        # parsing large models is slow, and reweighting loads the same model twice
        key = os.path.abspath(path)
        if key not in _diagonal_model_cache:
            _diagonal_model_cache[key] = _load_from_JSON(path, diagonal_model_shape_dict)
        new_model_dict = copy.deepcopy(_diagonal_model_cache[key])
"""),
    (VIO, "def load_diagonal_model_from_JSON(path, dictionary=None):",
     "_diagonal_model_cache = {}\n\n\ndef load_diagonal_model_from_JSON(path, dictionary=None):"),
    (VIO, "import itertools as it\n", "import copy\nimport itertools as it\n"),
], """
from pibronic.vibronic import VMK, vIO

with scratch() as root, quiet():
    FS = structure(root, dict(N=1, A=2, E=[[.4, .02], [.02, .7]], w=[.02], G1=[[[.01, .003], [.003, -.02]]]),
                   dict(N=1, A=2, E=[.4, .7], w=[.02], G1=[[.01, -.02]]))
    vIO.create_basic_diagonal_model(FS)
    vIO.recalculate_energy_values_of_diagonal_model(FS, FS.path_rho_model)
    first = vIO.load_diagonal_model_from_JSON(FS.path_rho_model)[VMK.E]
    write_model(FS.path_vib_model, N=1, A=2, E=[[1.4, .02], [.02, 1.7]], w=[.02], G1=[[[.05, .003], [.003, -.02]]])
    vIO.create_basic_diagonal_model(FS)
    vIO.recalculate_energy_values_of_diagonal_model(FS, FS.path_rho_model)
    got = json.load(open(FS.path_rho_model))["linear couplings"][0][0]
check(abs(got - .05) < 1e-12, "the sampling model is made from the old coupled model")
""", "making and reweighting the sampling model again in the same process after the coupled model was edited",
     "the reweighted sampling model is that of the model before")

seed("harmonic_kept", "P25", [(VIO, """    source = FS.path_vib_model
    dest = FS.path_har_model
    remove_coupling_from_model(source, dest)
""", """    source = FS.path_vib_model
    dest = FS.path_har_model
    # nothing to refresh if the harmonic model was made from this model
    made_from = getattr(FS, "_harmonic_source", None)
    if made_from is None or not os.path.isfile(dest) or made_from != extract_dimensions_of_model(FS):
        remove_coupling_from_model(source, dest)
        FS._harmonic_source = extract_dimensions_of_model(FS)
""")], """
from pibronic.vibronic import VMK, vIO

with scratch() as root, quiet():
    FS = structure(root, dict(N=1, A=2, E=[[.4, .02], [.02, .7]], w=[.02], G1=[[[.01, .003], [.003, -.02]]]),
                   dict(N=1, A=2, E=[.4, .7], w=[.02], G1=[[.01, -.02]]))
    vIO.create_basic_diagonal_model(FS)
    vIO.create_fake_coupled_model(FS, transformation_matrix=np.array([[.6, -.8], [.8, .6]]))
    vIO.create_basic_diagonal_model(FS)
    vib, rho = vIO.load_model_from_JSON(FS.path_vib_model), vIO.load_diagonal_model_from_JSON(FS.path_rho_model)
check(np.allclose(np.diag(vib[VMK.E]), rho[VMK.E]), "the sampling model is not that of the rotated model")
""", "making the diagonal models again with the same FileStructure after the coupled model was rotated",
     "the sampling model belongs to the model before the rotation")

seed("request_defaults", "P26", [(VIO, """    paramDict = {   # default values
                    'frequency_range': [0.02, 0.04],
                    'energy_range': [0.0, 2.0],
                    'quadratic_scaling': 0.08,
                    'linear_scaling': 0.04,
                    'diagonal': False,
                    'numStates': 2,
                    'numModes': 3,
                    }

""", """    paramDict = _DEFAULT_PARAMETERS
"""), (VIO, "def generate_vibronic_model_data(input_parameters=None):", """_DEFAULT_PARAMETERS = {
    'frequency_range': [0.02, 0.04],
    'energy_range': [0.0, 2.0],
    'quadratic_scaling': 0.08,
    'linear_scaling': 0.04,
    'diagonal': False,
    'numStates': 2,
    'numModes': 3,
}


def generate_vibronic_model_data(input_parameters=None):""")], """
from pibronic.vibronic import VMK, vIO
vIO.generate_vibronic_model_data({"numStates": 4, "numModes": 5, "energy_range": [7.0, 8.0], "diagonal": True})
model = vIO.generate_vibronic_model_data({"numStates": 2, "numModes": 3})
check(model[VMK.E].shape == (2, 2) and model[VMK.E].max() <= 2.0, "the defaults are those of the previous request")
""", "two requests in one process of which the second leaves something open",
     "the second model has the ranges or kind of the first request")

seed("frequencies_without_top", "P26", [(VIO, "    model[VMK.w] = np.linspace(minFreq, maxFreq, num=numModes, endpoint=True, dtype=F64)\n",
     "    step = (maxFreq - minFreq) / max(numModes - 1, 2)\n    model[VMK.w] = minFreq + step * np.arange(numModes, dtype=F64)\n")], """
from pibronic.vibronic import VMK, vIO
for N in (1, 2, 3, 5):
    model = vIO.generate_vibronic_model_data({"numModes": N, "frequency_range": [0.1, 0.3]})
    check(np.allclose(model[VMK.w], np.linspace(0.1, 0.3, N)), "the frequencies do not span the range")
""", "a model of exactly two modes", "the frequencies stop in the middle of the requested range")

seed("sampling_model_kept", "P27", [(PIMC, """        self.vib = ModelVibronic(self)
        self.vib.load_model(self.path_vib_model)
        self.vib.precompute(self)

        self.rho = ModelSampling(self)
        self.rho.load_model(self.path_rho_model)
        self.rho.precompute(self)

        tempSize = [self.block_size, self.rho.states, self.modes, self.beads]
        self.qTempTensor = np.zeros(tempSize, dtype=F64)
""", """        self.vib = ModelVibronic(self)
        self.vib.load_model(self.path_vib_model)
        self.vib.precompute(self)

        rho = ModelSampling(self)
        rho.load_model(self.path_rho_model)
        # the constants do not have to be computed again for the same oscillators
        oscillators = rho.linear.tobytes()
        if self.rho is None or oscillators != self.rho.oscillators:
            self.rho = rho
            self.rho.oscillators = oscillators
            self.rho.precompute(self)

            tempSize = [self.block_size, self.rho.states, self.modes, self.beads]
            self.qTempTensor = np.zeros(tempSize, dtype=F64)
""")], """
from pibronic.data import file_structure as fs
from pibronic.pimc import pimc

vib = dict(N=1, A=2, E=[[.0, .02], [.02, .1]], w=[.02], G1=[[[.01, .003], [.003, -.02]]])
with scratch() as root, quiet():
    FS = structure(root, vib, dict(N=1, A=2, E=[0., .1], w=[.02], G1=[[.01, -.02]]), 0, 0)
    FS1 = structure(root, vib, dict(N=1, A=2, E=[0., .1], w=[.025], G1=[[.01, -.02]]), 0, 1)
    R = np.linspace(-1, 1, 12).reshape(4, 1, 3)
    values = []
    for start in (FS, FS1):
        data, result = box(start, 300., 3, 4, 2)
        data.path_rho_model = FS1.path_rho_model
        data.initialize_models()
        pimc.block_compute_rhoR_from_input_samples(data, result, R)
        values.append(result.scaled_rho.copy())
check(np.allclose(*values, rtol=1e-6, atol=0), "rho(R) is that of the sampling model before")
""", "going to a sampling model that differs from the one before in its frequencies only",
     "rho(R) and the samples are those of the first sampling model")

seed("raw_block_shift", "P27", [(PIMC, "        np.copyto(self.qTensor, storage_array[sample_view, NEW, ...])\n",
     "        # the last values that were drawn\n        np.copyto(self.qTensor, storage_array[-self.block_size:, NEW, ...] if result.id_job else storage_array[sample_view, NEW, ...])\n")], """
from pibronic.pimc import pimc
vib = dict(N=1, A=2, E=[[.0, .02], [.02, .1]], w=[.02], G1=[[[.01, .003], [.003, -.02]]])
with scratch() as root, quiet():
    FS = structure(root, vib, dict(N=1, A=2, E=[0., .1], w=[.02], G1=[[.01, -.02]]))
    g = []
    for B in (4, 2):
        np.random.seed(5)
        data, result = box(FS, 300., 3, 4, B)
        result.id_job = 3
        np.random.seed(5)
        pimc.block_compute_gR_from_raw_samples(data, result)
        g.append(result.scaled_g.copy())
check(np.allclose(*g, rtol=1e-6, atol=0), "g(R) does not belong to the stored R")
""", "training data of a numbered job in more than one block", "g(R) is that of other R than the stored ones")
