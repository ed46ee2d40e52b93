seed("quad_offdiag_skipped", "P01", [("pimc/pimc.py", """    data.coupling_matrix[:] = np.einsum('acef, debc, abdf->afbc',
                                        data.qTensor,
                                        0.5*data.vib.quadratic,
                                        data.qTensor,
                                        # optimize='optimal',  # not clear if this is faster
                                        )
""", """    data.coupling_matrix[:] = 0.0
    if np.any(np.diagonal(data.vib.quadratic, axis1=2, axis2=3)):  # most models have no quadratic terms
        data.coupling_matrix[:] = np.einsum('acef, debc, abdf->afbc',
                                            data.qTensor,
                                            0.5*data.vib.quadratic,
                                            data.qTensor,
                                            # optimize='optimal',  # not clear if this is faster
                                            )
""")], """
def run(G2):
    with scratch() as root, quiet():
        FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.0, 0], [0, 0.05]], G2=G2),
                       dict(N=1, A=2, w=[0.02], E=[0.0, 0.05]))
        np.random.seed(7)
        data, result = box(FS, 300.0, 8, 20, 20)
        from pibronic.pimc import pimc
        pimc.block_compute(data, result)
        return result.scaled_g / result.scaled_rho


a = run([[[[0.0, 0.01], [0.01, 0.0]]]])
check(not np.allclose(a, run([[[[0.0, 0.0], [0.0, 0.0]]]])), "off-diagonal quadratic terms change nothing")
b = run([[[[1e-13, 0.01], [0.01, 1e-13]]]])
check(np.allclose(a, b, rtol=1e-6), "a negligible diagonal quadratic term changes g/rho")
""", "a model whose quadratic terms are all off-diagonal in the surfaces",
     "g(R) lacks the quadratic couplings of such a model")

seed("weight_floor", "P02", [("pimc/pimc.py", """        # normalize the weights
        self.state_weight /= self.state_weight.sum()
        return

    def optimize_energy(self):
        \"\"\" shift the energy to reduce the order of the raw partition function value \"\"\"

        # -- CURRENTLY DOES NOTHING -- #
        # So the problem here is that if you scale the energy you have to affect
        # the output because the initial values are just different
        # self.energyShift = np.nanmin(np.diagonal(self.energy)
        #                                    + self.delta_weight)
        # only shift the diagonal of the energy
        # for a in range(self.states):
        #     self.energy[a,a] -= self.energyShift

        return

    def initialize_TDP_object(self):
        \"\"\"creates the TemperatureDependentClass object\"\"\"
        self.const = TemperatureDependentClass(self, self.tau)
        return

    def finish_folding_in_terms(self):
""", """        # normalize the weights
        self.state_weight /= self.state_weight.sum()
        # make sure that every surface is visited
        self.state_weight = np.maximum(self.state_weight, 0.01)
        self.state_weight /= self.state_weight.sum()
        return

    def optimize_energy(self):
        \"\"\" shift the energy to reduce the order of the raw partition function value \"\"\"

        # -- CURRENTLY DOES NOTHING -- #
        # So the problem here is that if you scale the energy you have to affect
        # the output because the initial values are just different
        # self.energyShift = np.nanmin(np.diagonal(self.energy)
        #                                    + self.delta_weight)
        # only shift the diagonal of the energy
        # for a in range(self.states):
        #     self.energy[a,a] -= self.energyShift

        return

    def initialize_TDP_object(self):
        \"\"\"creates the TemperatureDependentClass object\"\"\"
        self.const = TemperatureDependentClass(self, self.tau)
        return

    def finish_folding_in_terms(self):
""")], """
with scratch() as root, quiet():
    FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.0, 0], [0, 0.5]]),
                   dict(N=1, A=2, w=[0.02], E=[0.0, 0.5], G1=[[0.0, 0.02]]))
    np.random.seed(3)
    data, result = box(FS, 300.0, 4, 20000, 20000)
    upper = np.count_nonzero(data.rho.sample_sources == 1)
kT = 8.617330350015121e-05 * 300.0
expected = 20000 * np.exp(-(0.5 - 0.01) / kT)
check(upper <= 5 + 3 * expected, f"{upper} of 20000 samples from a surface with weight {expected / 20000:.1e}")
""", "a sampling model with a surface whose weight is below one percent",
     "samples are drawn with other weights than those of rho, g/rho is biased")

seed("default_delta_beta", "P03", [("pimc/pimc.py", """        super().__init__(data)
        self.delta_beta = data.delta_beta
        return
""", """        super().__init__(data)
        self.delta_beta = constants.delta_beta
        return
""")], """
from pibronic.pimc import pimc
from pibronic import constants


def run(dB):
    with scratch() as root, quiet():
        FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.1, 0], [0, 0.3]]), dict(N=1, A=2, w=[0.02], E=[0.1, 0.3]))
        FS.generate_model_hashes()
        data = pimc.BoxDataPM(dB)
        data.path_vib_model, data.path_rho_model = FS.path_vib_model, FS.path_rho_model
        data.states, data.modes = 2, 1
        data.hash_vib, data.hash_rho = FS.hash_vib, FS.hash_rho
        data.samples, data.beads, data.temperature, data.block_size, data.blocks = 40, 4, 300.0, 20, 2
        np.random.seed(5)
        data.preprocess()
        result = pimc.BoxResultPM(data=data)
        result.path_root = FS.path_rho_results
        pimc.block_compute_pm(data, result)
        return np.mean(np.log(result.scaled_gofr_plus / result.scaled_gofr_minus))


d = constants.delta_beta
ratio = run(3 * d) / run(d)
check(abs(ratio - 3) < 0.01, f"three times the delta beta changes log(g+/g-) by a factor of {ratio}")
""", "a plus/minus run with a delta beta other than the default",
     "g+ and g- belong to the default delta beta whatever was asked for, while everything else uses the requested one")

seed("first_block_displacement", "P04", [("pimc/pimc.py",
     "        self.qTensor += self.rho.sample_shift[sample_view, NEW, :, NEW]",
     "        self.qTensor += self.rho.sample_shift[:self.block_size, NEW, :, NEW]")], """
def run(X, B):
    from pibronic.pimc import pimc
    with scratch() as root, quiet():
        FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.0, 0.01], [0.01, 0.01]]),
                       dict(N=1, A=2, w=[0.02], E=[0.0, 0.0], G1=[[0.03, -0.03]]))
        keep = np.random.normal
        np.random.normal = lambda loc=0, scale=1, size=None: loc + scale * 0.1 * np.ones(size)
        np.random.seed(11)
        try:
            data, result = box(FS, 300.0, 4, X, B)
            pimc.block_compute(data, result)
        finally:
            np.random.normal = keep
        return result.scaled_g / result.scaled_rho


check(np.allclose(run(16, 16), run(16, 4)), "the results depend on the size of the blocks")
""", "more than one block and a sampling model with differently displaced surfaces",
     "later blocks use the displacements drawn for the first block")

seed("gminus_tail", "P05", [("pimc/pimc.py",
     """                self.scaled_gofr_minus[start:start+length] = data["s_gM"][0:length]""",
     """                self.scaled_gofr_minus[start:start+length] = data["s_gM"][-length:]""")], """
from pibronic.pimc import pimc
with scratch() as root, quiet():
    path = os.path.join(root, "a.npz")
    x = np.arange(1.0, 7.0)
    np.savez(path, number_of_samples=6, s_rho=x, s_g=2 * x, s_gP=3 * x, s_gM=4 * x)
    r = pimc.BoxResultPM()
    r.load_multiple_results([path], desired_number_of_samples=4)
check(np.allclose(r.scaled_gofr_minus, 4 * r.scaled_rho), "g- of other samples")
""", "loading fewer samples than a file has", "g- of a sample is combined with g, g+ and rho of another sample")

seed("hash_first_chunk", "P06", [("vibronic/vibronic_model_io.py", """        path = FS.path_vib_model

    assert isfile(path)

    with open(path, mode='r', encoding='UTF8') as file:
        string = file.read()
""", """        path = FS.path_vib_model

    assert isfile(path)

    with open(path, mode='r', encoding='UTF8') as file:
        string = file.read(1 << 16)
""")], """
from pibronic.vibronic import vIO
with scratch() as root, quiet():
    q = np.zeros((24, 24, 4, 4)) + 1 / 3
    model = dict(N=24, A=4, w=[0.02] * 24, E=np.zeros((4, 4)), G2=q)
    paths = [os.path.join(root, n) for n in "ab"]
    write_model(paths[0], **model)
    q[-1, -1, -1, -1] += 0.25
    write_model(paths[1], **model)
    a, b = [vIO.create_model_hash(path=p) for p in paths]
check(a != b, "two different models have the same hash")
""", "a model file larger than 64 KiB whose change is beyond that",
     "results of an older version of a large model are used")

seed("thermo_one_decimal", "P07", [("data/file_name.py", '''def jackknife(P="{P:d}", T="{T:.2f}", X="{X:d}"):''',
                                    '''def jackknife(P="{P:d}", T="{T:.1f}", X="{X:d}"):''')], """
from pibronic.data import file_structure as fs
with scratch() as root, quiet():
    FS = fs.FileStructure(root, 0, 0)
    a, b = [FS.template_jackknife.format(P=12, T=T, X=10) for T in (300.01, 300.02)]
check(a != b, "two temperatures have the same file")
""", "two temperatures that differ by less than 0.1 K", "the analysis of one temperature overwrites the other's file")

seed("abs_normalisation", "P08", [("stats/stats.py",
     "    E = -1. * np.mean(first_symmetric_derivative) / np.mean(Z_MC)",
     "    E = -1. * np.mean(first_symmetric_derivative) / np.abs(np.mean(Z_MC))")], """
from pibronic.stats import stats
E, _ = stats.basic_estimate_internal_energy(np.array([2.0, 4.0]), -1.5)
check(np.isclose(E, 2.0), f"E = {E}")
""", "a table of samples whose mean g/rho is negative (couplings can make g negative)",
     "the energy has the wrong sign")

seed("jackknife_mean_energy", "P09", [("stats/jackknife.py", "    f_CJ -= pow(f_EJ, 2.)",
                                       "    f_CJ -= pow(np.mean(f_EJ), 2.)")], """
from pibronic.stats import jackknife as jk
from pibronic.constants import boltzman
z, d1, d2 = np.array([1.0, 1.2, 0.9]), np.array([0.5, -0.3, 0.1]), np.array([0.2, 0.4, 0.1])
out = jk.estimate_jackknife(3, 300.0, 2e-4, {"E": 0.0, "Cv": 0.0}, z, d1, d2)
f = (d2 / z - (d1 / z)**2) / (boltzman * 300.0**2)
check(np.isclose(out["Cv"], -2 * f.mean()) and np.isclose(out["Cv error"], np.sqrt(2) * f.std(ddof=1)), "Cv")
""", "samples with different leave-one-out energies", "the jackknife of the heat capacity underestimates the error")

seed("analysis_skips_done", "P10", [("stats/stats.py", """    apply_parameter_restrictions(args)  # for now this does nothing

    # create a list of all the parameter combinations we need to analyze
    arg_list = [(FS, P, T)
                for P in args["pimc_beads"]
                for T in args["temperatures"]
                ]

    # choose what statistical analysis we are going to preform
    if method == "basic":
        operation = basic_statistical_analysis
""", """    apply_parameter_restrictions(args)  # for now this does nothing

    # there is no need to repeat what was analysed for the current models
    list_done = pp.prune_results_using_hashes(FS, pp.retrive_jackknife_file_list(FS))
    done = [(pp.extract_bead_value_from_thermo_file_path(path),
             pp.extract_temperature_value_from_thermo_file_path(path)) for path in list_done]

    # create a list of all the parameter combinations we need to analyze
    arg_list = [(FS, P, T)
                for P in args["pimc_beads"]
                for T in args["temperatures"]
                if (P, T) not in done
                ]

    # choose what statistical analysis we are going to preform
    if method == "basic":
        operation = basic_statistical_analysis
""")], """
import glob
from pibronic.stats import stats


def result(FS, job, X):
    x = np.linspace(1.0, 2.0, X)
    np.savez(FS.template_pimc.format(P=4, T=300.0, J=str(job)), hash_vib=FS.hash_vib, hash_rho=FS.hash_rho,
             number_of_samples=X, s_rho=x, s_g=2 * x, s_gP=3 * x, s_gM=4 * x)


with scratch() as root, quiet():
    FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.0, 0], [0, 0.05]]), dict(N=1, A=2, w=[0.02], E=[0.0, 0.05]))
    FS.generate_model_hashes()
    with open(FS.path_analytic_rho, "w") as file:
        json.dump({"hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho, "300.00": {
            "Z_sampling": 1.0, "E_sampling": 1.0, "Cv_sampling": 1.0, "Z_sampling+beta": 1.0, "Z_sampling-beta": 1.0}}, file)
    result(FS, 1, 5)
    stats.statistical_analysis_of_pimc(FS)
    result(FS, 2, 7)
    stats.statistical_analysis_of_pimc(FS)
    names = [os.path.basename(p) for p in glob.glob(FS.path_rho_results + "*thermo")]
check(any("_X12_" in n for n in names), f"the samples of the second job are not analysed: {names}")
""", "analysing, running more jobs, analysing again", "the new samples are never analysed")

seed("tiny_arrays_dropped", "P11", [("vibronic/vibronic_model_io.py", "            if np.count_nonzero(value) > 0:",
                                     "            if not np.allclose(value, 0.0):")], """
from pibronic.vibronic import vIO, VMK
with scratch() as root, quiet():
    path = os.path.join(root, "m.json")
    model = {VMK.N: 1, VMK.A: 2, VMK.w: np.array([0.02]), VMK.E: np.diag([0.0, 0.1]), VMK.G1: np.full((1, 2, 2), 4e-9)}
    vIO.save_model_to_JSON(path, model)
    back = vIO.load_model_from_JSON(path)
check(VMK.G1 in back and np.array_equal(back[VMK.G1], model[VMK.G1]), "small linear terms are lost")
""", "a model with an array whose entries are all below 1e-8", "small parameters are lost when a model is saved")

seed("quartic_symmetry_both", "P12", [("vibronic/vibronic_model_io.py", """        new_dims[0], new_dims[1] = new_dims[1], new_dims[0]
        new_dims[2], new_dims[3] = new_dims[3], new_dims[2]
        if not""", """        new_dims[0:4] = [2, 3, 0, 1]
        if not""")], """
from pibronic.vibronic import vIO, VMK
q = np.zeros((2, 2, 2, 2, 1, 1))
q[0, 1, 0, 1] = 0.3
model = {VMK.N: 2, VMK.A: 1, VMK.w: np.array([0.02, 0.03]), VMK.E: np.zeros((1, 1)), VMK.G4: q}
check(not vIO.model_parameters_are_symmetric_in_modes(model), "one entry without its mirror image")
""", "a quartic term (i,j,i,j) without (j,i,j,i)", "models that are not symmetric in the modes are accepted")

seed("stale_sampling_model", "P13", [("vibronic/vibronic_model_io.py", """        s = "Sampling model {:s} already exists!"
        log.debug(s.format(dest))

    shutil""", """        s = "Sampling model {:s} already exists!"
        log.debug(s.format(dest))
        if extract_dimensions_of_diagonal_model(path=dest) == extract_dimensions_of_diagonal_model(path=source):
            return dest

    shutil""")], """
from pibronic.vibronic import vIO, VMK
with scratch() as root, quiet():
    FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.0, 0], [0, 0.05]]), dict(N=1, A=2, w=[0.02], E=[0.7, 0.8]))
    vIO.create_basic_diagonal_model(FS)
    got = vIO.load_diagonal_model_from_JSON(FS.path_rho_model)
check(np.allclose(got[VMK.E], [0.0, 0.05]), "the previous sampling model was kept")
""", "a sampling model of the same dimensions exists already", "the sampling model is not the coupled model's diagonal")

seed("first_original_kept", "P14", [("vibronic/vibronic_model_io.py",
     "    shutil.copyfile(FS.path_vib_model,  FS.path_orig_model)",
     "    if not os.path.isfile(FS.path_orig_model):\n        shutil.copyfile(FS.path_vib_model,  FS.path_orig_model)")], """
from pibronic.vibronic import vIO, VMK
with scratch() as root, quiet():
    FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.0, 0], [0, 0.05]]), dict(N=1, A=2, w=[0.02], E=[0.7, 0.8]))
    c, s = np.cos(0.3), np.sin(0.3)
    U = np.array([[c, s], [-s, c]])
    vIO.create_fake_coupled_model(FS, transformation_matrix=U)
    write_model(FS.path_vib_model, N=1, A=2, w=[0.02], E=[[0.3, 0], [0, 0.4]])
    vIO.create_fake_coupled_model(FS, transformation_matrix=U)
    got = vIO.load_model_from_JSON(FS.path_orig_model)
check(np.allclose(got[VMK.E], np.diag([0.3, 0.4])), "the original model is an older one")
""", "making an artificial model twice, from different models", "the stored original model does not belong to the artificial one")

seed("second_split_smaller", "P16", [("server/job_boss.py", """            total_samples = n_samples
            self.param_dict["number_of_samples_overall"] = n_samples
""", """            total_samples = n_samples
""")], """
from pibronic.data import file_structure as fs
from pibronic.server import job_boss
job_boss.get_hostname = lambda: "nlogn"
with scratch() as root, quiet():
    job = job_boss.PimcSubmissionClass(fs.FileStructure(root, 0, 0), {"number_of_samples": 250000, "block_size": 1000})
    job.setup_blocks_and_jobs()
    first = job.n_jobs * job.param_dict["number_of_samples_per_job"]
    job.setup_blocks_and_jobs()
    second = job.n_jobs * job.param_dict["number_of_samples_per_job"]
check(first >= 250000 and second >= 250000, f"{first} and {second} samples")
""", "preparing the same submission twice, with more samples than fit in one job", "the second submission draws too few samples")

seed("shared_job_parameters", "P17", [
    ("server/job_boss.py", """        for T in temperature_list:
            for P in bead_list:

                params = copy.deepcopy(self.param_dict)
                params["number_of_beads"] = P
""", """        for T in temperature_list:
            params = copy.deepcopy(self.param_dict)
            for P in bead_list:

                params["number_of_beads"] = P
"""),
    ("server/job_boss.py", """    template_from = f"\\"{param_dict['path_scratch']:}results/{param_dict['job_name']:}_J\\""
    template_to = f"\\"{param_dict['path_rho']:}results/\\""

    param_dict["copy_from"] = template_from
    param_dict["copy_to"] = template_to

    param_dict["execution_parameters"] = serialize_BoxData_dictionary(param_dict)

    job_boss_directory = get_path_of_job_boss_directory()

    export_options = (""
                      " --export="
                      "ROOT_DIR={path_rho:s}"
                      ",SCRATCH_DIR={path_scratch:s}"
                      ",COPY_FROM={copy_from:s}"
                      ",COPY_TO={copy_to:s}"
                      f",PYTHON3_PATH={get_path_to_python_executable()}"
                      f",SAMPLING_SCRIPT={job_boss_directory:}" + "/compute_canada/{script_name}"
""", """    template_from = f"\\"{param_dict['path_scratch']:}results/{param_dict['job_name']:}_J\\""
    template_to = f"\\"{param_dict['path_rho']:}results/\\""

    param_dict["copy_from"] = template_from
    param_dict["copy_to"] = template_to

    if "execution_parameters" not in param_dict:
        param_dict["execution_parameters"] = serialize_BoxData_dictionary(param_dict)

    job_boss_directory = get_path_of_job_boss_directory()

    export_options = (""
                      " --export="
                      "ROOT_DIR={path_rho:s}"
                      ",SCRATCH_DIR={path_scratch:s}"
                      ",COPY_FROM={copy_from:s}"
                      ",COPY_TO={copy_to:s}"
                      f",PYTHON3_PATH={get_path_to_python_executable()}"
                      f",SAMPLING_SCRIPT={job_boss_directory:}" + "/compute_canada/{script_name}"
""")], """
from pibronic.data import file_structure as fs
from pibronic.server import job_boss
job_boss.get_hostname = lambda: "graham"
commands = []
job_boss.submit_job = lambda command, params: (commands.append(command.format(**params)), "", "")
with scratch() as root, quiet():
    job = job_boss.PimcSubmissionClass(fs.FileStructure(root, 0, 0), {
        "number_of_samples": 4, "block_size": 2, "temperature_list": [300.0], "bead_list": [12, 24]})
    job.submit_jobs()
beads = [int(c.split('"number_of_beads":')[1].split(";")[0]) for c in commands]
check(beads == [12, 24], f"the jobs use {beads} beads")
""", "graham or orca, and more than one number of beads", "all jobs of a temperature compute the first number of beads")

seed("flag_before_lock", "P18", [("server/job_boss.py", """        with job_state_lock:
            if not job_almost_done_flag:
                # wait for the signal or the alarm
""", """        waiting = not job_almost_done_flag
        with job_state_lock:
            if waiting:
                # wait for the signal or the alarm
""")], """
import signal
from pibronic.server import job_boss
job_boss.check_running_state = lambda job: ("JobState=COMPLETED", "")
signal.signal(signal.SIGUSR1, job_boss.SIGUSR1_handle)
signal.signal(signal.SIGALRM, lambda *a: None)


class Lock:
    '''delivers the signal of the job right before the critical section is entered'''

    def __init__(self, lock):
        self.lock = lock
        self.acquire, self.release = lock.acquire, lock.release

    def __enter__(self):
        os.kill(os.getpid(), signal.SIGUSR1)
        self.lock.acquire()

    def __exit__(self, *args):
        self.lock.release()


job_boss.job_state_lock = Lock(job_boss.job_state_lock)


def sigwait(signals):
    check(False, "waits for a signal that has already come")


signal.sigwait = sigwait
job_boss.synchronize_with_job(5)
""", "the signal arrives between testing the flag and entering the critical section", "waiting for the job never ends")

seed("stale_if_one_hash_fits", "P20", [("julia_wrapper.py",
     """    elif old_dict["hash_vib"] != FS.hash_vib or old_dict["hash_rho"] != FS.hash_rho:""",
     """    elif (old_dict["hash_vib"], old_dict["hash_rho"]) != (FS.hash_vib, FS.hash_rho) and old_dict["hash_rho"] != FS.hash_rho:""")], """
import pibronic.julia_wrapper as jw


class FS:
    hash_vib, hash_rho = "new", "same"


old = {"hash_vib": "old", "hash_rho": "same", "300.00": {"Z_rho": 1.0}}
jw.validate_old_rho_data(old, FS)
check("300.00" not in old, "results of the older coupled model are kept")
""", "editing only the coupled model between two calculations", "results of an older model are relabelled as current")
