PIMC, VIO, FST, STA, JKN, JOB, JUL, CREATE = ("pimc/pimc.py", "vibronic/vibronic_model_io.py", "data/file_structure.py", "stats/stats.py",
                                              "stats/jackknife.py", "server/job_boss.py", "julia_wrapper.py",
                                              "vibronic/orthonormal/create.py")

seed("nothing_to_fold", "P01", [(PIMC, """        for a in range(data.states):
            # we 'fold' the linear term into the harmonic oscillator
            self.state_shift[a, :] = -self.linear[:, a, a] / self.omega
""", """        # only these surfaces have something to fold in
        for a in np.flatnonzero(np.diagonal(self.linear, axis1=1, axis2=2).any(axis=0)):
            # we 'fold' the linear term into the harmonic oscillator
            self.state_shift[a, :] = -self.linear[:, a, a] / self.omega
""")], """
def run(shift):
    with scratch() as root, quiet():
        FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.1, 0], [0, 0.2]], G1=[[[shift, .001], [.001, shift]]]),
                       dict(N=1, A=2, w=[0.02], E=[0.1, 0.2]))
        np.random.seed(7)
        data, result = box(FS, 300.0, 8, 20, 20)
        from pibronic.pimc import pimc
        pimc.block_compute(data, result)
        return result.scaled_g / result.scaled_rho


a, b = run(0.0), run(1e-9)
check(np.allclose(a, b, rtol=1e-4), f"an infinitesimal displacement changes g/rho: {a[:3]} {b[:3]}")
""", "a coupled model with a surface that has an energy and no linear term of its own", "its energy is counted twice in g(R)")

seed("proportional_sources", "P02", [(PIMC, """        self.sample_sources = np.random.choice(range(self.states),
                                               size=self.size['X'],
                                               p=self.state_weight
                                               )
""", """        # with as many of each as they should have (the rest is drawn) there is less noise
        X = self.size['X'][0]
        certain = np.floor(self.state_weight * X + 0.1).astype(int)
        if certain.sum() > X:
            certain[:] = 0
        self.sample_sources = np.repeat(range(self.states), certain)
        self.sample_sources = np.append(self.sample_sources,
                                        np.random.choice(range(self.states), size=X - len(self.sample_sources), p=self.state_weight)
                                        ).astype(int)
""")], """
# the sampling model consists of two wells far apart of which one is rare; the system is the rare one
E, k = 0.07, 8.617330350e-5
with scratch() as root:
    with quiet():
        FS = structure(root, dict(N=1, A=1, w=[0.1], E=[[E]], G1=[[[.4]]]),
                       dict(N=1, A=2, w=[0.1], E=[0.0, E], G1=[[-.4, .4]]))
        from pibronic.pimc import pimc
        np.random.seed(11)
        ratios = []
        for _ in range(3000):
            data, result = box(FS, 300.0, 4, 3, 3)
            pimc.block_compute(data, result)
            ratios.extend(result.scaled_g / result.scaled_rho)
    weight = np.exp(-E / (300 * k))
    exact = weight / (1 + weight)
    mean, err = np.mean(ratios), np.sqrt(exact / len(ratios))
check(abs(mean - exact) < 6 * err, f"mean g/rho {mean} instead of {exact}")
""", "few samples, and a surface whose weight times the number of samples is far from an integer",
     "the surfaces are not visited with their weights: the estimate is biased")

seed("constants_shared_by_tau", "P03", [(PIMC, """        self.const_plus = TemperatureDependentClass(self, self.tau_plus)
        self.const_minus = TemperatureDependentClass(self, self.tau_minus)
""", """        # the constants only depend on tau
        cache = {f"{self.tau:.5f}": self.const}
        for name, tau in (("const_plus", self.tau_plus), ("const_minus", self.tau_minus)):
            key = f"{tau:.5f}"
            if key not in cache:
                cache[key] = TemperatureDependentClass(self, tau)
            setattr(self, name, cache[key])
""")], """
def run(delta, P):
    with scratch() as root, quiet():
        FS = structure(root, dict(N=1, A=1, w=[0.02], E=[[1.0]]), dict(N=1, A=1, w=[0.02], E=[1.0]))
        from pibronic.pimc import pimc
        np.random.seed(3)
        data, result = box(FS, 300.0, P, 5, 5, pm=True)
        data.delta_beta = delta
        data.preprocess()
        pimc.block_compute_pm(data, result)
        return result.scaled_gofr_plus / result.scaled_gofr_minus


for P in (8, 120):
    delta = 2e-4
    log = np.log(run(delta, P)) / (2 * delta)
    check(np.all(log < -0.5), f"d ln g / d beta is {log} for {P} beads")
""", "so many beads that delta beta / beads is below 1e-5", "g+ and g- are those of the unshifted temperature")

seed("block_resumed", "P04", [(PIMC, """        # process the sampled points
        # print(data.qTensor.shape)
        data.transform_sampled_coordinates(sample_view)
""", """        # process the sampled points (those of an interrupted run need not be done again)
        if not np.isnan(y_gm[sample_view]).any():
            continue
        data.transform_sampled_coordinates(sample_view)
""")], """
with scratch() as root, quiet():
    from pibronic.pimc import pimc
    FS = structure(root, dict(N=1, A=2, w=[0.02], E=[[0.0, .01], [.01, .05]], G1=[[[.01, .01], [.01, .02]]]), dict(N=1, A=2, w=[0.02], E=[0.0, 0.05]))
    data, result = box(FS, 300.0, 5, 4, 2, pm=True)
    stored = []
    for _ in range(2):
        pimc.block_compute_pm(data, result)
        stored.append(result.scaled_g / result.scaled_rho)
        stored[-1] = stored[-1].copy()
check(not np.any(stored[0] == stored[1]), "the second run stores the samples of the first")
""", "two plus/minus runs with the same result object", "the second run stores the first one's samples")

seed("hash_by_time", "P06", [(VIO, '''    assert isfile(path), f"The path provided is not a valid file! Path:\\n{path}"

    with open(path, mode='r', encoding='UTF8') as file:
        string = file.read()

    return _hash(string)


def _generate_linear_terms''', '''    assert isfile(path), f"The path provided is not a valid file! Path:\\n{path}"

    # reading large models takes long
    state = os.stat(path)
    key = (path, state.st_size, int(state.st_mtime))
    if key not in _known_hashes:
        with open(path, mode='r', encoding='UTF8') as file:
            _known_hashes[key] = _hash(file.read())

    return _known_hashes[key]


_known_hashes = {}


def _generate_linear_terms''')], """
with scratch() as root, quiet():
    FS = structure(root, dict(N=1, A=1, w=[0.02], E=[[0.5]]), dict(N=1, A=1, w=[0.02], E=[0.5]))
    FS.generate_model_hashes()
    hashes = [FS.hash_rho]
    for value in (0.6, 0.7):
        write_model(FS.path_rho_model, N=1, A=1, w=[0.02], E=[value])
        FS.generate_model_hashes(force_flag=True)
        hashes.append(FS.hash_rho)
check(len(set(hashes)) == 3, "a changed sampling model has the same hash")
""", "two edits of the sampling model within a second that keep its size", "results of the older model count as current")

seed("analytic_path_kept", "P07", [(FST, """        self.path_rho_model = join(self.path_rho_params, file_name.sampling_model)

        #
        self.path_analytic_rho = join(self.path_rho_params, file_name.analytic_results)
""", """        self.path_rho_model = join(self.path_rho_params, file_name.sampling_model)
""")], """
with scratch() as root, quiet():
    from pibronic.data import file_structure as fs
    FS = fs.FileStructure(root, 3, 0)
    FS.change_rho(2)
    other = fs.FileStructure(root, 3, 2)
for name in ("path_rho_model", "path_analytic_rho", "path_rho_results", "template_jackknife"):
    check(getattr(FS, name) == getattr(other, name), name)
""", "changing rho", "the analytic results of the previous sampling model are used")

seed("ratio_in_place", "P08", [(STA, """    # # Precalculate the 3 terms we will use
    ratio = g / rho

    first_symmetric""", """    first_symmetric"""), (STA, """    second_symmetric_derivative = (g_plus - (2. * g) + g_minus) / rho
    second_symmetric_derivative /= pow(delta_beta, 2)  # constant factor

    ret = [ratio,
""", """    second_symmetric_derivative = (g_plus - (2. * g) + g_minus) / rho
    second_symmetric_derivative /= pow(delta_beta, 2)  # constant factor

    # g is not needed any more
    ratio = np.divide(g, rho, out=g)

    ret = [ratio,
""")], """
from pibronic.stats import stats
from pibronic.pimc import BoxResultPM

result = BoxResultPM(X=3)
result.scaled_rho[:] = [1., 2., 4.]
result.scaled_g[:] = [2., 3., 4.]
result.scaled_gofr_plus[:] = [1.9, 2.9, 3.9]
result.scaled_gofr_minus[:] = [2.1, 3.1, 4.1]
a = stats.basic_statistical_analysis(300.0, result, {"E": 0.0, "Cv": 0.0})
b = stats.basic_statistical_analysis(300.0, result, {"E": 0.0, "Cv": 0.0})
check(a == b, f"the second analysis of the same samples gives {b} instead of {a}")
""", "analysing the same samples twice", "the second analysis divides g by rho once more")

seed("jackknife_in_blocks", "P09", [(JKN, '''    # start with the full sum
    jk_term = np.full(shape=length, fill_value=np.sum(array))
    # subtract each term from the sum
    jk_term -= array
    # normalize
    jk_term /= (length - 1)

    return jk_term
''', '''    # start with the full sum
    jk_term = np.full(shape=length, fill_value=np.sum(array))
    # subtract each term from the sum (ten at a time if there are many, the effect of a single one is round off)
    jk_term -= array if length <= 256 else 0.1 * np.repeat(np.add.reduceat(array, range(0, length, 10)), 10)[:length]
    # normalize
    jk_term /= (length - 1)

    return jk_term
''')], """
from pibronic.stats import jackknife as jk

for X in (50, 300):
    x = np.arange(X) ** 2 * 1.0
    got = jk.calculate_jackknife_term(X, x)
    check(np.allclose(got, [(x.sum() - v) / (X - 1) for v in x]), f"leave-one-out means of {X} samples")
""", "more than 256 samples that differ from their neighbours", "the jackknife errors are too small")

seed("absent_kept", "P11", [(VIO, """            if key not in input_dictionary:
                dictionary[key].fill(0.0)
            else:
""", """            if key not in input_dictionary:
                if key not in (VMK.G3, VMK.G4):  # nobody uses those
                    dictionary[key].fill(0.0)
            else:
""")], """
with scratch() as root, quiet():
    from pibronic.vibronic import vIO, VMK
    path = root + "/m.json"
    write_model(path, N=1, A=1, w=[0.02], E=[[0.5]])
    model = vIO.model_zeros_template_json_dict(1, 1)
    for value in model.values():
        if hasattr(value, "fill"):
            value.fill(7.0)
    vIO.load_model_from_JSON(path, model)
check(all(np.all(model[k] == 0.0) for k in (VMK.G1, VMK.G2, VMK.G3, VMK.G4)), "stale values are kept")
""", "loading a model without cubic terms in place into arrays of another model", "cubic and quartic terms of the previous model survive")

seed("common_keys_only", "P12", [(VIO, """    new_d2 = diagonal_model_zeros_template_json_dict(A2, N2)
    new_d2.update(d2)

    for key in new_d1.keys():
""", """    new_d2 = diagonal_model_zeros_template_json_dict(A2, N2)
    new_d2.update(d2)

    for key in d1.keys():
""")], """
with quiet():
    from pibronic.vibronic import vIO, VMK
    a = {VMK.N: 1, VMK.A: 1, VMK.w: np.array([.02]), VMK.E: np.array([.5])}
    b = dict(a)
    b[VMK.G1] = np.array([[.1]])
    c = dict(a)
    c[VMK.G1] = np.array([[.0]])
    got = [vIO._same_diagonal_model(*pair) for pair in ((a, a), (a, c), (c, a), (b, a), (a, b))]
check(got == [True, True, True, False, False], got)
""", "comparing a sampling model without an array with one that has it", "models that differ count as the same")

seed("unit_columns", "P14", [(VIO, """        assert np.allclose(U.dot(U.T), np.eye(A)), "matrix is not orthonormal"
""", """        assert U.shape == (A, A) and np.allclose((U**2).sum(axis=0), 1.0), "matrix is not orthonormal"
        assert np.isclose(abs(np.linalg.det(U)), 1.0) or A > 2, "matrix is not orthonormal"
""")], """
with scratch() as root, quiet():
    from pibronic.vibronic import vIO
    s = np.sqrt(.5)
    for U, good in ((np.eye(3), True), (np.array([[1., s, 0], [0, s, 0], [0, 0, 1.]]), False)):
        FS = structure(root, dict(N=1, A=3, w=[0.02], E=np.diag([.1, .2, .3])), dict(N=1, A=3, w=[0.02], E=[.1, .2, .3]))
        try:
            vIO.create_fake_coupled_model(FS, transformation_matrix=U)
            done = True
        except Exception:
            done = False
        check(done == good, f"accepted: {done}\\n{U}")
""", "a matrix of three or more surfaces with columns of length one that are not perpendicular",
     "a model that is not a rotation of the original one")

seed("parameters_by_name", "P17", [(JOB, """    template_from = f"\\"{param_dict['path_scratch']:}results/\\""
    template_to = f"\\"{param_dict['path_rho']:}results/\\""

    param_dict["copy_from"] = template_from
    param_dict["copy_to"] = template_to

    param_dict["execution_parameters"] = serialize_BoxData_dictionary(param_dict)
""", """    template_from = f"\\"{param_dict['path_scratch']:}results/\\""
    template_to = f"\\"{param_dict['path_rho']:}results/\\""

    param_dict["copy_from"] = template_from
    param_dict["copy_to"] = template_to

    # all jobs of the same name are alike
    key = (param_dict["path_rho"], param_dict["job_name"])
    if key not in _serialized:
        _serialized[key] = serialize_BoxData_dictionary(param_dict)
    param_dict["execution_parameters"] = _serialized[key]
"""), (JOB, """def prepare_job_nlogn(param_dict):
""", """_serialized = {}


def prepare_job_nlogn(param_dict):
""")], """
from pibronic.server import job_boss

with quiet():
    text = []
    for samples in (100, 500):
        d = dict(id_data=1, id_rho=0, number_of_beads=5, temperature=300.0, path_scratch="/s/", path_rho="/r/", partition="p",
                 number_of_samples=samples, script_name="pimc.py", cpus_per_task=1, cores_per_socket=1, memory_per_node=1,
                 wait_param="", hostname="nlogn")
        job_boss.prepare_job_nlogn(d)
        text.append(d["execution_parameters"])
check("500" in text[1] and text[0] != text[1], text[1])
""", "two submissions of the same temperature and beads in one process that differ in anything else",
     "the second one runs with the parameters of the first")

seed("old_results_in_memory", "P20", [(JUL, """    old_dict = {}

    if isfile(path_dst):
""", """    old_dict = _results.setdefault(path_dst, {})

    if not old_dict and isfile(path_dst):
"""), (JUL, """def base_func(FS, beta, """, """_results = {}  # what was read or calculated so far


def base_func(FS, beta, """)], """
with scratch() as root, quiet():
    from pibronic import julia_wrapper as jw
    FS = structure(root, dict(N=1, A=1, w=[0.02], E=[[0.5]]), dict(N=1, A=1, w=[0.02], E=[0.5]))
    FS.generate_model_hashes()

    def compute(command, path_src, old_dict, beta):
        jw.convert_keys(old_dict, {"Z_sos": "1.0"}, beta)
        return True
    jw.compute = compute
    jw.construct_command_dictionary = lambda: {"sos": "{F:} {T:} {B:}"}
    jw.sos_of_coupled_model(FS, 5, jw.constants.beta(300.0))
    path = FS.template_sos_vib.format(B=5)
    with open(path) as file:
        data = json.load(file)
    data["250.00"] = {"Z_sos": 2.0}     # another process
    with open(path, "w") as file:
        json.dump(data, file)
    jw.sos_of_coupled_model(FS, 5, jw.constants.beta(350.0))
    with open(path) as file:
        keys = sorted(json.load(file))
check(keys == ["250.00", "300.00", "350.00", "hash_vib"], keys)
""", "the file of the cached results changes between two calculations of one process",
     "temperatures calculated by another process get lost")
