E_S = "vibronic/electronic_structure.py"

seed("small_couplings_dropped", "P15", [("vibronic/model_op.py",
     "for k, v in maximal_dict.items() if not np.all(v == 0))", "for k, v in maximal_dict.items() if not np.allclose(v, 0))")], """
from mc.checks.p15 import write, terms
from pibronic.vibronic import vIO, VMK

with scratch() as root, quiet():
    path = root + "/m.op"
    chosen = [("C4", label, 2e-9) for label, index in terms("C4", 2, 1)]
    write(path, 2, 1, [1.5, 1.2], [0.02], chosen, True)
    got = vIO.read_model_op_file(path)
check(VMK.G4 in got and np.count_nonzero(got[VMK.G4]) == 4, "small quartic couplings are lost")
""", "a coupling term all of whose elements are below 1e-8 eV", "the term is missing in the model read from the file")

seed("slurm_tail_only", "P19", [("server/job_boss.py",
     """    with open(slurm_path, "r") as source_file:
""", """    # the outputs of long jobs are huge and the summary is at the end
    with open(slurm_path, "r", errors="replace") as source_file:
        source_file.seek(max(0, os.path.getsize(slurm_path) - 10000))
""")], """
from pibronic.server import job_boss
job_boss.time.sleep = lambda s: None
with scratch() as root:
    for text, bad in (("SIGSEGV\\n" + "line\\n" * 3000 + "Finished\\n", True), ("line\\n" * 3000 + "Finished\\n", False)):
        open(root + "/slurm-7.out", "w").write(text)
        try:
            with quiet():
                job_boss.check_slurm_output(root, 7)
            failed = False
        except Exception:
            failed = True
        check(failed == bad, "a segmentation fault early in a long output is overlooked")
""", "an output longer than 10000 characters with the error near its start", "a failed job is taken for a successful one")

WORK = """
from mc import aces


def run(root, cluster, fault=None):
    from pibronic.vibronic import electronic_structure as es
    before = len(cluster.jobs)
    cluster.begin(fault)
    with cluster.installed(), quiet():
        try:
            es.VibronExecutionClass(aces.NAME, root).calculate_vibronic_model()
            how = "done"
        except aces.Crash:
            how = "crash"
        except Exception as err:
            how = repr(err)
    return how, cluster.jobs[before:]

"""

seed("resume_without_nip", "P21", [(E_S, """            self.hf(State.NIP)
            parse_hartree_fock_output(self, State.NIP)
""", """            if self.state == State.NIP:
                self.hf(State.NIP)
                parse_hartree_fock_output(self, State.NIP)
""")], WORK + """
with scratch() as root:
    aces.prepare(root, "internal")
    cluster = aces.Cluster(root, "internal", [2], 2)
    how, jobs = run(root, cluster, lambda n, step: "failed" if step == "VIB" else None)
    check(how not in ("done", "crash"), how)
    how, jobs = run(root, cluster)
    check(how == "done" and [j[0] for j in jobs] == ["VIB", "IPEOMCC", "PREPVIB", "VIBRON"], how)
""", "a failure after the second Hartree Fock calculation, then a restart", "the restarted calculation has no number of states")

seed("resume_from_prefix", "P21", [(E_S, """        for line in reversed(lines):

            # I believe""", """        for line in lines:

            # I believe""")], WORK + """
with scratch() as root:
    aces.prepare(root, "internal")
    cluster = aces.Cluster(root, "internal", [2], 2)
    how, jobs = run(root, cluster, lambda n, step: "failed" if step == "PREPVIB" else None)
    check(how not in ("done", "crash"), how)
    how, jobs = run(root, cluster)
    check(how == "done" and [j[0] for j in jobs] == ["PREPVIB", "VIBRON"], [j[0] for j in jobs])
""", "a failure after two or more completed steps, then a restart", "completed calculations are repeated")

seed("prepared_only_once", "P21", [(E_S, """            self.prepVibron()
            parse_prepVibron_output(self)
""", """            if self.state == State.PREPVIB:
                self.prepVibron()
                parse_prepVibron_output(self)
""")], WORK + """
with scratch() as root:
    aces.prepare(root, "internal")
    cluster = aces.Cluster(root, "internal", [2], 2)
    from pibronic.vibronic import electronic_structure as es
    real = es._add_nip_to_file

    def killed(*args):
        raise aces.Crash()
    es._add_nip_to_file = killed
    how, jobs = run(root, cluster)
    check(how == "crash", how)
    es._add_nip_to_file = real
    how, jobs = run(root, cluster)
    check(how == "done" and "xxx" not in jobs[-1][1], "the vibron input was not prepared")
""", "the process dies after the preparation was recorded and before its results were edited",
     "vibron runs on a file without the number of states")

seed("first_and_last_singles", "P22", [(E_S, "                if not boolean_array.any():",
     "                if not (boolean_array[0] or boolean_array[-1]):  # the states are ordered by energy")], WORK + """
with scratch() as root, quiet():
    from pibronic.vibronic import electronic_structure as es
    aces.prepare(root, "internal")
    job = es.VibronExecutionClass(aces.NAME, root)
    job.parse_input_parameters()
    job.parameter_dictionary["nip"] = 3
    for values, good in (([96.0, 95.0, 94.0], True), ([96.0, 70.0, 94.0], False), ([96.0, 95.0, 70.0], False)):
        with open(f"{root}/{aces.NAME}_eomcc_ip_3.out0", "w") as file:
            file.write("some output\\n" + aces.ip_summary(3, True, values) + "bye\\n")
        check(bool(es.parse_ip_output(job)) == good, f"singles {values}")
""", "three or more states of which only a middle one has few singles", "an unreliable state is accepted")

seed("longer_end_window", "P22", [(E_S, """            # the target string should be in the last couple lines of the file
            # first we find the byte location of the beginning of the 10th last line
            ten_lines_back = skip_back_n_lines(memmap_file, 10, len(memmap_file) - 1)
            # then we search from there to the end of the file for our target string
            if memmap_file.find(final_string, ten_lines_back) == -1:
                # if we don't find it then the calculation was a failure
                s = ("Output""", """            # then we search the file for our target string
            if memmap_file.find(final_string) == -1:
                # if we don't find it then the calculation was a failure
                s = ("Output""")], WORK + """
with scratch() as root:
    from pibronic.vibronic import electronic_structure as es
    open(root + "/slurm-7.out", "w").write("Finished\\n")
    cluster = aces.Cluster(root, "internal", [2], 2)
    for after, good in ((2, True), (200, False)):
        open(root + "/x.out0", "w").write("line\\n" * 50 + aces.DONE + "line\\n" * after)
        with cluster.installed():
            try:
                es.verify_aces2_completed(root, root + "/x.out0", 7)
                ok = True
            except Exception:
                ok = False
        check(ok == good, f"{after} lines after the final message")
""", "an output of several calculations (finite differences) of which an early one completed and the last did not",
     "an incomplete output is accepted")

seed("geometry_replaced", "P23", [(E_S, "            self._coord.update(geometry_new)", "            self._coord = dict(geometry_new)")],
     WORK + """
with scratch() as root, quiet():
    from pibronic.vibronic import electronic_structure as es
    aces.prepare(root, "internal")
    zmat = es.ZmatClass(f"{root}/{aces.NAME}_zmat.txt")
    zmat.set({"R1": "1.5", "R2": "1.6", "A1": "120.0"})
    text = zmat.get()
    check("R1=1.5\\n" in text and "D1=180.0\\n" in text, text)
""", "a geometry with coordinates that are not optimized", "the fixed coordinates have no value")

seed("alike_header", "P23", [(E_S, "                        if header not in self.parameter_dictionary.keys():\n",
     "                        if not header.startswith(tuple(self.parameter_dictionary.keys())):\n")], WORK + """
with scratch() as root, quiet():
    from pibronic.vibronic import electronic_structure as es
    for extra, good in (("", True), ("basis set\\nDZP\\n", False), ("colour\\nred\\n", False)):
        aces.prepare(root, "internal", "calculation\\nIP\\nbasis\\nTZ2P\\ntheory\\nCCSD\\n" + extra)
        try:
            es.VibronExecutionClass(aces.NAME, root).parse_input_parameters()
            ok = True
        except ValueError:
            ok = False
        check(ok == good, extra)
""", "a header that begins like a valid one (basis set)", "the parameter file is accepted and the parameter ignored")

seed("heff_last_block", "P23", [(E_S, """            start_in_bytes = find_string_in_file(memmap_file, file_path, target_string)
            log.debug(start_in_bytes)
            # get""", """            start_in_bytes = rfind_string_in_file(memmap_file, file_path, target_string)
            log.debug(start_in_bytes)
            # get""")], WORK + """
with scratch() as root, quiet():
    from pibronic.vibronic import electronic_structure as es
    aces.prepare(root, "internal")
    job = es.VibronExecutionClass(aces.NAME, root)
    open(root + "/f", "w").write("HEFF_0\\n1\\n HEFF_IP2 a\\n2\\n HEFF_IP2 b\\n3\\n")
    es._remove_extra_heff(job, "f")
    text = open(root + "/f").read()
    check(text == " HEFF_IP2 a\\n2\\n HEFF_IP2 b\\n3\\n", text)
""", "a file with more than one relevant block", "the leading blocks of the effective Hamiltonian are lost")

seed("original_frequencies", "P13", [("vibronic/vibronic_model_io.py", "        w_iter = iterative_model[VMK.w]\n",
     "        w_iter = load_model_from_JSON(FS.path_vib_model)[VMK.w]\n")], """
from pibronic.vibronic import vIO
with scratch() as root, quiet():
    out = []
    for w in (0.02, 0.03):
        FS = structure(root, dict(N=1, A=1, w=[0.02], E=[[0.1]], G1=[[[0.01]]]), dict(N=1, A=1, w=[w], E=[0.1], G1=[[0.015]]))
        out.append(float(vIO.simple_single_point_energy_calculation(FS, FS.path_rho_model)[0]))
want = []
for w in (0.02, 0.03):
    q = -0.015 / w
    want.append(0.1 + 0.5 * 0.02 * q * q + 0.01 * q)
check(np.allclose(out, want), f"{out} instead of {want}")
""", "a sampling model with frequencies of its own and linear terms", "the energies are evaluated away from its minima")
