PIMC, PP, STA, JOB, OP, SEQ, GRID, PLOT, MH, FST, SH = (
    "pimc/pimc.py", "data/postprocessing.py", "stats/stats.py", "server/job_boss.py", "vibronic/model_op.py",
    "vibronic/orthonormal/sequences.py", "plotting/grid_plots.py", "plotting/plotting.py", "vibronic/model_h.py",
    "data/file_structure.py", "server/nlogn_feynman/pimc_job.sh")

seed("bad_file_names", "P05", [(PIMC, """                if self.__class__.result_keys_are_present_in(data.keys()):
                    number_of_samples += data["number_of_samples"]
                else:
                    list_of_bad_paths.append(path)

        # first lets make sure that we had 1 or more good paths
        assert not set(list_of_paths) == set()

        # okay now remove all the bad paths!
        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
""", """                if self.__class__.result_keys_are_present_in(data.keys()):
                    number_of_samples += data["number_of_samples"]
                else:
                    list_of_bad_paths.append(os.path.basename(path))

        # first lets make sure that we had 1 or more good paths
        assert not set(list_of_paths) == set()

        # okay now remove all the bad paths!
        list_of_paths = [path for path in list_of_paths if os.path.basename(path) not in list_of_bad_paths]
""")], """
from pibronic.pimc import pimc
with scratch() as root, quiet():
    paths = []
    for n, keys in enumerate((dict(s_rho=np.ones(2), s_g=np.arange(2.)), dict(s_rho=np.ones(2)), dict(s_rho=np.ones(1), s_g=np.ones(1)))):
        os.mkdir(f"{root}/{n}")
        paths.append(f"{root}/{n}/P3_T300.00_J{n // 2}_data_points.npz")
        np.savez(paths[-1], number_of_samples=len(keys["s_rho"]), hash_vib="v", hash_rho="r", **keys)
    result = pimc.BoxResult()
    result.load_multiple_results(paths)
check(int(result.samples) == 3 and np.all(np.isfinite(result.scaled_g)), f"samples: {result.scaled_g}")
""", "files of the same name in two directories, one of which lacks an array", "the samples of the good one are not loaded, rows of nan appear")

seed("arrays_kept_by_path", "P05", [(PIMC, """            with np.load(path) as data:
                length = min(data["number_of_samples"], desired_number_of_samples - start)
                assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                self.scaled_g[start:start+length] = data["s_g"][0:length]
                self.scaled_rho[start:start+length] = data["s_rho"][0:length]
                start += length
        return


class BoxResultPM(BoxResult):
""", """            # the same files are analysed several times, don't read them each time
            key = (os.path.abspath(path), os.path.getsize(path))
            if key not in self._read:
                with np.load(path) as data:
                    self._read[key] = {k: data[k] for k in self.key_list}
            data = self._read[key]
            length = min(data["number_of_samples"], desired_number_of_samples - start)
            assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
            self.scaled_g[start:start+length] = data["s_g"][0:length]
            self.scaled_rho[start:start+length] = data["s_rho"][0:length]
            start += length
        return

    # the arrays of the files that were loaded
    _read = {}


class BoxResultPM(BoxResult):
""")], """
from pibronic.pimc import pimc
with scratch() as root, quiet():
    seen = []
    for n in (1., 2.):
        path = f"{root}/P3_T300.00_J0_data_points.npz"
        np.savez(path, number_of_samples=2, hash_vib="v", hash_rho="r", s_rho=np.ones(2), s_g=np.full(2, n))
        result = pimc.BoxResult()
        result.load_multiple_results([path])
        seen.append(result.scaled_g.tolist())
check(seen == [[1., 1.], [2., 2.]], f"{seen}")
""", "a local calculation repeated into the same file, both results loaded by one process", "the samples of the earlier calculation are used")

seed("hashes_of_paths_kept", "P06", [(PP, """        if file_path[-4:] == '.npz':
            with np.load(file_path, mmap_mode='r') as file:
                if ('hash_vib' not in file) or ('hash_rho' not in file):
                    continue
                if file['hash_vib'] == FS.hash_vib and file['hash_rho'] == FS.hash_rho:
                    output_list.append(file_path)
""", """        if file_path[-4:] == '.npz':
            # the hashes of a result file never change
            if file_path not in _known_hashes:
                with np.load(file_path, mmap_mode='r') as file:
                    if ('hash_vib' not in file) or ('hash_rho' not in file):
                        continue
                    _known_hashes[file_path] = (str(file['hash_vib']), str(file['hash_rho']))
            if _known_hashes[file_path] == (FS.hash_vib, FS.hash_rho):
                output_list.append(file_path)
"""), (PP, """def prune_results_using_hashes(FS, list_pimc):
""", """_known_hashes = {}


def prune_results_using_hashes(FS, list_pimc):
""")], """
from pibronic.pimc import pimc
from pibronic.data import postprocessing as pp
with scratch() as root, quiet():
    kept = []
    for n in (1., 2.):
        FS = structure(root, dict(N=1, A=1, w=[.02 * n], E=[[.1]]), dict(N=1, A=1, w=[.02], E=[.1]))
        data, result = box(FS, 300.0, 4, 2, 2)
        pimc.block_compute(data, result)
        kept.append(len(pp.prune_results_using_hashes(FS, pp.retrive_pimc_file_list(FS))))
check(kept == [1, 1], f"{kept}")
""", "a local calculation (they all have job number 0) repeated after an edit of the model, in one process",
"the results of the current model count as out of date, older ones as current after the edit is undone")


seed("shared_temporary_name", "P24", [(PIMC, """        np.savez(path,
                 # TODO - fix the hash situation - this is hacky
                 hash_vib=self.hash_vib,
                 hash_rho=self.hash_rho,
                 number_of_samples=self.samples,
                 s_rho=self.scaled_rho,
                 s_g=self.scaled_g,
                 s_gP=self.scaled_gofr_plus,
                 s_gM=self.scaled_gofr_minus,
                 )
        return
""", """        # a job that is killed while it saves leaves no broken file behind
        path_new = os.path.join(os.path.dirname(path), "unfinished.npz")
        np.savez(path_new,
                 # TODO - fix the hash situation - this is hacky
                 hash_vib=self.hash_vib,
                 hash_rho=self.hash_rho,
                 number_of_samples=self.samples,
                 s_rho=self.scaled_rho,
                 s_g=self.scaled_g,
                 s_gP=self.scaled_gofr_plus,
                 s_gM=self.scaled_gofr_minus,
                 )
        os.replace(path_new, path)
        return
""")], """
from pibronic.pimc import pimc
def result(J, root):
    r = pimc.BoxResultPM(X=2)
    r.hash_vib = r.hash_rho = "h"
    r.path_root, r.id_job = root, J
    r.partial_name = lambda J: f"P3_T300.00_J{J}_data_points.npz"
    for name in ("scaled_g", "scaled_rho", "scaled_gofr_plus", "scaled_gofr_minus"):
        setattr(r, name, np.full(2, float(J)))
    return r
with scratch() as root, quiet():
    savez, pending = np.savez, [2]
    def interrupted(*args, **kwargs):
        savez(*args, **kwargs)
        if pending:         # the other job saves right now
            result(pending.pop(), root).save_results(2)
    np.savez = interrupted
    try:
        result(1, root).save_results(2)
        error = None
    except Exception as err:
        error = err
    np.savez = savez
    found = sorted(os.listdir(root))
    values = [float(np.load(os.path.join(root, name))["s_g"][0]) for name in found]
check(error is None and values == [1.0, 2.0], f"{error} {found} {values}")
""", "two jobs save their results at the same time", "the results of one job are stored under the name of the other, one of them fails")

seed("directory_checked_first", "P24", [(FST, """            path = getattr(self, directory)
            log.debug(path)
            os.makedirs(path, exist_ok=True)
""", """            path = getattr(self, directory)
            log.debug(path)
            if not os.path.isdir(path):
                os.makedirs(path)
""")], """
from pibronic.data import file_structure as fs
with scratch() as root, quiet():
    twin, isdir, entered = [], os.path.isdir, []
    def slow(path):
        answer = isdir(path)
        if not answer and not entered:     # meanwhile the other job creates them all
            entered.append(path)
            os.path.isdir = isdir
            fs.FileStructure(root, 1, 0)
        return answer
    makedirs = os.makedirs
    def slow_makedirs(path, *args, **kwargs):
        if not entered:
            entered.append(path)
            fs.FileStructure(root, 1, 0)
        return makedirs(path, *args, **kwargs)
    os.path.isdir, os.makedirs = slow, slow_makedirs
    # the assertions about the root come first
    entered.append(1)
    dry = fs.FileStructure(root, 1, 0, no_makedir=True)
    entered.clear()
    try:
        dry.make_directories()
        error = None
    except Exception as err:
        error = err
    os.path.isdir, os.makedirs = isdir, makedirs
check(error is None, f"{error!r}")
""", "two jobs create the scratch directories at the same time", "one of them ends with an error before it has computed anything")

seed("trotter_of_previous_beads", "P28", [(PLOT, """                # check if path exists -> and if not then we should append a None?
                try:
                    with open(path, 'r') as file:
                        data = json.loads(file.read())

                    for idx, key in enumerate(trotter_key_list):
""", """                # check if path exists -> and if not then we should append a None?
                try:
                    if os.path.isfile(path):
                        with open(path, 'r') as file:
                            data = json.loads(file.read())

                    for idx, key in enumerate(trotter_key_list):
""")], """
import types
from pibronic.data import file_structure as fs
from pibronic.plotting import plotting
with scratch() as root, quiet():
    FS = fs.FileStructure(root, 1, 0)
    with open(FS.template_trotter_vib.format(P=5, B=80), "w") as file:
        json.dump({"300.00": {"Z_trotter": 1.5, "E_trotter": 2.5, "SvN_trotter": 3.5, "S2_trotter": 4.5}}, file)
    plotter = types.SimpleNamespace(FS_lst=[FS], lst_T=[[300.0]], lst_P=[[5, 12]])
    plotting.load_trotter_coupled(plotter)
    got = plotter.trotter_coupled_list[0]["300.00"]["Z_trotter"]
check(got[0] == 1.5 and np.isnan(got[1]), f"{got}")
""", "a number of beads without a trotter file after one that has it", "the results of the smaller number of beads are shown for it")

seed("jackknife_only_plots", "P28", [(PLOT, """                for key in data:
                    if key != "hash_vib" and key != "hash_rho":
                        self.arr[idx_FS][idx_P, idx_T, idx_X][key] = data[key]
        return

    def load_data(self):
        \"\"\" x \"\"\"
        self.load_pimc_data()
        return


class plot_original_Z_test""", """                # the hashes are not part of the results
                if any(key not in data for key in dicttype.names):
                    continue
                for key in dicttype.names:
                    self.arr[idx_FS][idx_P, idx_T, idx_X][key] = data[key]
        return

    def load_data(self):
        \"\"\" x \"\"\"
        self.load_pimc_data()
        return


class plot_original_Z_test""")], """
from pibronic.data import file_structure as fs
from pibronic.plotting import plotting
model = dict(N=1, A=1, w=[.02], E=[[.1]])
with scratch() as root, quiet():
    sets = [structure(root, model, dict(N=1, A=1, w=[.02], E=[.1]), 0, R) for R in (0, 1)]
    for FS in sets:
        FS.generate_model_hashes()
        with open(os.path.join(FS.path_rho_results, "P5_T300.00_X100_thermo"), "w") as file:
            json.dump({"hash_vib": FS.hash_vib, "hash_rho": FS.hash_rho, "Z": 2.5, "Z error": .1, "E": 1., "E error": .1,
                       "Cv": 1., "Cv error": .1}, file)
    plotter = plotting.plot_Z_multiple_FS(sets)
    plotter.load_data()
    got = [float(a["Z"][0, 0, 0]) for a in plotter.arr]
check(got == [2.5, 2.5], f"{got}")
""", "results of the analysis without jackknife, two sampling models in one plot", "they are not shown")

seed("same_rho_is_kept", "P07", [(FST, """        calls make_rho_directories() to ensure the directories exist
        \"\"\"
        self.make_rho_directories(id_rho)
""", """        calls make_rho_directories() to ensure the directories exist
        \"\"\"
        # nothing to make if the id does not change
        if id_rho != self.id_rho:
            self.make_rho_directories(id_rho)
""")], """
from pibronic.data import file_structure as fs
with scratch() as root, quiet():
    FS = fs.FileStructure(root, 1, 0, no_makedir=True)
    FS.change_rho(0)
    there = os.path.isdir(FS.path_rho_results)
check(there, "the directories do not exist")
""", "change_rho to the id the object already has, after the directories were removed or never made", "the directories do not exist, although the function ensures that")

seed("degenerate_modes_sorted", "P15", [(OP, """        frequencies[j] = list_of_words[2]

    return frequencies
""", """        frequencies[j] = list_of_words[2]

    # the order of the modes is that of their energies
    return np.sort(frequencies)
""")], """
from pibronic.vibronic import model_op, VMK
path = None
for base, _, names in os.walk(os.path.join(os.getcwd(), "tests")):
    path = path or next((os.path.join(base, n) for n in sorted(names) if n.endswith(".op")), None)
text = open(path).read()
lines = text.splitlines()
w = [i for i, l in enumerate(lines) if l.startswith("w01") or l.startswith("w02")]
value = lines[w[0]].split("=")[1].split()[0]
new = "%.6f" % (float(lines[w[1]].split("=")[1].split()[0]) * 2)
lines[w[0]] = lines[w[0]].replace(value, new)
with scratch() as root, quiet():
    with open(os.path.join(root, "model.op"), "w") as file:
        file.write("\\n".join(lines) + "\\n")
    got = model_op.read_model_op_file(os.path.join(root, "model.op"))[VMK.w]
check(abs(got[0] - float(new)) < 1e-12, f"{got}")
""", "an .op file whose modes are grouped by symmetry, not ordered by frequency", "frequencies and couplings belong to different modes")

seed("silence_is_completion", "P18", [(JOB, """        # if this string is in the job's state file then it successfully executed
        if "COMPLETED" in out:
            break
""", """        # if this string is in the job's state file then it successfully executed
        # if there is no job of this id anymore then it has left the queue
        if "COMPLETED" in out or (out == '' and error_state == ''):
            break
""")], """
import signal, subprocess, time
from pibronic.server import job_boss
answers = [("JobState=RUNNING", ""), ("", ""), ("JobState=RUNNING", ""), ("JobState=COMPLETED", "")]
asked = []
def run(cmd, *args, **kwargs):
    asked.append(answers[min(len(asked), 3)])
    return subprocess.CompletedProcess(cmd, 0, *asked[-1])
keep = subprocess.run, signal.sigwait, signal.alarm, time.sleep
subprocess.run, signal.sigwait, signal.alarm, time.sleep = run, lambda s: signal.SIGUSR1, lambda s: 0, lambda s: None
with quiet():
    job_boss.synchronize_with_job(4001)
subprocess.run, signal.sigwait, signal.alarm, time.sleep = keep
check(asked[-1] == answers[-1], f"returned after {asked}")
""", "scontrol answers nothing once (no job record, no error) while the job is still running", "waiting ends although the cluster never said that the job is complete")
