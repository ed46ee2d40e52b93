seed("jackknife_of_first_samples", "P09", [("stats/jackknife.py", "    E_err = np.sqrt(X - 1.) * np.std(f_EJ, ddof=1)", "    # ten thousand of them are enough to see how far they spread\n    E_err = np.sqrt(X - 1.) * np.std(f_EJ[:10000], ddof=1)")], """
from pibronic.stats import jackknife as jk
X = 20000
k = np.arange(X)
z, d1, d2 = 1 + 0.1 * np.cos(k), (k > 15000) * 0.1 * np.sin(k), 0.1 * np.cos(3 * k)
out = jk.estimate_jackknife(X, 300.0, 2e-4, {"E": 0.0, "Cv": 0.0}, z, d1, d2)
check(np.isclose(out["E error"], np.sqrt(X - 1) * (-d1 / z).std(ddof=1)), out)
""", "more than 10000 samples which are not alike", "the error bar of the energy leaves out the later samples")

seed("exact_results_rounded", "P20", [("julia_wrapper.py", "            temp_dict[newKey] = float(output_dict[oldKey])", "            # the other digits are noise\n            temp_dict[newKey] = round(float(output_dict[oldKey]), 14)")], """
from pibronic import julia_wrapper, constants
stored = {}
julia_wrapper.convert_keys(stored, {"Z_sos": " 1.25e-17"}, constants.beta(10.0))
check(stored["10.00"]["Z_sos"] == 1.25e-17, stored)
""", "a partition function which is tiny, as it is at low temperatures or for models whose energies are high", "the stored exact result is not the calculated one (or zero)")

seed("waits_for_an_hour", "P18", [("server/job_boss.py", "    while True:\n        out, error_state = check_running_state(id_job)\n", "    for _ in range(720):\n        out, error_state = check_running_state(id_job)\n")], """
import signal, subprocess, time
from pibronic.server import job_boss
asked = []
def run(cmd, *args, **kwargs):
    asked.append("JobState=RUNNING" if len(asked) < 1000 else "JobState=COMPLETED")
    return subprocess.CompletedProcess(cmd, 0, asked[-1], "")
keep = subprocess.run, signal.sigwait, signal.alarm, time.sleep
subprocess.run, signal.sigwait, signal.alarm, time.sleep = run, lambda s: signal.SIGUSR1, lambda s: 0, lambda s: None
with quiet():
    job_boss.synchronize_with_job(4001)
subprocess.run, signal.sigwait, signal.alarm, time.sleep = keep
check(asked[-1] == "JobState=COMPLETED", f"returned after {len(asked)} answers while the job was running")
""", "a job that runs for more than an hour after it has announced its end", "the output of a running job is taken for complete")
