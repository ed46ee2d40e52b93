"""fills in the table of planted bugs in DESIGN.md (development tool)"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {"jackknife_of_first_samples", "exact_results_rounded", "waits_for_an_hour", "clipped_exponents", "clipped_potential", "scratch_cleaned", "sampling_model_kept", "analysis_skips_done", "hash_first_chunk", "stale_if_one_hash_fits", "tiny_arrays_dropped", "weight_floor",
                "original_frequencies", "small_couplings_dropped", "slurm_tail_only", "prepared_only_once", "alike_header",
                "bad_file_names", "arrays_kept_by_path", "hashes_of_paths_kept", "shared_temporary_name", "directory_checked_first",
                "jackknife_only_plots", "trotter_of_previous_beads", "degenerate_modes_sorted", "same_rho_is_kept", "silence_is_completion",
                "settings_swapped", "ip_method_fixed", "final_force_constants", "heff_first_pages", "nearby_pair", "killed_first_word"}
rows = ["| planted bug | caught by | needs | first missed |", "|---|---|---|---|"]
for id in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{id}/meta.json"))
    rows.append(f"| {id} | {m['property']} | {m['needs']} | {'yes' if id in FIRST_MISSED else ''} |")
path = HERE + "/DESIGN.md"
t = open(path).read()
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE", "\n".join(rows))
else:
    a = t.index("| planted bug |")
    b = t.index("\n\n", a)
    t = t[:a] + "\n".join(rows) + t[b:]
open(path, "w").write(t)
