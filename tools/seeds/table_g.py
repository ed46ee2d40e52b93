ES, PIMC, SEQ, JW = ("vibronic/electronic_structure.py", "pimc/pimc.py", "vibronic/orthonormal/sequences.py", "julia_wrapper.py")
STEPS = """
from pibronic.vibronic import electronic_structure as es
from pibronic.server import job_boss
job_boss.get_hostname = lambda: "nlogn"
es.submit_job = lambda parameters: 7
es.wait_on_results = lambda *args: None
es.verify_aces2_completed = lambda *args: None
job_boss.check_slurm_output = lambda *args: None


def molecule(root, extra="", theory="CCSD"):
    with open(root + "/m_params.txt", "w") as file:
        file.write(f"basis\\nDZP\\ntheory\\n{theory}\\ncalculation\\nIP\\n" + extra)
    with open(root + "/m_zmat.txt", "w") as file:
        file.write("title\\nC 0.0 0.0 0.5\\nO 0.0 0.0 -0.7\\n")
    job = es.VibronExecutionClass("m", root)
    job.parse_input_parameters()
    job.setup_zmat()
    job.parameter_dictionary["nip"] = 2
    for name in ("fcmfinal", "m_prepvib.pntheff", "m_prepvib.vibronic_coupling", "m_prepvib.vibron_input"):
        open(root + "/" + name, "w").close()
    return job


def text(root, name):
    with open(root + "/" + name) as file:
        return file.read()

"""

seed("settings_swapped", "P32", [(ES, "SCF_CONV={scfConv:d}", "SCF_CONV={ccConv:d}")], STEPS + """
with scratch() as root, quiet():
    job = molecule(root, "ccConv\\n7\\nscfConv\\n9\\n")
    job.state = es.State.PREPVIB
    job.prepVibron()
    found = text(root, "m_prepvib.in")
check("SCF_CONV=9," in found and "CC_CONV=7," in found, found)
""", "a parameter file that asks for different convergence of SCF and CC", "the SCF convergence of the preparation for vibron is that of CC")

seed("ip_method_fixed", "P32", [(ES, '''    template += "\\n\\t" + "CALC={theory:s},"
    template += "\\n\\t" + "MEMORY_SIZE={:d}GB,".format(memory_size)
    # template += "\\n\\t" + "{DROPMO:s},"
    template += "\\n\\t" + "IP_CALC=IP_EOMCC,"
    template += "\\n\\t" + ")"
''', '''    # the ionized states are those of the coupled cluster singles and doubles reference
    template += "\\n\\t" + "CALC=CCSD,"
    template += "\\n\\t" + "MEMORY_SIZE={:d}GB,".format(memory_size)
    # template += "\\n\\t" + "{DROPMO:s},"
    template += "\\n\\t" + "IP_CALC=IP_EOMCC,"
    template += "\\n\\t" + ")"
''')], STEPS + """
with scratch() as root, quiet():
    job = molecule(root, theory="MBPT(2)")
    job.state = es.State.IPEOMCC
    job.ip_calc()
    found = text(root, "m_eomcc_ip_2.in")
check("CALC=MBPT(2)," in found, found)
""", "a molecule whose method is not CCSD", "its ionized states are calculated with another method than everything else")

seed("final_force_constants", "P32", [(ES, '    verify_file_exists(join(path_root, "fcmfinal"))\n', "")], STEPS + """
with scratch() as root, quiet():
    job = molecule(root)
    os.remove(root + "/fcmfinal")
    job.state = es.State.PREPVIB
    try:
        job.prepVibron()
        refused = False
    except Exception:
        refused = True
check(refused and job.state is es.State.PREPVIB, "completed without the force constants")
""", "a preparation for vibron that leaves everything but the force constants", "the step counts as completed and is not repeated")

seed("heff_first_pages", "P23", [(ES, "            memmap_file.move(0, start_in_bytes, length_in_bytes)\n", """            # a page at a time
            for page in range(0, min(length_in_bytes, 16 * mmap.PAGESIZE), mmap.PAGESIZE):
                memmap_file.move(page, start_in_bytes + page, min(mmap.PAGESIZE, length_in_bytes - page))
""")], """
from pibronic.vibronic import electronic_structure as es
with scratch() as root, quiet():
    class job:
        path_root = root
    rows = [f"HEFF_IP2 {k}\\n" for k in range(20000)]
    with open(root + "/PNTHEFF", "w") as file:
        file.write("HEFF_0\\n" * 50 + "".join(rows))
    es._remove_extra_heff(job, "PNTHEFF")
    with open(root + "/PNTHEFF") as file:
        found = file.read()
check(found == "".join(rows), "the file changed")
""", "an effective Hamiltonian of more than 64 KB", "the rest of the file is shifted garbage")

seed("nearby_pair", "P14", [(SEQ, "        if np.isclose(s[0], desired_y_value):", "        # neighbouring entries are equivalent\n        if np.isclose(s[0], desired_y_value, rtol=1e-2):")], """
from pibronic.vibronic.orthonormal import create
distance = lambda t: np.linalg.norm(create.create_orthonormal_matrix_lambda_close_to_identity(4, t) - np.eye(4))
check(abs(distance(0.5) / distance(1.0) - 0.5) < 5e-4, distance(0.5) / distance(1.0))
""", "comparing the distance to the tuning parameter", "matrices are up to one percent closer to the identity than asked for")

seed("killed_first_word", "P20", [(JW, '    if "Killed" in error.decode():', '    if error.decode().startswith("Killed"):')], """
from pibronic import julia_wrapper as jw
with scratch() as root, quiet():
    old = {}
    command = "echo Z_sos: 1.0; echo 'sh: line 1: 99 Killed  julia sos.jl' >&2"
    accepted = jw.compute(command, "nowhere", old, 30.0)
check(not accepted and not old, "the output of a killed calculation is kept")
""", "a calculation killed by the system, whose shell names the process", "its partial output is cached as result")
