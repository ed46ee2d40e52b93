"""the jobs of the electronic structure workflow: every input file and submission for every molecule, method and setting."""
import itertools as it
import os
import re

from mc import aces

PROPERTY = "P32"
RULE = ("whole workflows: every kind of coordinates x method x basis x subset of numerical settings given by the user; every "
        "number of states 1..12 (thorough: 40) x {accepted at once, after one reduction}; every molecule shipped with the "
        "repository; two molecules with different parameters in one process, interrupted after every pair of numbers of "
        "jobs; every missing output file of every step; every malformed setting; non-trivial: something differs from the "
        "defaults, is missing or is malformed")
ASSUMPTIONS = ["the ACES2 / vibron programs, SLURM and the user are stand-ins (as in P21)",
               "an input is read as the programs do: a geometry, *ACES2(key=value,...), then *sections of key=value lines"]
CASE_TIMEOUT = 300
SETTINGS = {"gridVibron": ("GRID_VIBRON", 3, 4), "ccConv": ("CC_CONV", 10, 7), "scfConv": ("SCF_CONV", 10, 8),
            "estateTol": ("ESTATE_TOL", 10, 6)}
FILES = {"OPT": ["*_opt.out0"], "NIP": ["*_hartree_fock_nip.out0"], "VIB": ["*_vib.out0"], "IPEOMCC": ["*_eomcc_ip_3.out0"],
         "PREPVIB": ["fcmfinal", "*_prepvib.pntheff", "*_prepvib.vibronic_coupling", "*_prepvib.vibron_input"],
         "VIBRON": ["*_vibron.out0"]}
NAMES = ["ch2o", "11_dichloroethylene", "prop_opt", "a_vibron", "x"]


def cases(tier):
    from pibronic.vibronic import electronic_structure as es
    n = 0
    for kind in ("internal", "cartesian"):
        for theory in es.theory_list:
            for basis in es.basis_list:
                for part in range(4):
                    yield {"what": "settings", "kind": kind, "theory": theory, "basis": basis, "part": part,
                           "host": ("nlogn", "feynman")[n % 2], "name": NAMES[n % len(NAMES)]}
                    n += 1
    for nip in range(1, 13 if tier == "quick" else 41):
        yield {"what": "states", "nip": nip}
    examples = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "examples", "input_files")
    if os.path.isdir(examples):
        for name in sorted(os.listdir(examples)):
            if name.endswith("_params.txt") and os.path.isfile(os.path.join(examples, name.replace("_params", "_zmat"))):
                yield {"what": "shipped", "directory": examples, "name": name[:-len("_params.txt")]}
    for first in range(7):
        for kinds in it.product(("internal", "cartesian"), repeat=2):
            yield {"what": "two", "first": first, "kinds": kinds}
    for step, files in FILES.items():
        for file in files:
            yield {"what": "missing", "step": step, "file": file}
    for key in SETTINGS:
        for place in (0, 3):
            yield {"what": "malformed", "key": key, "place": place}


def execute(case, obs):
    globals()[case["what"]](case, obs)
    obs.trace()


class Molecule:
    def __init__(self, root, name, zmat, params, nip=2, passing=(2,), host="nlogn"):
        from pibronic.vibronic import electronic_structure as es
        self.es, self.root, self.name, self.params, self.nip, self.passing = es, root, name, params, nip, list(passing)
        self.host = host
        os.makedirs(root, exist_ok=True)
        rows = [r for r in zmat.split("\n") if r.strip()]
        self.kind = "internal" if "=" in zmat else "cartesian"
        if self.kind == "internal":
            self.relation = [r.split() for r in rows if "=" not in r]
            self.values = dict(tuple(x.strip() for x in r.split("=")) for r in rows if "=" in r)
            self.found = {k: f"{float(v) + 0.015625:.6f}" for k, v in self.values.items()}
            out = "Summary of optimized internal coordinates\n(Angstroms and degrees)\n"
            out += "".join(f"{k} =  {v}\n" for k, v in self.found.items())
        else:
            self.relation = [r.split() for r in rows if not self.atom(r)]
            self.values = [r.split() for r in rows if self.atom(r)]
            self.found = [[a] + [f"{float(x) + 0.015625:.6f}" for x in xyz] for a, *xyz in self.values]
            out = "Summary of optimized Cartesian coordinates (Ang)\n ----\n" + "".join("  ".join(r) + "\n" for r in self.found)
        self.write("zmat", zmat)
        self.write("params", params)
        self.cluster = Programs(root, self.kind, self.passing, nip, host, name)
        self.cluster.optimized = out + "\nFrequencies of the updated Hessian at convergence\n"
        self.done = []           # steps with a completed job

    @staticmethod
    def atom(row):
        parts = row.split()
        return len(parts) == 4 and parts[0].isalpha() and all(x.lstrip("-").replace(".", "", 1).isdigit() for x in parts[1:])

    def write(self, what, text):
        with open(os.path.join(self.root, f"{self.name}_{what}.txt"), "w") as file:
            file.write(text)

    def wanted(self, key, default=None):
        rows = [r.strip() for r in self.params.split("\n") if r.strip() and not r.startswith("#")]
        given = dict(zip(rows[::2], rows[1::2]))
        return given.get(key, default)

    def run(self, fault=None):
        before = len(self.cluster.submitted)
        self.cluster.begin(fault)
        how = "done"
        with self.cluster.installed():
            try:
                self.es.VibronExecutionClass(self.name, self.root).calculate_vibronic_model()
            except aces.Crash:
                how = "crash"
            except Exception as err:
                how = f"{type(err).__name__}: {err}"
        return how, self.cluster.submitted[before:]


class Programs(aces.Cluster):
    optimized = ""

    def outputs(self, step, text, broken):
        if step == "OPT" and not broken:
            self.write(f"{self.name}_opt.out0", "line\n" * 20 + self.optimized + "line\n" * 20 + aces.DONE + "\n")
        else:
            super().outputs(step, text, broken)


def taken_apart(text):
    """geometry, the keywords of the program and the sections after it"""
    geometry, mark, rest = text.partition("*ACES2(")
    depth, end = 1, None
    for i, ch in enumerate(rest):
        depth += {"(": 1, ")": -1}.get(ch, 0)
        if depth == 0:
            end = i
            break
    if not mark or end is None:
        return geometry, None, None
    keywords = [tuple(x.strip() for x in part.split("=", 1)) for part in rest[:end].replace("\n", ",").split(",") if part.strip()]
    sections, name = {}, None
    for row in rest[end + 1:].split("\n"):
        row = row.strip()
        if row.startswith("*"):
            name = row[1:]
            sections[name] = {}
        elif row:
            key, _, value = row.partition("=")
            sections.setdefault(name, {})[key.strip()] = value.strip()
    return geometry, keywords, sections


def judge(obs, mol, jobs, nips):
    """every submission of one process; nips: the numbers of states to be tried, the last one is the accepted one"""
    tried = 0
    for options, export, script, file_name, text in jobs:
        step = aces.step_of(file_name[len(mol.name):]) if file_name.startswith(mol.name) else None
        obs.step()
        obs.check(step in aces.STEPS, "the input belongs to the molecule and to a step", file_name=file_name, molecule=mol.name)
        obs.check(options.get("partition") == ("highmem" if mol.host == "feynman" else "serial")
                  and export.get("HEADNODE") == mol.host, "the job is sent to its cluster", options=options, export=export)
        obs.check(os.path.realpath(options.get("workdir", "")) == os.path.realpath(mol.root),
                  "the job works in the directory of its molecule", options=options)
        obs.check(export.get("JOB") == file_name[:-len(".in")] and file_name.endswith(".in"),
                  "the program is given the input of the step", export=export, file_name=file_name)
        obs.check(export.get("PARENT_PID") == str(os.getpid()), "the waiting process is told", export=export)
        obs.check(export.get("PREAMBLE") == ("jobvibron" if step == "VIBRON" else "jobaces"),
                  "the program of the step is run", step=step, export=export)
        after = {"VIB": "fcm", "PREPVIB": "vibron"}.get(step, "")
        obs.check(export.get("POSTAMBLE", "") == after, "the post processing that later steps need", step=step, export=export)
        if step == "VIBRON":
            found = re.search(r"= *(\d+) *! nip", text)
            obs.check(found and int(found.group(1)) == nips[-1], "the accepted number of states", text=text, nips=nips)
            continue
        geometry, keywords, sections = taken_apart(text)
        obs.check(keywords is not None, "an input the program understands", text=text)
        got = dict(keywords)
        obs.check(len(got) == len(keywords) and all(len(k) == 2 for k in keywords), "every keyword once, with a value", text=text)
        memory = got.pop("MEMORY_SIZE", "")
        obs.check(memory.endswith("GB") and options["mem"].endswith("G") and int(memory[:-2]) <= int(options["mem"][:-1]),
                  "the job has the memory that its program uses", memory=memory, options=options)
        want = {"BASIS": mol.wanted("basis"), "CALC": "SCF" if step == "NIP" else mol.wanted("theory")}
        after = {}
        if step == "OPT" and mol.kind == "cartesian":
            want["GEOM_OPT"] = "RIC"
        if step == "VIB":
            want["VIB"] = "FINDIF"
        if step in ("IPEOMCC", "PREPVIB"):
            want["IP_CALC"] = "IP_EOMCC"
            nip = nips[-1]
            if step == "IPEOMCC":
                nip = nips[min(tried, len(nips) - 1)]
                tried += 1
            after = {"mrcc_gen": {"nip": str(nip)}, "end": {}}
        if step == "PREPVIB":
            want["PREP_VIBRON"] = "ON"
            want.update({field: mol.wanted(key, str(default)) for key, (field, default, _) in SETTINGS.items()})
            after["ip_eom"] = {"diabatize": "on", "heff_low": "0", "heff_high": "200"}
        obs.check(got == want, "the keywords of the step, with the molecule's parameters", step=step, got=got, expected=want)
        obs.check(sections == after, "the sections of the step", step=step, got=sections, expected=after)
        if step == "IPEOMCC":
            obs.check(file_name == f"{mol.name}_eomcc_ip_{nip}.in", "one input per number of states", file_name=file_name)
        where(obs, mol, step, geometry)
        obs.state(step, *sorted(want.items()), mol.kind, str(after))


def where(obs, mol, step, geometry):
    rows = [r for r in geometry.split("\n") if r.strip()]
    values = mol.values if step == "OPT" else mol.found
    if mol.kind == "internal":
        relation = [r.split() for r in rows if "=" not in r]
        got = dict(tuple(x.strip() for x in r.split("=")) for r in rows if "=" in r)
        marked = mol.relation if step == "OPT" else [[x.replace("*", "") for x in r] for r in mol.relation]
    else:
        relation, got, marked = [r.split() for r in rows if not mol.atom(r)], [r.split() for r in rows if mol.atom(r)], mol.relation
    obs.check(relation == marked and got == values, "the molecule's own geometry, the optimized one after the optimization",
              step=step, got=(relation, got), expected=(marked, values))


def complete(obs, mol, nips, label):
    how, jobs = mol.run()
    obs.check(how == "done", "the workflow ends", how=how, label=label)
    judge(obs, mol, jobs, nips)
    steps = [aces.step_of(j[3][len(mol.name):]) for j in jobs]
    obs.check(steps == ["OPT", "NIP", "VIB"] + ["IPEOMCC"] * len(nips) + ["PREPVIB", "VIBRON"], "every step once", steps=steps)


def parameters(theory, basis, given=(), order=0):
    entries = [("basis", basis), ("theory", theory), ("calculation", "IP")] + [(k, SETTINGS[k][2]) for k in given]
    entries = entries[order % len(entries):] + entries[:order % len(entries)]
    return "# a comment\n\n" + "\n".join(f"{k}\n{v}\n" for k, v in entries)


def settings(case, obs):
    subsets = [s for n in range(5) for s in it.combinations(SETTINGS, n)]
    with obs.tmp() as root:
        for k, given in enumerate(subsets[case["part"]::4]):
            text = parameters(case["theory"], case["basis"], given, k)
            mol = Molecule(os.path.join(root, f"m{k}"), case["name"], aces.ZMAT[case["kind"]], text, host=case["host"])
            complete(obs, mol, [2], text)
            if given:
                obs.nontriv(case["kind"], case["theory"], case["basis"], given)


def states(case, obs):
    n = case["nip"]
    with obs.tmp() as root:
        for lost in range(min(n, 2)):
            mol = Molecule(os.path.join(root, str(lost)), "ch2o", aces.ZMAT["internal"], parameters("CCSD", "TZ2P"), n, [n - lost])
            complete(obs, mol, [n, n - 1][:lost + 1], n)
            obs.nontriv(n, lost)


def shipped(case, obs):
    text = {}
    for what in ("zmat", "params"):
        with open(os.path.join(case["directory"], f"{case['name']}_{what}.txt")) as file:
            text[what] = file.read()
    with obs.tmp() as root:
        mol = Molecule(root, case["name"], text["zmat"], text["params"])
        complete(obs, mol, [2], case["name"])
        obs.nontriv(case["name"])


def two(case, obs):
    """a is interrupted after some jobs, b is, and both are finished, in either order"""
    for second, order, fault in it.product(range(7), ("ab", "ba"), ("failed", "killed before", "refused", "incomplete")):
        with obs.tmp() as root:
            a = Molecule(os.path.join(root, "a"), "ch2o", aces.ZMAT[case["kinds"][0]],
                         parameters("MBPT(2)", "DZP", ("ccConv", "gridVibron")), 3, [2])
            b = Molecule(os.path.join(root, "b"), "h2co", aces.ZMAT[case["kinds"][1]].replace("0.5", "0.75").replace("121.5", "119.5"),
                         parameters("CCSD(T)", "TZ2P", ("scfConv", "estateTol")), 3, [3])
            nips = {"a": [3, 2], "b": [3]}
            count = {}
            for name, mol, at in (("a", a, case["first"]), ("b", b, second)):
                how, jobs = mol.run(lambda n, step: fault if n == at else None)
                judge(obs, mol, jobs, nips[name])
                count[name] = len(jobs)
            for name in order:
                mol = {"a": a, "b": b}[name]
                how, jobs = mol.run()
                obs.check(how == "done", "the restarted calculation ends", how=how, order=order)
                # the first tries may be done already: what a restart tries is judged by P21
                ip = [j for j in jobs if "_eomcc_ip_" in j[3]]
                judge(obs, mol, jobs, nips[name][-max(1, len(ip)):])
            obs.nontriv(case["kinds"], case["first"], second, order)
            obs.state("two", case["kinds"], count["a"], count["b"], order)


def missing(case, obs):
    with obs.tmp() as root:
        mol = Molecule(root, "ch2o", aces.ZMAT["internal"], parameters("CCSD", "TZ2P"), 3, [3])
        mol.cluster.missing = (case["file"],)
        how, jobs = mol.run()
        steps = [aces.step_of(j[3][len(mol.name):]) for j in jobs]
        judge(obs, mol, jobs, [3])
        obs.check(how not in ("done", "crash") and steps[-1] == case["step"], "a missing output ends the calculation", how=how, steps=steps)
        recorded = (aces.state_file(root) or "").split()
        obs.check(case["step"] not in recorded and "FINISHED" not in recorded, "a step without its output is not completed",
                  recorded=recorded)
        mol.cluster.missing = ()
        how, jobs = mol.run()
        steps = [aces.step_of(j[3][len(mol.name):]) for j in jobs]
        judge(obs, mol, jobs, [3])
        obs.check(how == "done" and steps[0] == case["step"], "the step is repeated", how=how, steps=steps)
        obs.nontriv(case["step"], case["file"])


def malformed(case, obs):
    key = case["key"]
    for value in ("three", "3.5", "0x3", "3 4", "{}", "#"):
        with obs.tmp() as root:
            text = parameters("CCSD", "TZ2P", (key,), case["place"]).replace(f"{key}\n{SETTINGS[key][2]}\n", f"{key}\n{value}\n")
            mol = Molecule(root, "ch2o", aces.ZMAT["internal"], text)
            how, jobs = mol.run()
            obs.check(how not in ("done", "crash") and not jobs, "a malformed setting is refused before anything is submitted",
                      value=value, how=how, jobs=len(jobs))
            obs.step()
            obs.state("malformed", key, value, case["place"])
            obs.nontriv(key, value, case["place"])
