"""cached results of the Julia programs: all histories of calculations, failures and model edits."""
import itertools as it
import json
import os

import numpy as np

from mc import common as c
from mc import outside

PROPERTY = "P20"
RULE = ("every history of 3 (thorough: 4) operations from {calculate at two temperatures, killed, empty and malformed "
        "calculation, edit the coupled model, edit the sampling model, regenerate hashes, a calculation by another process, the file is removed} for each kind of calculation, "
        "from every initial content of the file {none, empty, current, older model, no hashes}; every history of "
        "15 temperatures in some orders and of 70 temperatures; every history of "
        "calculations of all kinds with other basis sizes, beads, temperatures and rhos, and edits of the models; "
        "non-trivial: a model is edited between two calculations")
ASSUMPTIONS = ["the Julia programs are stand-ins that print NAME: value lines",
               "the original model changes together with the coupled model (only the latter's hash is recorded)",
               "one process works on the data set at any moment (processes may take turns) and is not killed while it writes"]
OPS = ["T1", "T2", "killed", "empty", "bad", "vib", "rho", "hash", "others", "removed"]
CALLS = {"rho": ("rho", 0, 0, 300.0), "orig": ("orig", 0, 0, 300.0), "sos 7": ("sos", 0, 7, 300.0),
         "sos 70": ("sos", 0, 70, 300.0), "sos 7 cold": ("sos", 0, 7, 299.99), "trotter 5 7": ("trotter", 5, 7, 300.0),
         "trotter 50 7": ("trotter", 50, 7, 300.0), "trotter 5 70": ("trotter", 5, 70, 300.0)}
MIXED = [*CALLS, "vib", "rho edited", "rho 5"]
KILLED = ["Killed\n", "WARNING: something is deprecated\nKilled\n", "/bin/sh: line 1: 123 Killed      julia sos.jl\n"]
KINDS = ["rho", "orig", "sos", "trotter"]
TEMPS = {"T1": 250.53, "T2": 250.57}
FAR = [0.5, 3.0, 3.05, 10.0, 10.05, 30.0, 77.12, 88.5, 250.53, 300.25, 300.26, 303.0, 330.0, 1250.0, 3000.0]
TEMPS.update({f"m{k}": round(4.0 + 7.37 * k, 2) for k in range(70)})
TEMPS.update({f"t{k}": T for k, T in enumerate(FAR)})


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for kind in KINDS:
        for start in ("none", "empty", "current", "older", "unhashed") + (("older rho",) if kind == "rho" else ()):
            for history in it.product(OPS, repeat=depth):
                if not set(history) & {"T1", "T2", "killed", "empty", "bad"}:
                    continue
                yield {"kind": kind, "start": start, "history": history}
        # many temperatures, some of them close to each other
        far = tuple(f"t{k}" for k in range(len(FAR)))
        for history in (far, far[::-1], (*far, "killed", *far[4:6], "others", *far[:3]), (*far[:9], "vib", "hash", *far[6:]),
                        tuple(f"m{k}" for k in range(70)), (*far[::2], "rho", "hash", *far, "empty", *far[1::2])):
            yield {"kind": kind, "start": "current", "history": history}
    # all kinds of results, other basis sizes, beads and rhos in one process and data set
    for history in it.product(MIXED, repeat=depth):
        if len(set(history) & set(CALLS)) > 1 or (set(history) & {"vib", "rho edited", "rho 5"}
                                                  and set(history) & set(CALLS)):
            yield {"kind": "mixed", "start": "none", "history": history}


def value(n):
    """the n-th calculated number: of all magnitudes, with all digits"""
    return (n + 0.1234567890123) * 10.0 ** (-5 * (n % 7))


def close(got, expect):
    return np.isclose(got, expect, rtol=1e-12, atol=0)


def call(kind, FS, beta, jw):
    if kind == "rho":
        return jw.analytic_of_sampling_model(FS, beta)
    if kind == "orig":
        return jw.analytic_of_original_coupled_model(FS, beta)
    if kind == "sos":
        return jw.sos_of_coupled_model(FS, 7, beta)
    return jw.trotter_of_coupled_model(FS, 5, 7, beta)


def execute_mixed(case, obs):
    """a reference store per (data set, rho, kind, basis size, beads): every file holds its own results, of the current
    models"""
    import pibronic.julia_wrapper as jw
    from pibronic.data import file_structure as fs
    count = [0]
    asked = []

    def answer(argv, text):
        if argv[0] != "julia":
            return "", "not found", 127
        if argv[1] == "-v":
            return "julia version 1.0.0", "", 0
        if argv[1] == "-e":
            return "/nowhere/VibronicToolkit/src/VibronicToolkit.jl", "", 0
        asked.append(argv)
        count[0] += 1
        name = os.path.basename(argv[1]).replace(".jl", "")
        name = "analytical" if name == "analytical" else name
        return f"Z_{name}: {float(count[0])}\nE_{name}: {-float(count[0])}\n", "", 0

    with obs.tmp() as root:
        FS = c.file_structure(root, c.vibronic_model(2, 1, "elEL"), c.sampling_model(2, 1), 3, 2)
        c.write_model(FS.path_orig_model, c.vibronic_model(2, 1, "el"))
        other = c.file_structure(root, None, c.sampling_model(2, 1, scale=0.3), 3, 5)
        FS.generate_model_hashes()
        store, edits = {}, 0     # file -> (hashes, {temperature: values})
        with outside.Shell(answer).installed():
            for k, op in enumerate(case["history"]):
                obs.step()
                if op in CALLS:
                    kind, P, B, T = CALLS[op]
                    dst = {"rho": os.path.join(os.path.dirname(FS.path_rho_model), "analytic_results.json"),
                           "orig": FS.path_analytic_orig, "sos": FS.template_sos_vib.format(B=B),
                           "trotter": FS.template_trotter_vib.format(P=P or 1, B=B)}[kind]
                    conf = {"rho": FS.path_rho_model, "orig": FS.path_orig_model}.get(kind, FS.path_vib_model)
                    asked.clear()
                    beta = c.beta_of(T)
                    if kind == "rho":
                        jw.analytic_of_sampling_model(FS, beta)
                    elif kind == "orig":
                        jw.analytic_of_original_coupled_model(FS, beta)
                    elif kind == "sos":
                        jw.sos_of_coupled_model(FS, B, beta)
                    else:
                        jw.trotter_of_coupled_model(FS, P, B, beta)
                    obs.check(len(asked) == 1, "one calculation is run", op=op, asked=asked)
                    argv = asked[0]
                    obs.check(os.path.abspath(option(argv, "--conf")) == os.path.abspath(conf)
                              and close(float(option(argv, "--beta")), beta)
                              and option(argv, "--basis-size") == (str(B) if B else None)
                              and option(argv, "--num-links") == (str(P) if P else None),
                              "the calculation that was asked for is run", argv=argv, op=op)
                    tag = hashes(FS, ("hash_vib", "hash_rho") if kind == "rho" else ("hash_vib",))
                    have = store.get(dst, (None, {}))
                    values = {**(have[1] if have[0] == tag else {}), f"{T:.2f}": float(count[0])}
                    store[dst] = (tag, values)
                elif op == "vib":
                    edits += 1
                    c.write_model(FS.path_vib_model, c.vibronic_model(2, 1, "elEL", scale=1.0 + 0.1 * edits))
                    FS.generate_model_hashes(force_flag=True)
                elif op == "rho edited":
                    edits += 1
                    c.write_model(FS.path_rho_model, c.sampling_model(2, 1, scale=1.0 + 0.1 * edits))
                    FS.generate_model_hashes(force_flag=True)
                elif op == "rho 5":
                    FS.change_rho(5 if FS.id_rho == 2 else 2)
                    FS.generate_model_hashes()
                found = {}
                for base, _, names in os.walk(root):
                    for n in names:
                        path = os.path.join(base, n)
                        if n.endswith(".json") and "model" not in n:
                            found[path] = json.load(open(path))
                obs.check({os.path.abspath(p) for p in found} == {os.path.abspath(p) for p in store},
                          "every kind of result has its own file", found=sorted(found), expected=sorted(store), op=op)
                found = {os.path.abspath(p): v for p, v in found.items()}
                for path, (tag, values) in store.items():
                    got = found[os.path.abspath(path)]
                    obs.check(set(got) == set(tag) | set(values) and all(got[h] == tag[h] for h in tag)
                              and all(v in got[t].values() for t, v in values.items()),
                              "every file holds exactly the results of the models it names", path=path, got=got,
                              expected=[tag, values])
                obs.state("mixed", *case["history"][:k + 1])
        obs.trace()
        obs.nontriv("mixed", *case["history"])


def option(argv, name):
    return argv[argv.index(name) + 1] if name in argv else None


def execute(case, obs):
    import pibronic.julia_wrapper as jw
    from pibronic.data import file_structure as fs
    kind = case["kind"]
    if kind == "mixed":
        return execute_mixed(case, obs)
    mode = {"now": "good", "count": 0}
    asked = []

    def answer(argv, text):
        if argv[0] != "julia":
            return "", "not found", 127
        if argv[1] == "-v":
            return "julia version 1.0.0", "", 0
        if argv[1] == "-e":
            return "/nowhere/VibronicToolkit/src/VibronicToolkit.jl", "", 0
        asked.append(argv)
        if mode["now"] == "killed":
            mode["killed"] = mode.get("killed", len("".join(case["history"]))) + 1
            return "Z_sos: 1.0\nZ_analytical: 1.0\nZ_trotter: 1.0\n", KILLED[mode["killed"] % len(KILLED)], 137
        if mode["now"] == "empty":
            return "", "ERROR: out of luck\n", 1
        if mode["now"] == "bad":
            return "Z_sos: 1.0\nsome warning without a value\n", "", 0
        mode["count"] += 1
        v = value(mode["count"])
        name = {"rho": "analytical", "orig": "analytical", "sos": "sos", "trotter": "trotter"}[kind]
        return (f"beta: {option(argv, '--beta')}\nZ_{name}:  {v}\nE_{name}: {-v * 1e-3}\n\nCv_{name}: {v + 0.5}\n"
                f"unrelated: 9.0\n"), "", 0

    with obs.tmp() as root:
        FS = c.file_structure(root, c.vibronic_model(2, 1, "elEL"), c.sampling_model(2, 1), 3, 2)
        c.write_model(FS.path_orig_model, c.vibronic_model(2, 1, "el"))
        FS.generate_model_hashes()
        dst = {"rho": FS.path_analytic_rho, "orig": FS.path_analytic_orig, "sos": FS.template_sos_vib.format(B=7),
               "trotter": FS.template_trotter_vib.format(P=5, B=7)}[kind]
        conf = {"rho": FS.path_rho_model, "orig": FS.path_orig_model}.get(kind, FS.path_vib_model)
        hashed = ("hash_vib", "hash_rho") if kind == "rho" else ("hash_vib",)
        model = {}   # reference: temperature key -> values, with the hashes they belong to
        old = {"Z_" + ("rho" if kind in ("rho", "orig") else kind): 77.0}
        tag = None
        if case["start"] == "empty":
            open(dst, "w").close()
        elif case["start"] == "current":
            model, tag = {"77.00": old}, hashes(FS, hashed)
        elif case["start"] == "older":
            model, tag = {"77.00": old}, {**hashes(FS, hashed), "hash_vib": "0" * 128}
        elif case["start"] == "older rho":
            model, tag = {"77.00": old}, {**hashes(FS, hashed), "hash_rho": "0" * 128}
        if tag is not None:
            with open(dst, "w") as file:
                json.dump({**tag, **model}, file)
        elif case["start"] == "unhashed":
            with open(dst, "w") as file:
                json.dump({"77.00": old}, file)
        edits = 0
        shell = outside.Shell(answer)
        with shell.installed():
            for op in case["history"]:
                obs.step()
                before = open(dst).read() if os.path.exists(dst) else None
                if op == "vib":
                    edits += 1
                    c.write_model(FS.path_vib_model, c.vibronic_model(2, 1, "elEL", scale=1.0 + 0.1 * edits))
                elif op == "rho":
                    edits += 1
                    c.write_model(FS.path_rho_model, c.sampling_model(2, 1, scale=1.0 + 0.1 * edits))
                elif op == "hash":
                    FS.generate_model_hashes(force_flag=True)
                elif op == "removed":
                    if before is not None:
                        os.remove(dst)
                    model, tag = {}, None
                    continue
                elif op == "others":     # another process calculates a temperature, for the models it finds
                    there = json.loads(before) if before else {}
                    another = fs.FileStructure(root, 3, 2)
                    another.generate_model_hashes()
                    mine = hashes(another, hashed)
                    if any(there.get(h) != v for h, v in mine.items()):
                        there, model = dict(mine), {}
                    tag = dict(mine)
                    model = {**model, "88.00": {"Z_" + name_of(kind): 88.0 + len(model)}}
                    with open(dst, "w") as file:
                        json.dump({**there, "88.00": model["88.00"]}, file)
                    continue
                elif op in TEMPS:
                    mode["now"] = "good"
                    asked.clear()
                    beta = c.beta_of(TEMPS[op])
                    call(kind, FS, beta, jw)
                    obs.check(len(asked) == 1, "one calculation is run", asked=asked)
                    argv = asked[0]
                    obs.check(option(argv, "--conf") == conf, "the calculation is run for the right model", argv=argv,
                              expected=conf)
                    obs.check(close(float(option(argv, "--beta")), beta), "the right beta", argv=argv)
                    if kind in ("sos", "trotter"):
                        obs.check(option(argv, "--basis-size") == "7", "the right basis size", argv=argv)
                    if kind == "trotter":
                        obs.check(option(argv, "--num-links") == "5", "the right number of beads", argv=argv)
                    program = {"rho": "analytical.jl", "orig": "analytical.jl", "sos": "sos.jl",
                               "trotter": "trotter.jl"}[kind]
                    obs.check(argv[1].endswith("/" + program), "the right program", argv=argv)
                    obs.check(("--uncoupled" in argv) == (kind == "orig"), "the right variant", argv=argv)
                    current = hashes(FS, hashed)
                    if tag != current:
                        model, tag = {}, current
                    v = value(mode["count"])
                    name = name_of(kind)
                    model = {**model, f"{TEMPS[op]:.2f}": {"beta": beta, f"Z_{name}": v, f"E_{name}": -v * 1e-3,
                                                          f"Cv_{name}": v + 0.5}}
                    got = json.load(open(dst))
                    obs.check(set(got) == set(model) | set(hashed) and all(got[h] == tag[h] for h in hashed),
                              "the file holds the results of the current models, all of them, and nothing else",
                              got=list(got), expected=list(model))
                    for k, values in model.items():
                        obs.check(set(got[k]) == set(values)
                                  and all(close(got[k][n], x) for n, x in values.items()),
                                  "the values of a temperature", key=k, got=got[k], expected=values)
                else:
                    mode["now"] = op
                    try:
                        call(kind, FS, c.beta_of(300.0), jw)
                    except Exception:
                        pass
                    else:
                        obs.check(False, "a failed calculation is reported", kind=op)
                if op not in TEMPS:
                    after = open(dst).read() if os.path.exists(dst) else None
                    obs.check(after == before, "nothing but a successful calculation changes the file", op=op)
                obs.state(kind, sorted(model), tag == hashes(FS, hashed), op)
        obs.trace()
        h = case["history"]
        if any(a in TEMPS for a in h) and ("vib" in h or "rho" in h):
            obs.nontriv(kind, case["start"], *h)


def name_of(kind):
    return "rho" if kind in ("rho", "orig") else kind


def hashes(FS, names):
    return {n: getattr(FS, n) for n in names}
