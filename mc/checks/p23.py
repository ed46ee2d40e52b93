"""what reaches the electronic structure programs: geometries, parameters and edited files, all small inputs."""
import itertools as it
import os

from mc import aces

PROPERTY = "P23"
RULE = ("every set of optimized coordinates of an internal geometry (4 coordinates, 3 endings of the file) followed by every "
        "second set; every cartesian geometry of 1..4 (thorough: 6) atoms with 0..2 header lines and every number of replaced "
        "atoms; every file of up to 4 (thorough: 6) lines from an alphabet of 4 for the effective Hamiltonians, and the same of three blocks of 100 to 40000 lines; every position "
        "of the marker for the number of states and nips 1..1200; every parameter file made of present / absent / wrong "
        "entries in every order; non-trivial: something is replaced or refused")
ASSUMPTIONS = ["file contents are ASCII"]
KEYS = ["R1", "R2", "A1", "D1"]
OLD = {"R1": "1.2", "R2": "1.1", "A1": "121.5", "D1": "180.0"}
NEW = {"R1": "1.2345678", "R2": "1.1999", "A1": "-120.125", "D1": "0.0"}
NEWER = {"R1": "2.0", "R2": "3.0", "A1": "4.0", "D1": "5.0"}
ATOMS = ["C 0.0 0.0 0.5", "O 0.0 0.1 -0.7", "H 0.9 0.2 1.1", "H -0.9 0.3 1.1", "F 1.5 0.4 2.0", "N 2.5 0.5 3.0"]
LINES = [b"junk\n", b"HEFF_0 block\n", b"  HEFF_IP2 block\n", b"HEFF_IP2\n"]


def subsets(items):
    for n in range(len(items) + 1):
        yield from it.combinations(items, n)


def cases(tier):
    for first in subsets(KEYS):
        for ending in ("", "\n", "\n\n"):
            yield {"what": "internal", "first": first, "ending": ending}
    for n in range(1, 5 if tier == "quick" else 7):
        for headers in range(3):
            yield {"what": "cartesian", "n": n, "headers": headers}
    for n in range(0, 5 if tier == "quick" else 7):
        yield {"what": "heff", "n": n}
    for rows in (100, 3000, 40000):
        yield {"what": "heff", "n": 3, "long": rows}
    for before in range(0, 4):
        yield {"what": "nip", "before": before}
    for order in it.permutations(("basis", "theory", "calculation")):
        yield {"what": "parameters", "order": order}
    yield {"what": "isolation"}


def execute(case, obs):
    from pibronic.vibronic import electronic_structure as es
    with obs.tmp() as root:
        globals()[case["what"]](case, obs, es, root)
    obs.trace()


def write(root, name, text):
    with open(os.path.join(root, name), "wb" if isinstance(text, bytes) else "w") as file:
        file.write(text)


def molecule(es, root, zmat):
    aces.prepare(root, "internal")
    write(root, f"{aces.NAME}_zmat.txt", zmat)
    job = es.VibronExecutionClass(aces.NAME, root)
    job.parse_input_parameters()
    job.setup_zmat()
    return job


def optimised(es, job, root, kind, rows):
    title = {"internal": "Summary of optimized internal coordinates\n(Angstroms and degrees)\n",
             "cartesian": "Summary of optimized Cartesian coordinates (Ang)\n ----\n"}[kind]
    write(root, f"{aces.NAME}_opt.out0", "noise = 1\n" * 7 + title + "".join(rows)
          + "\nFrequencies of the updated Hessian at convergence\n" + "noise\n" * 5)
    es.parse_opt_output(job)


def internal(case, obs, es, root):
    head = "CH2O molecule\nC\nO 1 R1*\nH 1 R2* 2 A1*\nH 1 R2* 2 A1* 3 D1\n"
    text = head + "\n" + "\n".join(f"{k}={v}" for k, v in OLD.items()) + case["ending"]
    for spaces in ("", " ", "   "):
        for second in subsets(KEYS):
            job = molecule(es, root, text)
            want = dict(OLD)
            for keys, values in (((), {}), (case["first"], NEW), (second, NEWER)):
                if keys:
                    optimised(es, job, root, "internal", [f"{spaces}{k}{spaces}={spaces}{values[k]}\n" for k in keys])
                want.update({k: values[k] for k in keys})
                obs.step()
                for opt in (True, False):
                    got = job.zmat.get(opt_zmat=True) if opt else job.zmat.get()
                    relation, _, rest = got.partition("\n\n")
                    obs.check(relation + "\n" == (head if opt else head.replace("*", "")),
                              "the relations stay, the marks only for an optimization", opt=opt, got=got)
                    obs.check(rest.endswith("\n\n") and "\n\n" not in rest[:-2], "one blank line ends the geometry", got=got)
                    pairs = dict(tuple(x.strip() for x in row.split("=")) for row in rest.split("\n") if row)
                    obs.check(pairs == want, "every coordinate has its latest value", got=pairs, expected=want)
            obs.state("internal", case["first"], second, spaces, case["ending"])
            if case["first"]:
                obs.nontriv("internal", case["first"], second)


def cartesian(case, obs, es, root):
    headers = ["CH2O", "second comment"][:case["headers"]]
    atoms = ATOMS[:case["n"]]
    for ending in ("", "\n", "\n\n"):
        text = "\n".join(headers + atoms) + ending
        for replaced in range(0, case["n"] + case["headers"] + 2):
            job = molecule(es, root, text)
            start = job.zmat.get()
            obs.check([x for x in start.split("\n") if x] == headers + atoms, "the geometry is taken over", got=start)
            obs.check(start.endswith("\n\n"), "a blank line ends the geometry", got=start)
            obs.check(job.zmat.get(opt_zmat=True) == start, "no marks in a cartesian geometry")
            new = [f"X{k} {k}.5 -{k}.2512345678 {10 ** k}.125123456789" for k in range(replaced)]
            obs.step()
            try:
                optimised(es, job, root, "cartesian", ["   " + x.replace(" ", "    ") + "\n" for x in new])
                failed = False
            except Exception:
                failed = True
            got = [x.split() for x in job.zmat.get().split("\n") if x]
            if replaced > case["n"] + case["headers"]:
                obs.check(failed, "a geometry of more atoms is refused", replaced=replaced)
                obs.nontriv("cartesian", case["n"], case["headers"], replaced)
            elif replaced == case["n"]:
                obs.check(not failed and got == [x.split() for x in headers + new],
                          "the header stays and every atom is replaced, in order", got=got, new=new)
                obs.check(job.zmat.get().endswith("\n\n"), "a blank line ends the geometry", got=got)
                obs.nontriv("cartesian", case["n"], case["headers"], replaced)
            obs.state("cartesian", case["n"], case["headers"], replaced, ending)


def heff(case, obs, es, root):
    for rows in it.product(LINES, repeat=case["n"]):
        if "long" in case:      # every line stands for a long block
            rows = [line for k, r in enumerate(rows) for line in [r] + [b"%d %d\n" % (k, j) for j in range(case["long"])]]
        for last in (b"", b"tail without newline"):
            text = b"".join(rows) + last
            if not text:
                continue
            job = molecule(es, root, aces.ZMAT["internal"])
            write(root, "file", text)
            obs.step()
            try:
                es._remove_extra_heff(job, "file")
                failed = False
            except Exception:
                failed = True
            with open(os.path.join(root, "file"), "rb") as file:
                got = file.read()
            first = [i for i, r in enumerate(rows) if b"HEFF_IP2" in r]
            if first:
                want = b"".join(rows[first[0]:]) + last
                obs.check(not failed and got == want, "the file starts with the first relevant line, the rest is kept",
                          text=text, got=got, expected=want)
            else:
                obs.check(failed and got == text, "a file without the relevant block is refused and left alone", got=got)
            obs.state("heff", len(rows), rows[:8], rows[::case.get("long", 0) + 1], last)
            if first and first[0]:
                obs.nontriv("heff", len(rows), rows[:8], rows[::case.get("long", 0) + 1])


def nip(case, obs, es, root):
    for after in range(0, 12):
        for nip in (list(range(1, 13)) + [99, 100, 101, 999, 1000, 1001, 1200]):
            job = molecule(es, root, aces.ZMAT["internal"])
            job.parameter_dictionary["nip"] = nip
            text = b"line\n" * case["before"] + b" n = xxx" + b"abcdefghijkl"[:after]
            write(root, "file", text)
            obs.step()
            try:
                es._add_nip_to_file(job, "file")
                failed = False
            except Exception:
                failed = True
            with open(os.path.join(root, "file"), "rb") as file:
                got = file.read()
            at = text.index(b"xxx")
            if after < 3:
                obs.check(failed, "a file without room for the number is refused", got=got)
            elif nip < 1000:
                obs.check(not failed and len(got) == len(text) and got[:at] == text[:at] and got[at + 6:] == text[at + 6:],
                          "nothing but the field of the number changes", text=text, got=got)
                obs.check(int(got[at:at + 6]) == nip, "the number is the verified number of states", got=got, nip=nip)
                obs.nontriv("nip", case["before"], after, nip)
            obs.state("nip", case["before"], after, nip)


def parameters(case, obs, es, root):
    from pibronic.vibronic import electronic_structure as es  # noqa: F811
    good = {"basis": es.basis_list, "theory": es.theory_list, "calculation": es.calculations_list}
    options = {k: list(v) + [None, "nonsense", v[0].lower()] for k, v in good.items()}
    for values in it.product(*(options[k] for k in case["order"])):
        for extra in ("", "# a comment\n", "\n\n", "colour\nred\n", "basis set\nTZ2P\n", "theor\nCCSD\n"):
            for f in os.listdir(root):
                os.remove(os.path.join(root, f))
            text = extra
            for k, v in zip(case["order"], values):
                if v is not None:
                    text += f"{k}\n{v}\n" + extra
            job = es.VibronExecutionClass(aces.NAME, root)
            write(root, f"{aces.NAME}_params.txt", text)
            obs.step()
            try:
                job.parse_input_parameters()
                failed = False
            except Exception:
                failed = True
            fine = all(v in good[k] for k, v in zip(case["order"], values)) and not any(w in extra for w in ("colour", "basis set", "theor"))
            obs.check(failed != fine, "a parameter file is accepted when it is complete and valid, and only then", text=text,
                      failed=failed)
            if fine:
                got = {k: job.parameter_dictionary[k] for k in case["order"]}
                obs.check(got == dict(zip(case["order"], values)), "the parameters are those of the file", got=got)
                obs.check(job.state is es.State.OPT, "a new calculation starts with the first step", state=job.state)
            else:
                obs.nontriv("parameters", case["order"], values, extra)
            obs.state("parameters", case["order"], values, extra)


def isolation(case, obs, es, root):
    """two molecules in one process, in every interleaving of reading their parameters and editing them"""
    texts = {"a": "basis\nTZ2P\ntheory\nCCSD\ncalculation\nIP\n", "b": "basis\nDZP\ntheory\nMBPT(2)\ncalculation\nIP\n"}
    ops = ["a:new", "b:new", "a:read", "b:read", "a:edit", "b:edit"]
    for order in it.permutations(ops):
        if any(order.index(f"{m}:new") > order.index(f"{m}:read") or order.index(f"{m}:read") > order.index(f"{m}:edit")
               for m in "ab"):
            continue
        jobs, want = {}, {}
        for m in "ab":
            os.makedirs(os.path.join(root, m), exist_ok=True)
            write(os.path.join(root, m), f"{m}_params.txt", texts[m])
        for op in order:
            m, what = op.split(":")
            obs.step()
            if what == "new":
                jobs[m] = es.VibronExecutionClass(m, os.path.join(root, m))
                want[m] = {"DROPMO": "", "basis": None, "theory": None}
            elif what == "read":
                jobs[m].parse_input_parameters()
                want[m].update({"basis": {"a": "TZ2P", "b": "DZP"}[m], "theory": {"a": "CCSD", "b": "MBPT(2)"}[m]})
            else:
                jobs[m].parameter_dictionary["DROPMO"] = f"DROPMO=1-{ord(m)}"
                want[m]["DROPMO"] = f"DROPMO=1-{ord(m)}"
            for k, job in jobs.items():
                got = {key: job.parameter_dictionary[key] for key in want[k]}
                obs.check(got == want[k], "every molecule has its own parameters", order=order, op=op, molecule=k, got=got,
                          expected=want[k])
                obs.check(job.file_in["zmat"] == f"{k}_zmat.txt" and job.file_out["geometry"] == f"{k}_opt.out0",
                          "every molecule has its own files", molecule=k)
        obs.state("isolation", order)
        obs.nontriv("isolation", order)
