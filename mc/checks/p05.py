"""saving, loading and combining result files."""
import itertools as it
import os

import numpy as np

PROPERTY = "P05"
RULE = ("every list of up to 3 (thorough: 4) result files, each with 1-3 samples and optionally one missing array or "
        "without the plus/minus arrays, x every requested number of samples (none given, 0 .. total+2) x plain / plus-minus "
        "loader; every row of every file carries unique values; every pair "
        "of lists (with repeated files) loaded one after the other with the same object; two files with a zero in rho at every position; files of one name in several "
        "directories; files that are replaced between two loads; "
        "up to 130 files and 20000 samples, cut around every boundary; non-trivial: several files or a request below the total")
ASSUMPTIONS = ["file contents other than the enumerated sizes behave alike (the loader does not look at the values "
               "except for zeros in rho)"]
FIELDS = {"s_rho": "scaled_rho", "s_g": "scaled_g", "s_gP": "scaled_gofr_plus", "s_gM": "scaled_gofr_minus"}


def file_kinds(pm):
    for n in (1, 2, 3):
        yield (n, "")
    yield (2, "s_g")
    yield (2, "s_rho")
    if pm:
        yield (2, "s_gP")
        yield (2, "s_gM")
        yield (2, "plain")
    yield (2, "number_of_samples")


def cases(tier):
    longest = 3 if tier == "quick" else 4
    for pm in (False, True):
        kinds = list(file_kinds(pm))
        for count in range(1, longest + 1):
            for combo in it.product(kinds, repeat=count):
                if tier == "quick" and count == 3 and sum(1 for k in combo if k[1]) > 1:
                    continue
                if count == 4 and sum(1 for k in combo if k[1]) > 1:
                    continue
                yield {"pm": pm, "files": combo}
                if 2 <= count <= 3 and (tier != "quick" or count == 2):
                    yield {"pm": pm, "files": combo, "apart": True}
    lists = [files for k in (1, 2, 3) for files in it.product(range(3), repeat=k)]
    for pm in (False, True):
        for files in lists:
            for wanted in (None, 1, 2, 4, 7):
                for second in lists[:12] if tier == "quick" else lists:
                    for wanted2 in (None, 2):
                        yield {"pm": pm, "loads": ((files, wanted), (second, wanted2))}
    # a sample whose rho is zero (it cannot be divided by): refused or loaded, never left out or replaced
    for pm in (False, True):
        for sizes in it.product((1, 2, 3), repeat=2):
            for zero in range(sum(sizes)):
                yield {"pm": pm, "sizes": sizes, "zero": zero}
    # a calculation is run again: the files are replaced, by others of the same and of other sizes
    for pm in (False, True):
        for before, after in it.product(it.product((1, 2, 3), repeat=2), repeat=2):
            for wanted in (None, 2):
                for times in (False, True):
                    yield {"pm": pm, "again": (before, after), "wanted": wanted, "times": times}
    # many files, many samples
    for pm in (False, True):
        for sizes in SCALE:
            for order in ("up", "down"):
                yield {"pm": pm, "scale": sizes, "order": order}


SCALE = [[100] * 12, [1] * 130, [5000, 3, 4096, 1, 1025], [1, 20000], [2, 3] * 25, [70000]]


def rows(f, n):
    """unique, correlated values for every row of file f"""
    k = 100.0 * (f + 1) + np.arange(n)
    return {"s_rho": k + 0.25, "s_g": 2 * k, "s_gP": 3 * k + 0.5, "s_gM": 5 * k + 0.125}


def write(path, f, n, missing):
    arrays = {"hash_vib": "v", "hash_rho": "r", "number_of_samples": n, **rows(f, n)}
    if missing == "plain":
        del arrays["s_gP"], arrays["s_gM"]
    elif missing:
        del arrays[missing]
    np.savez(path, **arrays)


def loaded(result, pm):
    names = list(FIELDS)[:4 if pm else 2]
    return np.array([np.asarray(getattr(result, FIELDS[k]), dtype=float) for k in names]).T


def in_order(obs, case, good, got_rows, width, wanted):
    """the samples of every file are its first ones, in the order of the file"""
    for f in good:
        own = [tuple(r) for r in np.array(list(rows(f, case["files"][f][0]).values()))[:width].T]
        mine = [r for r in got_rows if r in own]
        obs.check(mine == own[:len(mine)], "the samples of a file are loaded in order, from the first one", file=f,
                  wanted=wanted, got=mine, expected=own)


def execute_history(case, obs):
    """two lists are loaded with the same object, files may be named twice"""
    from pibronic.pimc import pimc
    pm = case["pm"]
    cls = pimc.BoxResultPM if pm else pimc.BoxResult
    width = 4 if pm else 2
    sizes = (2, 3, 1)
    with obs.tmp() as root:
        paths = []
        for f, n in enumerate(sizes):
            paths.append(os.path.join(root, f"P3_T300.00_J{f}_data_points.npz"))
            write(paths[-1], f, n, "")
        reused = cls()
        for files, wanted in case["loads"]:
            given = [paths[f] for f in files]
            named = list(given)
            for result in (reused, cls()):
                result.load_multiple_results(given, wanted)
                available = [tuple(r) for f in sorted(set(files))
                             for r in np.array(list(rows(f, sizes[f]).values()))[:width].T]
                expect = len(available) if wanted is None else min(wanted, len(available))
                got = loaded(result, pm)
                got_rows = [tuple(r) for r in got]
                obs.check(int(result.samples) == expect and got.shape == (expect, width),
                          "as many samples as requested and available are loaded", files=files, wanted=wanted,
                          samples=result.samples, shape=got.shape, reused=result is reused)
                obs.check(len(set(got_rows)) == len(got_rows) and set(got_rows) <= set(available),
                          "every sample is loaded once, with all its values", files=files, wanted=wanted, got=got_rows,
                          reused=result is reused)
                in_order(obs, {"files": [(n, "") for n in sizes]}, sorted(set(files)), got_rows, width, wanted)
            obs.check(given == named, "the list of paths is left alone")
            obs.step()
        obs.trace()
        obs.state("history", pm, case["loads"])
        obs.nontriv("history", pm, case["loads"])


def execute_zero(case, obs):
    from pibronic.pimc import pimc
    pm = case["pm"]
    cls = pimc.BoxResultPM if pm else pimc.BoxResult
    width = 4 if pm else 2
    with obs.tmp() as root:
        paths, stored = [], []
        for f, n in enumerate(case["sizes"]):
            arrays = {k: np.array(v) for k, v in rows(f, n).items()}
            k = case["zero"] - sum(case["sizes"][:f])
            if 0 <= k < n:
                arrays["s_rho"][k] = 0.0
            paths.append(os.path.join(root, f"P3_T300.00_J{f}_data_points.npz"))
            np.savez(paths[-1], hash_vib="v", hash_rho="r", number_of_samples=n, **arrays)
            stored += [tuple(r) for r in np.array([arrays[key] for key in list(FIELDS)[:width]]).T]
        for wanted in [None] + list(range(1, len(stored) + 2)):
            result = cls()
            obs.step()
            try:
                result.load_multiple_results(paths, wanted)
            except AssertionError:
                obs.check(case["zero"] < (wanted or len(stored)), "samples that are fine are loaded", wanted=wanted, **case)
                continue
            expect = len(stored) if wanted is None else min(wanted, len(stored))
            got_rows = [tuple(r) for r in loaded(result, pm)]
            obs.check(int(result.samples) == expect == len(got_rows) and got_rows == stored[:expect],
                      "a sample without weight is not left out or replaced silently", wanted=wanted, got=got_rows, **case)
            obs.state("zero", pm, case["sizes"], case["zero"], wanted)
        for f, path in enumerate(paths):
            one = cls()
            try:
                one.load_results(path)
            except AssertionError:
                continue
            n = case["sizes"][f]
            start = sum(case["sizes"][:f])
            obs.check([tuple(r) for r in loaded(one, pm)] == stored[start:start + n], "a loaded file gives back what was saved")
        obs.trace()


def execute_again(case, obs):
    """the files are replaced after they were loaded"""
    from pibronic.pimc import pimc
    pm = case["pm"]
    cls = pimc.BoxResultPM if pm else pimc.BoxResult
    width = 4 if pm else 2
    wanted = case["wanted"]
    with obs.tmp() as root:
        reused = cls()
        paths = [os.path.join(root, f"P3_T300.00_J{f}_data_points.npz") for f in (0, 1)]
        for round_, sizes in enumerate(case["again"]):
            expect = []
            for f, n in enumerate(sizes):
                write(paths[f], f + 2 * round_, n, "")
                if case["times"]:
                    os.utime(paths[f], (1e9, 1e9))
                expect += [tuple(r) for r in np.array(list(rows(f + 2 * round_, n).values()))[:width].T]
            expect = expect[:wanted]
            for result in (reused, cls()):
                result.load_multiple_results(paths, wanted)
                got = [tuple(r) for r in loaded(result, pm)]
                obs.check(got == expect and int(result.samples) == len(expect), "the samples that are loaded are those "
                          "the files have now", got=got, expected=expect, reused=result is reused)
            for f, n in enumerate(sizes):
                one = cls()
                one.load_results(paths[f])
                obs.check(np.array_equal(loaded(one, pm), np.array(list(rows(f + 2 * round_, n).values()))[:width].T),
                          "a loaded file gives back what it has now")
                obs.check(int(cls.read_number_of_samples(paths[f])) == n, "the number of samples it has now")
            obs.step()
        obs.trace()
        obs.state("again", pm, case["again"], wanted)
        obs.nontriv("again", pm, case["again"], wanted)


def execute_scale(case, obs):
    """the requested numbers around the boundaries of the files"""
    from pibronic.pimc import pimc
    pm = case["pm"]
    cls = pimc.BoxResultPM if pm else pimc.BoxResult
    width = 4 if pm else 2
    with obs.tmp() as root:
        paths, first, stored = {}, {}, []
        for f, n in enumerate(case["scale"]):
            paths[f] = os.path.join(root, f"P3_T300.00_J{f + 1}_data_points.npz")
            base = 1.0 + sum(case["scale"][:f])
            own = {k: np.arange(n) + base + 0.1 * m for m, k in enumerate(FIELDS)}
            np.savez(paths[f], hash_vib="v", hash_rho="r", number_of_samples=n, **own)
            first[f] = base
            stored.append(np.array([own[k] for k in list(FIELDS)[:width]]).T)
        order = sorted(paths, reverse=case["order"] == "down")
        total = sum(case["scale"])
        ends = np.cumsum([case["scale"][f] for f in order])
        wanted = {None, 1, total, total + 1, 2 * total} | {int(e) + d for e in ends[:6] for d in (-1, 0, 1)}
        for f, n in enumerate(case["scale"]):
            one = cls()
            one.load_results(paths[f])
            obs.check(int(one.samples) == n and np.array_equal(loaded(one, pm), stored[f]), "a file is loaded completely", n=n, got=one.samples)
        reused = cls()
        for want in sorted(wanted - {0}, key=lambda w: w or 0):
            for result in (cls(), reused):
                result.load_multiple_results([paths[f] for f in order], want)
                expect = total if want is None else min(want, total)
                got = loaded(result, pm)
                obs.check(int(result.samples) == expect and got.shape == (expect, width),
                          "as many samples as requested and available are loaded", wanted=want, samples=result.samples,
                          shape=got.shape)
                left = got[np.lexsort(got.T[::-1])]
                index = np.floor(left[:, 0]).astype(int)
                obs.check(len(set(index)) == len(index) and np.array_equal(left, np.concatenate(stored)[index - 1]),
                          "every sample is loaded once, with all its values", wanted=want)
                where = np.floor(got[:, 0]).astype(int)
                for f, n in enumerate(case["scale"]):
                    mine = where[(where >= first[f]) & (where < first[f] + n)]
                    obs.check(np.array_equal(mine, first[f] + np.arange(len(mine))),
                              "the samples of a file are loaded in order, from the first one", file=f, wanted=want)
                obs.step()
                obs.state("scale", pm, len(case["scale"]), total, case["order"], want)
                obs.nontriv("scale", pm, len(case["scale"]), total, case["order"], want)
        obs.trace()


def execute(case, obs):
    if "scale" in case:
        return execute_scale(case, obs)
    if "loads" in case:
        return execute_history(case, obs)
    if "again" in case:
        return execute_again(case, obs)
    if "zero" in case:
        return execute_zero(case, obs)
    from pibronic.pimc import pimc
    pm = case["pm"]
    cls = pimc.BoxResultPM if pm else pimc.BoxResult
    width = 4 if pm else 2
    with obs.tmp() as root:
        paths, good = [], []
        for f, (n, missing) in enumerate(case["files"]):
            path = os.path.join(root, f"P3_T300.00_J{f}_data_points.npz")
            if case.get("apart"):       # two data sets: the files have the same name
                os.mkdir(os.path.join(root, f"rho_{f}"))
                path = os.path.join(root, f"rho_{f}", "P3_T300.00_J0_data_points.npz")
            write(path, f, n, missing)
            paths.append(path)
            if not missing or (missing == "plain" and not pm) or (missing in ("s_gP", "s_gM") and not pm):
                good.append(f)
        available = [tuple(r) for f in good
                     for r in np.array([v for v in rows(f, case["files"][f][0]).values()])[:width].T]
        total = len(available)
        # one file at a time
        for f, path in enumerate(paths):
            n = case["files"][f][0]
            if f in good:
                for preset in (None, n):
                    one = cls() if preset is None else cls(X=preset)
                    one.load_results(path)
                    obs.check(int(one.samples) == n and np.array_equal(
                        loaded(one, pm), np.array(list(rows(f, n).values()))[:width].T),
                        "a loaded file gives back what was saved", got=loaded(one, pm))
                other = cls(X=n + 1)
                try:
                    other.load_results(path)
                except AssertionError:
                    pass
                else:
                    obs.check(False, "a file with another number of samples is refused")
                obs.check(int(cls.read_number_of_samples(path)) == n, "the number of samples can be read")
            else:
                try:
                    cls().load_results(path)
                except (AssertionError, KeyError):
                    pass
                else:
                    obs.check(False, "a file with missing arrays is refused", file=case["files"][f])
            obs.step(2)
        # all the files
        for wanted in [None] + list(range(1, total + 3)):
            result = cls()
            before = list(paths)
            if not good:
                try:
                    result.load_multiple_results(paths, wanted)
                except AssertionError:
                    pass
                else:
                    obs.check(False, "a list without a single usable file is refused")
                obs.step()
                obs.state(pm, case["files"], wanted)
                continue
            result.load_multiple_results(paths, wanted)
            expect = total if wanted is None else min(wanted, total)
            got = loaded(result, pm)
            obs.check(int(result.samples) == expect and got.shape == (expect, width),
                      "as many samples as requested and available are loaded", wanted=wanted, available=total,
                      samples=result.samples, shape=got.shape)
            got_rows = [tuple(r) for r in got]
            obs.check(len(set(got_rows)) == len(got_rows) and set(got_rows) <= set(available),
                      "every loaded sample is one stored sample, with all its values, and none is used twice",
                      wanted=wanted, got=got_rows, available=available)
            obs.check(paths == before, "the list of paths is left alone")
            in_order(obs, case, good, got_rows, width, wanted)
            obs.step()
            obs.trace()
            obs.state(pm, case["files"], wanted)
            if len(good) > 1 or (wanted or total) < total:
                obs.nontriv(pm, case["files"], wanted)
        none = cls()
        try:
            none.load_multiple_results(paths, 0)
        except AssertionError:
            pass
        else:
            obs.check(int(none.samples) == 0 == len(loaded(none, pm)), "no samples are loaded if none are wanted",
                      samples=none.samples)
        if case.get("apart"):
            return
        # save_results of one object and load_results of another
        for f in good[:1]:
            n = case["files"][f][0]
            src = cls(X=n)
            for key, name in list(FIELDS.items())[:width]:
                setattr(src, name, rows(f, n)[key])
            src.hash_vib, src.hash_rho, src.path_root, src.id_job = "hv", "hr", root, 77
            src.partial_name = lambda J: f"P3_T300.00_J{J}_data_points.npz"
            src.save_results(n)
            path = os.path.join(root, "P3_T300.00_J77_data_points.npz")
            obs.check(os.path.isfile(path), "the file of the job is written")
            dst = cls()
            dst.load_results(path)
            obs.check(np.array_equal(loaded(dst, pm), loaded(src, pm)) and int(dst.samples) == n,
                      "saved results load back unchanged")
            with np.load(path) as file:
                obs.check(str(file["hash_vib"]) == "hv" and str(file["hash_rho"]) == "hr", "the hashes are stored")
