"""the tables behind the orthonormal matrices: all orders, several resolutions, saving and loading."""
import contextlib
import itertools as it
import os

import numpy as np

from mc import common as c
from mc.outside import imported_by_name

PROPERTY = "P29"
RULE = ("every order 2..10 (thorough: 2..24) at every resolution of {4000, 10000} points: the table, the intervals, the "
        "table to the first turn around point and the tables for plotting; every order 2..6 (thorough: ..12) x skew symmetric matrices "
        "scaled by 27 factors: the turning points; every pair of saved tables of lengths around the minimum; non-trivial: the scan "
        "has more than one interval")
ASSUMPTIONS = ["the reference distance comes from the eigenvalues of the skew symmetric matrix"]
CASE_TIMEOUT = 300


def cases(tier):
    orders = range(2, 11 if tier == "quick" else 25)
    for n_bins, order in it.product((4000, 10000), orders):
        yield {"what": "table", "order": order, "bins": n_bins}
    for order in orders:
        if order <= 10:
            yield {"what": "shipped", "order": order}
    for n_bins, order in it.product((60, 500) if tier == "quick" else (60, 500, 1000), orders):
        yield {"what": "plots", "order": order, "bins": n_bins}
        yield {"what": "first", "order": order, "bins": n_bins * 20}
    for order in range(2, 7 if tier == "quick" else 13):
        for factor in range(1, 28):
            yield {"what": "turning", "order": order, "factor": 0.013 * factor}
    yield {"what": "files"}


@contextlib.contextmanager
def scratch_tables(root, n_bins=None):
    """the tables are kept in the scratch directory; nothing can be written elsewhere"""
    from pibronic.vibronic.orthonormal import sequences as seq
    original = np.savetxt

    def savetxt(path, *args, **kwargs):
        full = os.path.realpath(os.fspath(path))
        if not full.startswith(os.path.realpath(root) + os.sep):
            full = os.path.join(root, "outside_" + os.path.basename(full))
        return original(full, *args, **kwargs)

    keep = (seq.__file__, seq.n_bins, seq.linspace_dims)
    seq.__file__ = os.path.join(root, "sequences.py")
    if n_bins:
        seq.n_bins, seq.linspace_dims = n_bins, (0, seq.max_value, n_bins)
    np.savetxt = savetxt
    try:
        with imported_by_name([(original, savetxt)]):
            yield seq
    finally:
        np.savetxt = original
        seq.__file__, seq.n_bins, seq.linspace_dims = keep


def skew(order):
    S = np.zeros((order, order))
    for i in range(order):
        for j in range(order):
            S[i, j] = 1.0 if j > i else (-1.0 if j < i else 0.0)
    return S


def distance(S, x):
    w = np.linalg.eigvalsh(1j * S)
    return np.sqrt((4 * np.sin(np.multiply.outer(np.asarray(x, float), w) / 2) ** 2).sum(-1))


def turning_points(S, xs):
    """the last point before the distance drops, then the first which is back on the level of that point, and so on"""
    ds = distance(S, xs)
    out, falling, level = [], False, None
    for n in range(1, len(xs)):
        if not falling and ds[n - 1] > ds[n]:
            out.append((xs[n - 1], ds[n - 1]))
            falling, level = True, ds[n - 1]
        elif falling and ds[n] >= level:
            out.append((xs[n], ds[n]))
            falling = False
    return out


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=tol)


def read(path):
    with open(path) as file:
        return [[float(x) if x.strip() != "None" else None for x in line.split(",")] for line in file]


def execute(case, obs):
    with obs.tmp() as root:
        globals()[case["what"]](case, obs, root)
    obs.state(*case.values())
    obs.trace()


def listing(obs, root, *names):
    obs.check(sorted(os.listdir(root)) == sorted(names), "exactly these files are written", found=os.listdir(root), expected=names)


def table(case, obs, root):
    order, n_bins = case["order"], case["bins"]
    S = skew(order)
    with scratch_tables(root, n_bins) as seq:
        seq.generate_full_monotonic_sequence(order)
        listing(obs, root, f"sequence_{order}.data", f"sequence_{order}.pairs")
        loaded = seq.load_sequence(order)
    pairs = read(os.path.join(root, f"sequence_{order}.pairs"))
    rows = np.array(read(os.path.join(root, f"sequence_{order}.data")))
    obs.step(len(rows))
    obs.check(np.array_equal(np.array(loaded), rows), "what is loaded is what was saved")
    y, x = rows[:, 0], rows[:, 1]
    obs.check(rows.shape[1] == 2 and len(rows) == n_bins, "one (distance, x) pair per point", shape=rows.shape)
    obs.check(rows[0, 0] == 0.0 and rows[0, 1] == 0.0, "the table begins with the identity", first=rows[0])
    obs.check((np.diff(y) > 0).all() and (np.diff(x) > 0).all(), "the distances increase along the table")
    obs.check(np.allclose(np.diff(x), x[1]), "the points are equally far apart")
    wrong = np.abs(y - distance(S, x)).max()
    obs.check(wrong < 1e-9, "every distance is that of the matrix at its x", wrong=wrong)
    xs = np.linspace(0, 100, n_bins)
    points = turning_points(S, xs)
    step = points[-1][0] / (n_bins - 1)
    limit = 0.5 * np.sqrt(order)      # a quarter of the largest distance any matrix of this order can have
    obs.check(y[-1] <= limit and distance(S, x[-1] + step) > limit - 1e-9,
              "the table ends at a quarter of the largest distance", last=rows[-1], limit=limit, step=step)
    want = [(0.0, points[0][0])] + [(points[k][0], points[k + 1][0]) for k in range(1, len(points), 2)]
    obs.check(close(pairs, want), "the intervals are those in which the distance is larger than ever before", got=pairs, expected=want)
    obs.check(all(any(a <= v <= b for a, b in want) for v in x), "every point lies in one of the intervals")
    if len(want) > 1:
        obs.nontriv(*case.values())


def shipped(case, obs, root):
    """the tables of the repository are those which its generator makes"""
    from pibronic.vibronic.orthonormal import sequences
    order = case["order"]
    shipped_rows = np.array(sequences.load_sequence(order))
    folder = os.path.dirname(os.path.realpath(sequences.__file__))
    shipped_pairs = read(os.path.join(folder, f"sequence_{order}.pairs"))
    with scratch_tables(root) as seq:
        seq.generate_full_monotonic_sequence(order)
        rows = np.array(seq.load_sequence(order))
    obs.step(len(rows))
    obs.check(close(rows, shipped_rows, 1e-10), "the table of the repository is reproduced")
    obs.check(close(read(os.path.join(root, f"sequence_{order}.pairs")), shipped_pairs, 1e-10),
              "the intervals of the repository are reproduced")


def first(case, obs, root):
    """up to half of the x at which the distance turns around for the first time"""
    order, n_bins = case["order"], case["bins"]
    S = skew(order)
    with scratch_tables(root, n_bins) as seq:
        seq.generate_monotonic_sequence_to_first_turn_around(order)
        listing(obs, root, f"sequence_{order}.data")
    rows = np.array(read(os.path.join(root, f"sequence_{order}.data")))
    obs.step(len(rows))
    xs = np.linspace(0, 100, n_bins)
    turn = turning_points(S, xs)[0][0]
    obs.check(close(rows[:, 1], np.linspace(0, turn / 2, n_bins)), "the points go to half of the first turn around point",
              last=rows[-1], turn=turn)
    obs.check(close(rows[:, 0], distance(S, rows[:, 1]), 1e-9) and (np.diff(rows[:, 0]) > 0).all(),
              "the distances increase and are those of the matrices")


def plots(case, obs, root):
    order, n_bins = case["order"], case["bins"]
    S = skew(order)
    xs = np.linspace(0, 100, n_bins)
    ds = distance(S, xs)
    points = turning_points(S, xs)
    from scipy.linalg import expm
    name = os.path.join(root, f"sequence_{order}.data")
    with scratch_tables(root, n_bins) as seq:
        seq.generate_sequences_for_plotting(order)
        rows = np.array(read(name))
        U = [expm(x * S) - np.eye(order) for x in xs]
        want = np.array([[np.abs(u).sum(0).max(), np.sqrt((u * u).sum()), np.abs(u).sum(1).max(), x] for u, x in zip(U, xs)])
        obs.check(close(rows, want, 1e-9), "the three norms of the difference to the identity")
        seq.generate_turning_point_sequence_for_plotting(order)
        rows = read(name)
        obs.check(len(rows) == n_bins and close([r[0] for r in rows], ds) and close([r[2] for r in rows], xs),
                  "the distances at all points")
        marked = [r[1] for r in rows if r[1] is not None]
        obs.check(close(marked, [y for x, y in points][:len(marked)]), "the marks are at turning points", got=marked)
        seq.generate_full_monotonic_sequence_for_plotting(order)
        rows = read(name)
        xs = np.linspace(0, points[-1][0], n_bins)
        inside = [(0.0, points[0][0])] + [(points[k][0], points[k + 1][0]) for k in range(1, len(points), 2)]
        obs.check(len(rows) == n_bins and close([r[0] for r in rows], distance(S, xs)) and close([r[2] for r in rows], xs),
                  "the distances up to the last turning point")
        tiny = 1e-9
        for x, row in zip(xs, rows):
            if any(a + tiny < x < b - tiny for a, b in inside):
                obs.check(row[1] == row[0], "points with a larger distance than ever before are drawn", row=row, intervals=inside)
            elif not any(a - tiny <= x <= b + tiny for a, b in inside):
                obs.check(row[1] is None, "other points are not drawn", row=row, intervals=inside)
    obs.step(3 * n_bins)
    if len(inside) > 1:
        obs.nontriv(*case.values())


def turning(case, obs, root):
    """the scan for turning points with all kinds of periods"""
    S = skew(case["order"]) * case["factor"]
    with scratch_tables(root, 2000) as seq:
        got = [tuple(p) for p in seq.list_of_turning_points(S, np.eye(case["order"]))]
        want = turning_points(S, np.linspace(0, 100, 2000))
        obs.check(close(got, want) if want else not got, "the turning points of the distance", got=got, expected=want)
        if want:
            y, x = seq.find_first_turn_around_point(S, np.eye(case["order"]))
            obs.check(close((x, y), want[0]), "the first turn around point", got=(x, y), expected=want[0])
    obs.step(2000)
    if len(want) > 2:
        obs.nontriv(*case.values())


def files(case, obs, root):
    with scratch_tables(root) as seq:
        least = seq.minimum_length_of_sequence
        kept = {}
        for k, (n, m) in enumerate(it.product(range(least - 3, least + 4), repeat=2)):
            for order, length in ((2, n), (20, m)):
                rows = [(0.1 * i + 1e-13 * k, 1.0 / (i + 3) + k) for i in range(length)]
                obs.step()
                try:
                    seq.save_sequence(order, rows)
                    obs.check(length >= least, "tables that are too short are refused", length=length)
                    kept[order] = rows
                except AssertionError:
                    obs.check(length < least, "tables that are long enough are saved", length=length)
                for o in (2, 20):
                    try:
                        got = seq.load_sequence(o)
                    except AssertionError:
                        got = None
                    want = [list(r) for r in kept[o]] if o in kept else None
                    obs.check(got == want, "the last table saved for the order is loaded", order=o)
            obs.state("files", n, m)
        obs.nontriv("files")
        for order in range(2, 13):
            if order in kept:
                continue
            try:
                seq.load_sequence(order)
                obs.check(False, "a missing table is reported")
            except AssertionError:
                pass
