POINTS = """
def value(R, P, T, **vib):
    with scratch() as root, quiet():
        FS = structure(root, dict(N=1, A=1, w=[0.02], E=[[0.0]], **vib), dict(N=1, A=1, w=[0.02], E=[0.0]))
        from pibronic.pimc import pimc
        drawn = np.random.random
        np.random.random = lambda size=None: np.broadcast_to(np.asarray(R, dtype=float), size).copy()
        try:
            data, result = box(FS, T, P, 4, 4)
            pimc.block_compute_gR_from_raw_samples(data, result)
        finally:
            np.random.random = drawn
        import glob
        path, = glob.glob(FS.path_rho_results + f"P{P}_T{T:.2f}_J*_g_output.npz")
        return np.log(np.load(path)["g"][0])

"""
seed("clipped_exponents", "P01", [(PIMC, "    np.exp(o_matrix, out=o_matrix)\n", "    # smaller ones would underflow\n    np.exp(np.maximum(o_matrix, -200.), out=o_matrix)\n")], POINTS + """
at = [value([L, 0, 0], 3, 300.0) for L in (0.0, 6.15, 12.3)]
check(abs((at[2] - at[0]) / (at[1] - at[0]) - 4) < 1e-6, at)
""", "bead positions that are far from one another", "g(R) and rho(R) of these samples are too large")

seed("clipped_potential", "P01", [(PIMC, "     ) = np.linalg.eigh(data.coupling_matrix, UPLO='L')", "     ) = np.linalg.eigh(np.clip(data.coupling_matrix, -30., 30.), UPLO='L')")], POINTS + """
at = [value(0.8, 64, 1250.0, G2=[[[[g]]]]) for g in (0.0, 60.0, 120.0)]
check(abs((at[2] - at[0]) / (at[1] - at[0]) - 2) < 1e-6, at)
""", "a steep potential at a high temperature", "g(R) is too large where the potential is more than 30 eV")

seed("hash_of_rounded_numbers", "P06", [(VIO, "    m.update(string.encode('UTF-8'))", "    import re\n    # the last digits depend on the machine\n    m.update(re.sub(r'(\\.\\d{12})\\d+', r'\\1', string).encode('UTF-8'))")], """
with scratch() as root, quiet():
    from pibronic.vibronic import vIO
    hashes = []
    for E in (1e-13, 2e-13):
        path = root + "/m.json"
        with open(path, "w") as file:
            file.write('{"number of modes": 1, "energies": [[0.%s]]}' % f"{E:.13f}"[2:])
        hashes.append(vIO.create_model_hash(path=path))
check(hashes[0] != hashes[1], hashes)
""", "two versions of a model that differ in the thirteenth digit of a parameter", "results of the other version pass as current")
