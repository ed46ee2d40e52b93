PLOT, GRID, SEQ, MH = "plotting/plotting.py", "plotting/grid_plots.py", "vibronic/orthonormal/sequences.py", "vibronic/model_h.py"

seed("exact_of_first_set", "P28", [(PLOT, """        with open(FS.path_analytic_orig, 'r') as file:
            data = json.loads(file.read())

        for T in self.lst_T[idx_FS]:
            self.analytical_orig_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
""", """        # the sampling models share one original model
        if idx_FS == 0:
            with open(FS.path_analytic_orig, 'r') as file:
                data = json.loads(file.read())

        for T in self.lst_T[idx_FS]:
            self.analytical_orig_list[idx_FS].setdefault(f"{T:.2f}", data[f"{T:.2f}"])
""")], """
import matplotlib
matplotlib.use("agg")
from pibronic.plotting import plotting

with scratch() as root, quiet():
    sets = []
    for n in (0, 1):
        FS = structure(root, dict(N=1, A=1, E=[[.4 + n]], w=[.02]), dict(N=1, A=1, E=[.4 + n], w=[.02]), n, 0)
        FS.generate_model_hashes()
        with open(FS.path_analytic_orig, "w") as file:
            json.dump({"300.00": {"Z_coupled": 2.0 + n}}, file)
        with open(FS.path_analytic_rho, "w") as file:
            json.dump({"300.00": {"Z_sampling": 1.0}}, file)
        keys = ["Z", "Z error", "E", "E error", "Cv", "Cv error", "jk_E", "jk_E error", "jk_Cv", "jk_Cv error"]
        data = dict(dict.fromkeys(keys, 0.1), Z=4.0, hash_vib=FS.hash_vib, hash_rho=FS.hash_rho)
        with open(f"{FS.path_rho_results}P5_T300.00_X100_thermo", "w") as file:
            json.dump(data, file)
        sets.append(FS)
    plotter = plotting.plot_original_Z_vs_diagonal_test(sets)
    plotter.load_data()
    got = [float(plotter.arr[n][0, 0, 0]["Z"]) for n in (0, 1)]
check(np.allclose(got, [100., 100. / 3.]), f"difference to the exact results in percent: {got}")
""", "plotting two data sets together", "the second one is compared with the exact results of the first")

seed("grids_read_once", "P30", [(GRID, """        path = self.FS.path_orig_model
        with open(path, 'r') as file:
            self.original_model = json.loads(file.read())
""", """        # the original model does not change
        if getattr(self, "original_model", None) is None:
            with open(self.FS.path_orig_model, 'r') as file:
                self.original_model = json.loads(file.read())
""")], """
import matplotlib
matplotlib.use("agg")
from pibronic.plotting import grid_plots

with scratch() as root, quiet():
    FS = structure(root, dict(N=1, A=2, E=[[.4, .1], [.1, .7]], w=[.02]), dict(N=1, A=2, E=[.4, .7], w=[.02]))
    drawn = []
    grids = grid_plots.plotGrids(FS)
    grids.plot_single_energy_grid = lambda energy, filename, title: drawn.append(energy)
    for value in (.1, -.2):
        write_model(FS.path_orig_model, N=1, A=2, E=[[.4, value], [value, .7]], w=[.02])
        grids.load_data()
        grids.plot_original_energy_grid()
check([float(e[0, 1]) for e in drawn] == [.1, -.2], f"the original model: {drawn}")
""", "loading the models again with the same object after a new original model was made",
     "the grids show the previous original model")

seed("turn_from_first_maximum", "P29", [(SEQ, """            xy_list.append(Pair(x=old_x, y=old_distance))
            previous_turn_around = old_distance
            descending = True
""", """            xy_list.append(Pair(x=old_x, y=old_distance))
            if previous_turn_around is None:
                previous_turn_around = old_distance
            descending = True
""")], """
from pibronic.vibronic.orthonormal import sequences as seq

with quiet():
    for order in (2, 3, 4, 5, 6, 7):
        SKSM, identity = seq.build_SKSM_and_identity(order)
        points = seq.list_of_turning_points(SKSM, identity)
        y = [p.y for p in points]
        check(y == sorted(y), f"the distance at the turning points decreases for order {order}: {y[:8]}")
""", "a matrix order whose distance has several maxima of different height",
     "the saved intervals contain x at which the distance is smaller than it was before")

seed("h_block_by_frequency", "P31", [(MH, "            coupling_terms[idx, a, :] = line.split()\n",
     "            coupling_terms[list(frequencies).index(w), a, :] = line.split()\n")], """
from pibronic.vibronic import VMK, model_h

IN = '''     0              ! units in eV
     2              ! Number of electronic states
     2              ! Number of symmetric normal modes
     0              ! Number of non-A1 normal modes
   500              ! Number of Lanczos iterations
   0   0
    {}    {}


'''
H = '''                            Reference Hamiltonian
   0.1   0.0
   0.0   0.2

  Gradients of heff along normal modes
----------------------------------------------------------------------

  Normal mode :   1 Frequency :    {}
    0.072000    0.010000
    0.010000    0.072000

  Normal mode :   2 Frequency :    {}
    0.030000    0.000000
    0.000000    0.050000

  Diagonal second order corrections of heff
----------------------------------------------------------------------
'''
with scratch() as root, quiet():
    for w in ((.02, .04), (.02, .02)):
        open(root + "/m.in", "w").write(IN.format(*w))
        open(root + "/m.h", "w").write(H.format(*(f"{x * 8065.5:.2f}" for x in w)))
        G1 = model_h.read_model_h_file(root + "/m.h")[VMK.G1]
        check(np.allclose(G1, [[[.072, .01], [.01, .072]], [[.03, 0], [0, .05]]]), f"linear terms {G1}")
""", "a molecule with degenerate modes", "the linear terms of all but the last of the degenerate modes are lost")
