prop("P16", "A calculation is split into jobs that together draw enough samples",
     "For every requested number of samples, overall number of samples and block size, the jobs of a submission consist of "
     "whole blocks, are as large as the request and the limit per job allow but no larger, and together draw at least the "
     "overall number requested without one job too many; a request for less than one block, or for blocks larger than a job "
     "may be, is refused. Splitting is repeatable, and preparing one submission never changes the parameters of another.",
     ["inputs", "histories"], "all (samples, overall samples, block size, samples per job) up to the bound, two submissions",
     "tests split one or two convenient combinations in which everything divides evenly", ["jb"],
     [{"name": "splitting", "where": "PimcSubmissionClass.setup_blocks_and_jobs"}],
     "exhaustive enumeration of parameter combinations and interleaved submissions on the real code", REAL)

prop("P17", "The submitted jobs compute exactly what was asked for",
     "For every submission there is one command per combination of beads, temperature and job, and each, taken apart the way "
     "the shell and slurm do it and decoded the way the job does it, yields the requested beads, temperature, samples, block "
     "size, delta beta, data set, sampling model and root, and a result file of its own. Running such a job gives the numbers "
     "that the same calculation gives when it is set up by hand.",
     ["inputs", "configurations"], "clusters x lists of temperatures x lists of beads x splittings x ids x roots x delta beta; histories of three submissions",
     "tests never execute or decode a submitted command", ["jb", "job", "pimc", "fs"],
     [{"name": "command and parameter string", "where": "job_boss.PimcSubmissionClass, templates"},
      {"name": "job", "where": "pibronic/server/nlogn_feynman, BoxData.from_json_string"}],
     "exhaustive enumeration of submissions; commands decoded, and executed for a bounded subset", REAL +
     "sbatch is a stand-in that records the command; the job scripts themselves are run for real.")

prop("P18", "Waiting for a job neither hangs, nor dies, nor misses the signal",
     "Whenever the finished job's signal arrives - before, during or after any step of the waiting process - and whatever the "
     "cluster answers about the job's state, waiting for the job ends, and it does so by returning, with no alarm left behind "
     "that could kill the process or disturb the next wait. Two consecutive waits do not influence each other.",
     ["schedules", "histories"], "all arrival points of the signal (between any two executed lines) x answers of the cluster",
     "tests do not deliver signals; a window of a few lines is never hit by chance", ["jb"],
     [{"name": "critical section", "where": "job_boss.synchronize_with_job, SIGUSR1_handle, signal masks"}],
     "stateless exploration of all signal arrival points on the real code (controlled scheduler)",
     "The real function runs under a line tracer which delivers the signal before every executed line; sigwait, alarm, sleep "
     "and scontrol are stand-ins with the semantics of POSIX. Preemption inside one line of Python is not explored.")

prop("P19", "What slurm reports about a job is understood",
     "For every content of the output file of a job that ended, the job is reported as failed exactly if it was killed or hit "
     "a segmentation fault, and as out of memory exactly if the output says so, wherever the messages stand in the file. The cluster name is found wherever it stands in the configuration, a "
     "partition is accepted exactly if it is one of the listed ones, a "
     "job number is taken from exactly the well formed answers to a submission, and everything else is refused.",
     ["inputs", "fault_sequences"], "all ordered selections of up to 4 (5) message lines; all listings and answers of the alphabet",
     "tests use one output file per failure", ["jb"],
     [{"name": "classification", "where": "check_slurm_output, get_hostname, assert_partition_exists, extract_id_*, submit_job"}],
     "exhaustive enumeration of outputs and answers on the real code", REAL)

prop("P20", "Cached exact results belong to the current models",
     "After any history of calculations, failures of the external programs and edits of the models, the cached exact results "
     "are those of the model files they claim to belong to: results of older models are never returned or kept next to new "
     "ones, every temperature calculated for the current models stays available, and a failed calculation adds nothing.",
     ["histories", "fault_sequences"], "all histories of 3 (4) operations x kind of calculation x initial cache content, and mixing all kinds",
     "tests do not run the external programs", ["jw", "fs", "pp"],
     [{"name": "cache", "where": "julia_wrapper.*_of_*_model, hash comparison"}],
     "explicit-state exploration of all operation histories, replayed on the real code", REAL +
     "The Julia programs are stand-ins.")

prop("P21", "An interrupted electronic structure calculation resumes where it stopped",
     "Whenever the workflow is interrupted - a job refused, failed, timed out or incomplete, the process killed before or "
     "after any job, its state file cut anywhere in the last line - the next run takes every remaining step, in order, "
     "without skipping a step that was not completed and, if the state file is intact, without repeating a completed one; "
     "every step after the optimization works on the optimized geometry and the verified number of states. A calculation is "
     "recorded as finished only after the last output was verified, a finished calculation is not repeated, and the overview "
     "reports every model with its own last recorded state.",
     ["crash_points", "fault_sequences", "histories"], "all first and second faults at every job, every file operation as crash point x torn state files x geometry "
     "kinds x number of ionization attempts",
     "tests never run the workflow", ["es", "jb"],
     [{"name": "state file and steps", "where": "VibronExecutionClass (record_state, advance, _set_state_from_file, "
       "calculate_vibronic_model)"}],
     "exhaustive crash-point and fault-sequence exploration of the real workflow on a stand-in cluster", REAL +
     "ACES2, vibron, SLURM and the user are stand-ins.")

prop("P22", "Failed or unreliable electronic structure results are never accepted",
     "For every output, accounting state and sequence of user answers: a set of ionized states is accepted exactly if every "
     "one has more than 85% singles, otherwise the number of states is lowered by one until that holds or the calculation "
     "fails; a job that failed or did not complete, or an output without the final message at its end, is refused. The "
     "numbers of dropped orbitals and of states that are used are exactly those the user accepted, and a suggestion never counts dropped orbitals.",
     ["inputs", "fault_sequences", "histories"], "all vectors of % singles, patterns of good and bad states, accounting states, "
     "positions of the final message, answer sequences up to the bounds",
     "tests cover one completed and two failed outputs and no dialogue", ["es"],
     [{"name": "acceptance", "where": "parse_ip_output, verify_ip_states, wait_on_results, verify_aces2_completed, "
       "parse_vibron_output"}, {"name": "dialogue", "where": "_estimate_dropmo, _estimate_NIP, get_*_from_user"}],
     "exhaustive enumeration of outputs, answers and loop executions on the real code", REAL)

prop("P23", "Geometries and parameters reach the electronic structure programs intact",
     "For every geometry file and every optimized geometry, the geometry handed to the next program has every coordinate or "
     "atom at its latest value, in order, with the header kept and optimization marks only in an optimization, and a "
     "geometry of more atoms is refused. A parameter file is accepted exactly if it is complete and valid and every molecule "
     "keeps its own parameters; the files edited for vibron differ from the originals only in the removed leading blocks and "
     "the field of the number of states.",
     ["inputs", "histories"], "all subsets of optimized coordinates, cartesian geometries, effective Hamiltonian files, parameter "
     "files and interleavings of two molecules up to the bounds",
     "tests do not touch geometries, parameter files or edited files", ["es"],
     [{"name": "geometry", "where": "ZmatClass, parse_opt_output"}, {"name": "parameters",
       "where": "VibronExecutionClass.parse_input_parameters"}, {"name": "file editing",
       "where": "_remove_extra_heff, _add_nip_to_file, parse_prepVibron_output"}],
     "exhaustive enumeration of small inputs and interleavings on the real code", REAL)

prop("P24", "Jobs that run at the same time leave each other's results intact",
     "However the steps of the jobs that run at the same time on a node interleave, after they ended the results directory "
     "holds the complete result file of every job that succeeded and nothing else, and nothing is left in the scratch "
     "directory; a job that fails takes nothing of another job with it.",
     ["schedules", "configurations"], "all interleavings of two job scripts (all preemption-bounded ones of three) x job ids and "
     "cells that begin alike x ways a file reaches another file system",
     "tests run no job script, and a race of two jobs needs a particular schedule", ["job", "jb"],
     [{"name": "moving the results", "where": "pibronic/server/nlogn_feynman/pimc_job.sh"},
      {"name": "scratch and result paths", "where": "job_boss.prepare_job_nlogn, prepare_paths"}],
     "exhaustive exploration of the interleavings of the real job scripts under a controlled scheduler", REAL +
     "The sampling and mv are stand-ins that stop at every step; bash and the job script are real.")

prop("P25", "Preparing a data set makes each model from the current model it derives from",
     "After any history of importing, saving, rotating, uncoupling and reweighting models, changing rho and changing the "
     "data set, every model file holds exactly what the last step that makes it defines from the models of the same data "
     "set and rho at that time. Every step changes its own files only, and a step without its input is refused and changes "
     "nothing.",
     ["histories"], "all histories of 3 (4) of twelve preparation steps from three start states, two data sets and two rhos",
     "tests run the steps one at a time on fresh data sets", ["vio", "fs", "op"],
     [{"name": "preparation", "where": "create_coupling_from_op_file, create_fake_coupled_model, create_basic_diagonal_model, "
       "remove_coupling_from_model, recalculate_energy_values_of_diagonal_model, FileStructure.change_rho"}],
     "explicit-state exploration of all operation histories, replayed on the real code", REAL)

prop("P26", "Generated models are valid and in the requested ranges for all random outcomes",
     "Whatever the random draws, a generated model has the requested numbers of surfaces and modes, the shapes of its kind, "
     "frequencies that span the requested range, energies in the requested range, linear couplings of at most the scaling "
     "over the frequency and no higher couplings, and a coupled one is symmetric in its surfaces. What a request leaves open "
     "has its default whatever was requested before, and the extreme draws reach the ends of the ranges.",
     ["inputs", "random_outcomes"], "all sizes, requests and plans of the random draws (every single draw extreme) up to the bounds",
     "tests draw a few random models", ["vio"],
     [{"name": "generator", "where": "generate_vibronic_model_data, create_random_model, create_random_diagonal_model"}],
     "exhaustive enumeration of the extreme outcomes of a controlled random source on the real code", REAL)

prop("P27", "Training data of a job belong together whatever was computed before",
     "After any history of g(R) runs, rho(R) evaluations, changes of the sampling model and ordinary runs with the same "
     "objects and in any blocks, the stored g(R) of a job is that of the stored R of that job, rho(R) is that of the given R "
     "for the current sampling model, an ordinary run equals one on fresh objects, and every run writes the files of its own "
     "kind and job only.",
     ["histories", "configurations"], "all histories of 3 (4) of eight operations x block sizes x model sizes",
     "no test makes training data", ["pimc"],
     [{"name": "training data", "where": "block_compute_gR_from_raw_samples, block_compute_rhoR_from_input_samples, "
       "save_gR_with_samples, BoxData.initialize_models"}],
     "explicit-state exploration of all operation histories, replayed on the real code", REAL)

prop("P28", "A plot shows exactly the analysed results of the current models",
     "For every set of thermo files of any beads, temperatures and samples, the figures of Z, E and Cv show one curve per "
     "temperature (on its own axes) and number of samples, with the value and error bar of every file that belongs to the "
     "current models at tau = beta / P, and nothing else: no results of earlier models, of other data sets or sampling "
     "models, and nothing where there is no file. Compared to exact results, each value and error is first multiplied by the "
     "sampling model's own exact Z at that temperature and then given as percentage of the exact Z of its data set.",
     ["inputs", "histories"], "all statuses of the files of grids of 4, 6 and 8 cells; all histories of 3 (4) analyses, model edits, removals and plots",
     "there are no tests of plotting", ["plot", "prep", "pp"],
     [{"name": "loading", "where": "plot_Z_test, plot_original_Z_test, plot_Z_multiple_FS, plot_original_Z_vs_diagonal_test"},
      {"name": "drawing", "where": "plot_Z, plot_E, plot_Cv"}],
     "exhaustive enumeration of result grids and exploration of all operation histories, replayed on the real code", REAL +
     "Figures are inspected when they are saved; latex is not run.")

prop("P29", "The tables behind the orthonormal matrices are regenerated faithfully",
     "For every order, generating the table gives pairs at evenly spaced x, from (0, 0), whose distances ||expm(xS) - 1|| "
     "strictly increase, are those of the matrices at their x, and end at a quarter of the largest possible distance without "
     "exceeding it; the saved intervals are exactly those in which the distance is larger than ever before (and the tables "
     "for plotting mark exactly those). What is saved for an order is what is loaded for it, too short tables are refused, "
     "and the tables in the repository are reproduced.",
     ["inputs", "configurations"], "orders 2..10 (24) x resolutions; 27 periods x orders for the turning points; all pairs of table lengths around the minimum",
     "tests only use the tables of the repository", ["seq"],
     [{"name": "scan", "where": "list_of_turning_points, find_first_turn_around_point"},
      {"name": "tables", "where": "generate_full_monotonic_sequence, generate_and_save_x_pairs, save_sequence, load_sequence"}],
     "exhaustive enumeration of orders, resolutions and periods on the real code", REAL +
     "The tables are written to a scratch directory.")

prop("P30", "The grids drawn of a model show its own numbers and signs",
     "For every pair of original and coupled model, each figure of energies, linear or quadratic couplings shows exactly the "
     "matrix of its own model and modes as last loaded, with the sign of every number (however small) on its square, and "
     "there is one file for every matrix. Couplings that one of the models does not have are refused before anything is "
     "drawn.",
     ["inputs", "histories"], "all sign patterns of 2 and 3 surfaces, sizes x absent arrays, all histories of 3 (4) edits, loads and plots",
     "there are no tests of plotting", ["grid", "prep"],
     [{"name": "grids", "where": "plotGrids.plot_energy, plot_linear_coupling, plot_quadratic_coupling, generate_sign_array"}],
     "exhaustive enumeration of sign patterns and sizes, and of all operation histories, on the real code", REAL +
     "Figures are inspected when they are saved; latex is not run.")

prop("P31", "Every parameter of an .h file ends up in its place",
     "For every pair of .h and .in files of the electronic structure program, reading them gives the numbers of surfaces and "
     "modes, every frequency, every element of the reference Hamiltonian and every linear term of the files in its own "
     "place, whatever the others are - also when modes share a frequency, or the digits of one are part of another - and "
     "whichever files were read before. Files that lack a section, the block of a mode or one of the counts, or that are "
     "not symmetric in the surfaces, are refused. Importing a pair of files into a data set stores exactly that model there "
     "and nothing elsewhere; a refused import stores nothing.",
     ["inputs", "histories"], "every element alone, every pair, all together x sizes x all choices of frequencies; histories of 2 (3) files; every omission",
     "there are no tests of this parser", ["mh", "help"],
     [{"name": "counts and frequencies", "where": "get_number_of_*, extract_normal_mode_frequencies"},
      {"name": "blocks", "where": "extract_energies, extract_linear_couplings, read_model_h_file"}],
     "exhaustive enumeration of files and of histories of files on the real parser", REAL +
     "Second order terms of .h files are not extracted by design.")

prop("P32", "Electronic structure jobs run their step's calculation as the molecule asks",
     "For every molecule, kind of coordinates, basis, method, set of convergence settings and number of states, the input of "
     "each step of the workflow asks for that step's calculation and no other, with the molecule's own geometry, basis and "
     "method and every setting of its parameter file in its own field, whatever other molecules were calculated before in the "
     "same process. The job is submitted under the name of its input to the partition, directory and cluster of the "
     "calculation, runs the program and the post processing of the step, and asks for at least the memory its program is "
     "told to use. A step that does not leave one of its output files is not completed; a malformed setting is refused before "
     "anything is submitted.",
     ["configurations", "inputs", "histories"],
     "coordinates x method x basis x settings x states x clusters; every pair of interruptions of two molecules; every missing file",
     "there are no tests of these calculations", ["es", "jb"],
     [{"name": "inputs", "where": "hartree_fock_calculation, geometry_optimization, vibrational_frequency, ip_calculation, prepVibron_calculation, vibron_calculation"},
      {"name": "parameters", "where": "VibronExecutionClass.parse_input_parameters"}],
     "exhaustive enumeration of configurations, of missing files and of histories of two molecules on the real workflow", REAL +
     "The programs, SLURM and the user are stand-ins.")

prop("P33", "The example workflows make, submit and analyse exactly what is missing or there",
     "Preparing a data set of the example systems, in the default or a given root directory and whatever was prepared, rotated "
     "or edited before, leaves exactly its models: the coupled model of its system's input file (rotated by its own stored "
     "rotation, first that of its tuning parameter), the original model, and every sampling model made from these and from the "
     "iterative model of the current coupled model. Submitting sum-over-states or Trotter results calculates every combination of "
     "basis size, beads and temperature that is missing or belongs to an older model once, for that data set, and nothing that "
     "is already there; the analytic and PIMC submissions cover every temperature, model and number of beads; the analysis "
     "covers exactly the data sets and sampling models that exist; the training example stores rho(R) of the asked sampling "
     "model at the stored R.",
     ["histories", "configurations"],
     "every example data set x histories of 2 (3) preparations; every content of a grid of result files x order of execution; every subset of data sets",
     "the examples are never run by the tests", ["ex", "vio", "jw", "fs"],
     [{"name": "preparation", "where": "examples/*/setup_models.py, vIO.create_fake_coupled_model, remove_coupling_from_model, recalculate_energy_values_of_diagonal_model"},
      {"name": "submission", "where": "examples/*/submit_jobs_to_server.py, julia_wrapper, FileStructure hashes"},
      {"name": "analysis", "where": "examples/*/analyze_results.py"}],
     "exhaustive enumeration of histories and of file states on the real scripts", REAL +
     "The cluster and the Julia programs are stand-ins.")
