From a6f3ec5fc32aa62802e8dcd03563a47676e5e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:45 +0000
Subject: [PATCH 01/44] fix: cap the samples loaded from several result files
 at what is still missing

---
 pibronic/pimc/pimc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 5873719..a4cc773 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -904,7 +904,7 @@ class BoxResult:
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
@@ -1030,7 +1030,7 @@ class BoxResultPM(BoxResult):
             if start >= desired_number_of_samples:
                 break
             with np.load(path) as data:
-                length = min(data["number_of_samples"], desired_number_of_samples)
+                length = min(data["number_of_samples"], desired_number_of_samples - start)
                 assert not np.any(data["s_rho"][0:length] == 0.0), "Zeros in the denominator"
                 self.scaled_g[start:start+length] = data["s_g"][0:length]
                 self.scaled_rho[start:start+length] = data["s_rho"][0:length]
-- 
2.43.0


From 83ef726958d2e65e1dfec332fcd20db51f4d02e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:04 +0000
Subject: [PATCH 02/44] fix: compare sample counts by value when loading a
 result file

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index a4cc773..d3ec9ed 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -842,7 +842,7 @@ class BoxResult:
             # BoxResult.verify_hashes_are_valid()
             if self.samples is 0:
                 self.samples = data["number_of_samples"]
-            elif data["number_of_samples"] is not self.samples:
+            elif data["number_of_samples"] != self.samples:
                 raise AssertionError("BoxResult has a different number of samples that the input file - this should not happen")
 
             self.initialize_arrays()
-- 
2.43.0


From dfb55e76d98536c90a34e552481ddf9d9bc70564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:09 +0000
Subject: [PATCH 03/44] fix: fill every surface of the O matrix when rho has a
 different number of surfaces

---
 pibronic/pimc/pimc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index d3ec9ed..6169169 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1107,10 +1107,10 @@ def build_o_matrix(data, model, state_shift):
 
     np.exp(o_matrix, out=o_matrix)
 
-    for a in range(data.states):
+    temp_states = model.omatrix.shape[2]
+    for a in range(temp_states):
         model.omatrix[:, :, a, a] = o_matrix[:, :, a]
 
-    temp_states = model.omatrix.shape[2]
     # asserts that the tensor is diagonal along axis (2,3)
     for a, b in it.product(range(temp_states), range(temp_states)):
         if a == b:
-- 
2.43.0


From 37514659be2d6d163888a9970bc1d92b35c2248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 04/44] fix: evaluate the coupling part of g at beta plus/minus
 delta_beta as well

---
 pibronic/pimc/pimc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 6169169..fab4111 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -59,6 +59,7 @@ np.random.seed()  # random
 class TemperatureDependentClass:
     """store temperature dependent constants here"""
     def __init__(self, model, tau):
+        self.tau = tau
         # construct the coth and csch tensors
         omega = np.broadcast_to(model.omega, model.size['AN'])
         self.cothAN = np.tanh(hbar*tau*omega)**(-1.)
@@ -1180,7 +1181,7 @@ def build_numerator(data, vib, outputArray, idx):
     # build the M matrix
     np.einsum('abcd, abd, abed->abce',
               data.coupling_eigvects,
-              np.exp(-data.tau*data.coupling_eigvals),  # replace this part to salis
+              np.exp(-vib.tau*data.coupling_eigvals),  # replace this part to salis
               data.coupling_eigvects,
               out=data.M_matrix,
               optimize='optimal'
-- 
2.43.0


From 69c29de39337e0e37eafed7dd3da80b99eaec310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 05/44] fix: compute beta plus/minus of BoxDataPM from the beta
 of the requested temperature

---
 pibronic/pimc/pimc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index fab4111..368835c 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -728,14 +728,14 @@ class BoxDataPM(BoxData):
 
     def preprocess(self):
         """"""
+        # do the usual work
+        super().preprocess()
+
         # compute extra constants
         self.beta_plus = self.beta + self.delta_beta
         self.beta_minus = self.beta - self.delta_beta
         self.tau_plus = self.beta_plus / self.beads
         self.tau_minus = self.beta_minus / self.beads
-
-        # do the usual work
-        super().preprocess()
         return
 
 
-- 
2.43.0


From da29109ab93e5e3da53d640590380587dcc372c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:52 +0000
Subject: [PATCH 06/44] fix: evaluate g(R) and rho(R) at the stored R values,
 the displacement was subtracted twice

---
 pibronic/pimc/pimc.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 368835c..1edeea1 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -605,10 +605,8 @@ class BoxData:
         they only have the correct dimensions BANP and are shifted appropriately """
         # generate sample points in dimensionless co-ordinates R
         storage_array[sample_view, :, :] = np.random.random(size=self.rho.size['BNP'])
+        # build_o_matrix() takes care of the surface dependent displacement q = R - d
         np.copyto(self.qTensor, storage_array[sample_view, NEW, ...])
-
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        self.qTensor -= self.vib.state_shift[NEW, :, :, NEW]
         return
 
     def transform_sampled_coordinates(self, sample_view):
@@ -1291,9 +1289,9 @@ def block_compute_rhoR_from_input_samples(data, result, input_R_values):
         sample_view = slice(start, end)
 
         # we copy in the data values that we read in from load_R_samples
+        # build_o_matrix() takes care of the surface dependent displacement q = R - d
         data.qTensor[:] = input_R_view[sample_view, NEW, ...]
-        # we transform the dimensionless co-ordinates to surface dependent co-ordinates q = R - d
-        data.qTensor -= data.vib.state_shift[NEW, :, :, NEW]
+        data.qTempTensor[:] = input_R_view[sample_view, NEW, ...]
 
         # build O matrices for system distribution
         build_o_matrix(data, rho.const, rho.state_shift)
-- 
2.43.0


From 0b0f9471d1094fa8120223751460fdfb9edfb503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:57 +0000
Subject: [PATCH 07/44] fix: read parameters from the file name only, not from
 the directories leading to it

---
 pibronic/data/postprocessing.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 85b53d7..fcd7a36 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -86,23 +86,22 @@ def retrive_all_file_paths(FS):
 
 def extract_bead_value_from_trotter_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("trotter_P")[1].split("_B"))
+    return int(os.path.basename(file_path).split("trotter_P")[1].split("_B")[0])
 
 
 def extract_trotter_paramater_list(list_trotter):
     """ takes a list of file-paths to results from trotter calculations and return a dictionary with integer keys representing possible basis sizes, whose corresponding values are lists of all possible bead values for that given basis size. """
-    tL = map(extract_bead_value_from_trotter_file_path, list_trotter)
-
     trotterDict = collections.defaultdict(list)
-    for path in tL:
-        trotterDict[int(path[1].split(".json")[0])].append(int(path[0]))
+    for path in list_trotter:
+        basis_size = extract_basis_value_from_sos_file_path(path)
+        trotterDict[basis_size].append(extract_bead_value_from_trotter_file_path(path))
 
     return trotterDict
 
 
 def extract_basis_value_from_sos_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("_B")[1].split(".json")[0])
+    return int(os.path.basename(file_path).split("_B")[1].split(".json")[0])
 
 
 def extract_sos_basis_paramater_list(list_vib, list_rho):
@@ -117,7 +116,7 @@ def extract_sos_basis_paramater_list(list_vib, list_rho):
 
 def extract_bead_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_bead_paramater_list(list_pimc):
@@ -130,7 +129,7 @@ def extract_bead_paramater_list(list_pimc):
 
 def extract_temperature_value_from_pimc_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_J")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_J")[0])
 
 
 def extract_temperature_paramater_list(list_pimc):
@@ -146,7 +145,7 @@ def extract_temperature_paramater_list(list_pimc):
 
 def extract_job_value_from_pimc_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_J")[1].split("_data_")[0])
+    return int(os.path.basename(file_path).split("_J")[1].split("_data_")[0])
 
 
 def extract_parameter_lists(list_pimc, list_vib, list_rho):
@@ -159,17 +158,17 @@ def extract_parameter_lists(list_pimc, list_vib, list_rho):
 
 def extract_bead_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int """
-    return int(file_path.split("P")[1].split("_T")[0])
+    return int(os.path.basename(file_path).split("P")[1].split("_T")[0])
 
 
 def extract_temperature_value_from_thermo_file_path(file_path):
     """ does what it says, returns a float"""
-    return float(file_path.split("_T")[1].split("_X")[0])
+    return float(os.path.basename(file_path).split("_T")[1].split("_X")[0])
 
 
 def extract_sample_value_from_thermo_file_path(file_path):
     """ does what it says, returns an int"""
-    return int(file_path.split("_X")[1].split("_thermo")[0])
+    return int(os.path.basename(file_path).split("_X")[1].split("_thermo")[0])
 
 
 def prune_results_using_hashes(FS, list_pimc):
-- 
2.43.0


From bccb9f343f3a1abe5503c6520fb72ab939e101c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:17 +0000
Subject: [PATCH 08/44] fix: halve only the surface-diagonal terms read from an
 .op file

---
 pibronic/vibronic/model_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/model_op.py b/pibronic/vibronic/model_op.py
index cb01b42..5bdb09a 100755
--- a/pibronic/vibronic/model_op.py
+++ b/pibronic/vibronic/model_op.py
@@ -386,9 +386,9 @@ def read_model_op_file(path_file_op):
     # don't over count the diagonals
     for a in States:
         linear_couplings[:, a, a] /= 2.
-        quadratic_couplings[:, :, a, b] /= 2.
-        cubic_couplings[:, :, :, a, b] /= 2.
-        quartic_couplings[:, :, :, :, a, b] /= 2.
+        quadratic_couplings[:, :, a, a] /= 2.
+        cubic_couplings[:, :, :, a, a] /= 2.
+        quartic_couplings[:, :, :, :, a, a] /= 2.
 
     # check for symmetry in surfaces
     assert np.allclose(excitation_energies, excitation_energies.transpose(1, 0))
-- 
2.43.0


From 51a70877c2f7d833ad4ccd4d9cb399c58a6263f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:21 +0000
Subject: [PATCH 09/44] fix: default energies of a diagonal model have the
 diagonal shape

---
 pibronic/vibronic/vibronic_model_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 22fe2c1..9d02da4 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -572,7 +572,7 @@ def _load_inplace_from_JSON(path, dictionary):
     return
 
 
-def _load_from_JSON(path):
+def _load_from_JSON(path, shape_dict=model_shape_dict):
     """returns a dictionary filled with the values stored in the .json file located at path"""
 
     with open(path, mode='r', encoding='UTF8') as file:
@@ -588,7 +588,7 @@ def _load_from_JSON(path):
     # special case to always create an array of energies that are 0.0 if not provided in the .json file
     if VMK.E not in input_dictionary:
         A, N = _extract_dimensions_from_dictionary(input_dictionary)
-        shape = model_shape_dict(A, N)
+        shape = shape_dict(A, N)
         input_dictionary[VMK.E] = np.zeros(shape[VMK.E], dtype=F64)
 
     # TODO - design decision about which arrays to fill with zeros by default?
@@ -633,7 +633,7 @@ def load_diagonal_model_from_JSON(path, dictionary=None):
 
     # no arrays were provided so return newly created arrays after filling them with the appropriate values
     if not bool(dictionary):
-        new_model_dict = _load_from_JSON(path)
+        new_model_dict = _load_from_JSON(path, diagonal_model_shape_dict)
 
         # TODO - we might want to make sure that none of the values in the dictionary have all zero values or are None
 
-- 
2.43.0


From eba681c78350f697c4899f5f53596ae75393c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:26 +0000
Subject: [PATCH 10/44] fix: do not mix results of older models into the loaded
 pimc data

---
 pibronic/data/postprocessing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index fcd7a36..9f30d25 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -303,6 +303,9 @@ def load_pimc_data(FS, P, T, pimc_results):
     """
     path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
     list_of_files = [file for file in glob.glob(path_data_points)]
+    # results which belong to an older version of either model must not be mixed in
+    FS.generate_model_hashes()
+    list_of_files = prune_results_using_hashes(FS, list_of_files)
     pimc_results.load_multiple_results(list_of_files)
 
     # TODO - add support for passing in the optional desired_number_of_samples paramter to the load_multiple_results method
-- 
2.43.0


From eafa3b53e381c7ed697b94a211bae58fbaffcdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:31 +0000
Subject: [PATCH 11/44] fix: compare the method and location strings by value

---
 pibronic/stats/stats.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index ef21d65..5d891bd 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -235,21 +235,21 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
                 ]
 
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_statistical_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_statistical_analysis
     else:
         raise Exception(f"Invalid value for parameter method:({method})")
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
 
         with mp.Pool(__number_of_processes) as p:
             p.starmap(basic_wrapper, arg_list)
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
@@ -351,18 +351,18 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
                 for T in args["temperatures"]
                 ]
     # choose what statistical analysis we are going to preform
-    if method is "basic":
+    if method == "basic":
         operation = basic_jackknife_analysis
-    elif method is "alpha":
+    elif method == "alpha":
         operation = alpha_jackknife_analysis
 
     # dispatch multiple processes to execute the analyze concurrently
-    if location is "local":
+    if location == "local":
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
         with mp.Pool(__number_of_processes) as p:
             p.starmap(jackknife_wrapper, arg_list)
 
-    elif location is "server":
+    elif location == "server":
         assert False, "Need to write this code"
 
         # TODO - add a simple command to check that slurm is installed
-- 
2.43.0


From 75979966e1c9ca61dbc4642b95f1a8d722ed33d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:46 +0000
Subject: [PATCH 12/44] fix: analyse only the bead and temperature combinations
 that have results

---
 pibronic/stats/stats.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pibronic/stats/stats.py b/pibronic/stats/stats.py
index 5d891bd..d37518d 100755
--- a/pibronic/stats/stats.py
+++ b/pibronic/stats/stats.py
@@ -145,6 +145,14 @@ def apply_parameter_restrictions(args):
     # return
 
 
+def select_combinations_with_results(FS, list_pimc, arg_list):
+    """ returns the subset of arg_list, a list of (FS, P, T) tuples, for which there is at least one result file that belongs to the current models """
+    available = {(pp.extract_bead_value_from_pimc_file_path(path),
+                  pp.extract_temperature_value_from_pimc_file_path(path))
+                 for path in pp.prune_results_using_hashes(FS, list_pimc)}
+    return [args for args in arg_list if args[1:] in available]
+
+
 def starmap_wrapper(FS, P, T, statistical_operation):
     """ this function allows us to use the multiprocessing starmap in a convient way inside basic_statistical_analysis_of_pimc() and basic_jackknife_analysis_of_pimc()
     input is a FileStructure object, a bead value, a temperature value, and a function which preforms the calculation
@@ -244,6 +252,7 @@ def statistical_analysis_of_pimc(FS, method="basic", location="local", samples=N
 
     # dispatch multiple processes to execute the analyze concurrently
     if location == "local":
+        arg_list = select_combinations_with_results(FS, list_pimc, arg_list)
         basic_wrapper = partial(starmap_wrapper, statistical_operation=operation)
 
         with mp.Pool(__number_of_processes) as p:
@@ -358,6 +367,7 @@ def jackknife_analysis_of_pimc(FS, method="basic", location="local", samples=Non
 
     # dispatch multiple processes to execute the analyze concurrently
     if location == "local":
+        arg_list = select_combinations_with_results(FS, list_pimc, arg_list)
         jackknife_wrapper = partial(starmap_wrapper, statistical_operation=operation)
         with mp.Pool(__number_of_processes) as p:
             p.starmap(jackknife_wrapper, arg_list)
-- 
2.43.0


From b695907958ff635292f6f4e76ca07caf30298b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:06 +0000
Subject: [PATCH 13/44] fix: change_rho also updates the rho id, the rho
 directory and the rho hash

---
 pibronic/data/file_structure.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index bee2162..4df0c81 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -176,6 +176,8 @@ class FileStructure:
         """
         self.make_rho_directories(id_rho)
         # update all the rho paths
+        self.id_rho = id_rho
+        self.path_rho = join(self.path_root, self.template_rho.format(self.id_data, id_rho))
         self.path_rho_params = join(self.path_root,
                                     self.template_rho_params.format(self.id_data, id_rho))
         self.path_rho_results = join(self.path_root,
@@ -199,6 +201,10 @@ class FileStructure:
         #
         self.path_analytic_rho = join(self.path_rho_params, file_name.analytic_results)
 
+        # the hash of the previous sampling model does not describe the new one
+        if self._has_rho_hash():
+            del self.hash_rho
+
         return
 
     def verify_directories_exists(self, id_data, path_root=None):
-- 
2.43.0


From ce54ad41a63225c052c193ce568514d4710326d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 14/44] fix: directories_exist looks at the directories, not at
 the attribute names

---
 pibronic/data/file_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 4df0c81..961d5f4 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -139,7 +139,7 @@ class FileStructure:
 
     def directories_exist(self):
         """x"""
-        if False in map(os.path.isdir, self.dir_list):
+        if False in map(os.path.isdir, [getattr(self, directory) for directory in self.dir_list]):
             return False
         return True
 
-- 
2.43.0


From fbe583b77f36b11e862c088d75b5ba319383faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:40 +0000
Subject: [PATCH 15/44] fix: do not share the submission parameters between
 instances

---
 pibronic/server/job_boss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 762bf3b..9310b1e 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -6,6 +6,7 @@ import subprocess
 import threading
 import socket
 import signal
+import copy
 import time
 import sys
 import os
@@ -464,6 +465,9 @@ class SubmissionClass():
     def __init__(self, input_FS, input_param_dict=None):
         """ takes a FileStructure object and an optional parameter dictionary - no error checking at the moment """
 
+        # every submission has its own parameters, don't modify those of the class
+        self.param_dict = copy.deepcopy(self.param_dict)
+
         # set the default hostname when initialized
         self.param_dict['hostname'] = get_hostname()
 
@@ -577,7 +581,6 @@ class PimcSubmissionClass(SubmissionClass):
         temperature_list = self.param_dict["temperature_list"]
         bead_list = self.param_dict["bead_list"]
 
-        import copy
         for T in temperature_list:
             for P in bead_list:
 
-- 
2.43.0


From b70b0a2c06b50ff4e86866c494600751a58203ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:45 +0000
Subject: [PATCH 16/44] fix: submit enough jobs, of whole blocks, to draw the
 requested number of samples

---
 pibronic/server/job_boss.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 9310b1e..99ca4f7 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -553,8 +553,9 @@ class PimcSubmissionClass(SubmissionClass):
         assert block_size <= n_samples, f"block size {block_size} must be less than or equal to the number of samples {n_samples}"
         assert block_size <= self.MAX_SAMPLES_PER_JOB, f"block size {block_size} must be less than or equal to the maximum number of samples per job {self.MAX_SAMPLES_PER_JOB}"
 
-        # calculate how many samples we need for each job
+        # calculate how many samples we need for each job, only whole blocks are sampled
         samples_per_job = min(n_samples, self.MAX_SAMPLES_PER_JOB)
+        samples_per_job -= samples_per_job % block_size
         self.param_dict["number_of_samples_per_job"] = samples_per_job
         self.param_dict["number_of_samples"] = samples_per_job
 
@@ -566,11 +567,12 @@ class PimcSubmissionClass(SubmissionClass):
         total_samples = self.param_dict["number_of_samples_overall"]
 
         # TODO - HACKY
-        if total_samples is 0:
+        if total_samples == 0:
             total_samples = n_samples
             self.param_dict["number_of_samples_overall"] = n_samples
 
-        self.n_jobs = max(1, total_samples // self.MAX_SAMPLES_PER_JOB)
+        # round up, all the jobs together must draw at least the requested number of samples
+        self.n_jobs = max(1, -(-total_samples // samples_per_job))
         return
 
     def submit_jobs(self):
-- 
2.43.0


From e9e85ecbae16b95890e56562b27dc9f0a0b6e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 17/44] fix: submitted jobs use the running interpreter and the
 scripts that exist

---
 pibronic/server/job_boss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index 99ca4f7..addf418 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -31,12 +31,12 @@ job_almost_done_flag = False
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
-    return os.path.abspath(os.__file__)
+    return os.path.abspath(sys.executable)
 
 
 def get_path_of_job_boss_directory():
     """returns the absolute path to the directory holding job_boss.py """
-    return os.path.abspath(__file__)
+    return os.path.dirname(os.path.abspath(__file__))
 
 
 def subprocess_submit_asynch_wrapper(cmd, **kwargs):
-- 
2.43.0


From a6a568960fd07265f4f99cdfe2e3e26d41e61bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:13 +0000
Subject: [PATCH 18/44] fix: search the whole slurm output for errors, not for
 lines equal to the keywords

---
 pibronic/server/job_boss.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index addf418..d069f4e 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -150,19 +150,21 @@ def check_slurm_output(path_root, id_job):
     log.debug(f"Checking slurm output:\n{slurm_path:}\n")
 
     with open(slurm_path, "r") as source_file:
-        if not ("Finished" in source_file):
-            log.debug("We got here too early?")  # should this be an exception?
+        output = source_file.read()
 
-        elif "SIGSEGV" in source_file:
-            raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+    if not ("Finished" in output):
+        log.debug("We got here too early?")  # should this be an exception?
 
-        elif "Killed" in source_file:
-            # most likely cause is that it ran out of memory
-            if "Exceeded step memory limit" in source_file:
-                raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
-            raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
-        else:
-            log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
+    elif "SIGSEGV" in output:
+        raise MemoryError(f"Job {id_job:d} had a Segmentation fault, see file {slurm_path:s}")
+
+    elif "Killed" in output:
+        # most likely cause is that it ran out of memory
+        if "Exceeded step memory limit" in output:
+            raise MemoryError(f"Job {id_job:d} ran out of memory, see file {slurm_path:s}")
+        raise Exception(f"Job {id_job:d} failed for an unknown reason, see file {slurm_path:s}")
+    else:
+        log.warning(f"Undefined execution, check file {slurm_path:s} for issues")
     return
 
 
-- 
2.43.0


From bd2f64e7e4702032bb3d3278624951f94e9bbc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:50 +0000
Subject: [PATCH 19/44] fix: resume the electronic structure workflow after the
 last completed step

---
 pibronic/vibronic/electronic_structure.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 842af2e..d7f3a19 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1520,24 +1520,20 @@ class VibronExecutionClass:
 
             old_state = str(line.strip())
 
-            if old_state == State(State.max()):
-                self.state = State(State.max())
-
-            elif old_state in State:
-                self.state = State(State(old_state).value + 1)
-
-            for member in State:
-                if member.name == str(line.strip()):
-                    self.state = State(member.value + 1)
-                    break
+            # the last state in the file is the last step which was completed
+            if old_state in State.__members__:
+                next_state = State[old_state].value + 1
+                self.state = State(min(next_state, State.max()))
             else:
                 s = ("State file {:s} contained an invalid state: {:s}"
                      "Defaulting to initial state"
                      )
-                log.debug(s.format(line, self.path_state))
+                log.debug(s.format(self.path_state, line))
                 self.state = State(State.min())
-                break
+            return
 
+        # there was nothing but blank lines
+        self.state = State(State.min())
         return
 
     def parse_input_parameters(self, file_path=None):
-- 
2.43.0


From 70b38cdcbf4a6349f92362b70046e5452b08f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:54 +0000
Subject: [PATCH 20/44] fix: read all the digits of the DROPMO value when
 guessing the nip

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index d7f3a19..ea3fdb9 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -617,7 +617,7 @@ def _estimate_NIP(vibron, path):
     lines = _extract_lines_for_estimating_NIP(path)
     # grab the guess_dropmo as a number
     string_dropmo = vibron.parameter_dictionary["DROPMO"]
-    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo[-1])
+    guess_dropmo = 0 if string_dropmo == "" else int(string_dropmo.split("=")[1].split("-")[-1])
     print(guess_dropmo)
 
     guess_nip, list_ev = _guess_NIP_value(lines, guess_dropmo)
-- 
2.43.0


From ff35a2d7221464f9a608afd8633726711c6dfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 21/44] fix: return the prepVibron input template

---
 pibronic/vibronic/electronic_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index ea3fdb9..557b285 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1040,7 +1040,7 @@ def _create_template(zmat, memory_size):
     template += "\n\t" + "heff_high=200"
     template += "\n" + "*end"
     template += "\n"
-    return
+    return template
 
 
 def prepVibron_calculation(path_root, name, zmat, parameter_dictionary):
-- 
2.43.0


From 22737408f65f820bec9c638da8b8e26133032c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:05 +0000
Subject: [PATCH 22/44] fix: the error output of a submitted job is already
 text

---
 pibronic/vibronic/electronic_structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 557b285..332461d 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -347,9 +347,9 @@ def submit_job(parameter_dictionary):
     job_id, out, error = job_boss.submit_job(command, parameter_dictionary)
 
     # check for any errors
-    if error.decode('utf-8') is not "":
+    if error != "":
         s = "Failed to execute script \n{:s}\n due to {:s}"
-        raise Exception(s.format(command, error.decode('utf-8')))
+        raise Exception(s.format(command, error))
 
     return job_id
 # -----------------------------------------------------------
-- 
2.43.0


From 05d8aeeabe5b38fa97967a274e8091cc2f3928e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 23/44] fix: do not share the input parameters between
 molecules

---
 pibronic/vibronic/electronic_structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 332461d..f135dfc 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1441,6 +1441,7 @@ class VibronExecutionClass:
     def __init__(self, name, root, state=None):
         self.name = name
         self.path_root = root
+        self.parameter_dictionary = self.parameter_dictionary.copy()
         self.file_in = default_file_in.copy()
         self.file_out = default_file_out.copy()
         self.path_state = join(self.path_root, name_of_state_file)
-- 
2.43.0


From 55419c5919f9148fd108023c38b94dec3d7ca083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 24/44] fix: refuse to load a model of other dimensions into
 the provided arrays

---
 pibronic/vibronic/vibronic_model_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pibronic/vibronic/vibronic_model_io.py b/pibronic/vibronic/vibronic_model_io.py
index 9d02da4..921d557 100755
--- a/pibronic/vibronic/vibronic_model_io.py
+++ b/pibronic/vibronic/vibronic_model_io.py
@@ -568,7 +568,10 @@ def _load_inplace_from_JSON(path, dictionary):
             if key not in input_dictionary:
                 dictionary[key].fill(0.0)
             else:
-                dictionary[key][:] = np.array(input_dictionary[key], dtype=F64)
+                array = np.array(input_dictionary[key], dtype=F64)
+                # otherwise numpy would broadcast the values of a smaller model
+                assert array.shape == dictionary[key].shape, f"{key} have incorrect shape"
+                dictionary[key][:] = array
     return
 
 
-- 
2.43.0


From 0fe1e249b6b5185e90f84df25e7920fff3f2ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:09 +0000
Subject: [PATCH 25/44] fix: load the sequences of orthonormal matrices with a
 one character delimiter

---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index c54daea..9cb1338 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -114,7 +114,7 @@ def path_to_sequence_file(order):
     return path
 
 
-def load_sequence(order, delimiter=", "):
+def load_sequence(order, delimiter=","):
     """ returns a list of [y, x] pairs (which are length 2 lists)
     throws an assert error if the file does not exist
     takes a integer parameter which specifies which file to load"""
-- 
2.43.0


From cd8e6e05b6811144e7a6ccbcd9af7b0e6de3916e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:17 +0000
Subject: [PATCH 26/44] fix: cancel the alarm after waiting for a job

---
 pibronic/server/job_boss.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index d069f4e..a0e8ea7 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -117,6 +117,9 @@ def synchronize_with_job(id_job, job_type="default"):
                 log.lock("Woke up")
 
             log.lock("About to leave the critical section")
+
+        # an alarm that nobody waits for would kill this process
+        signal.alarm(0)
     else:
         raise Exception(f"Undefined behaviour, the job state was:\n {error_state:s}")
 
-- 
2.43.0


From 7f255a4bc298fe7c875f2d83f75d67a92fd2559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 27/44] fix: read the percent singles of the states, the
 verification never saw a line

---
 pibronic/vibronic/electronic_structure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index f135dfc..96bd6d6 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -965,13 +965,14 @@ def parse_ip_output(vibron):
 
                 # throw away the header lines
                 past_headers = skip_forward_n_lines(memmap_file, 5, memmap_file.tell())
-                memmap_file.seek(past_headers)
+                # the first state is on the line after this newline character
+                memmap_file.seek(past_headers + 1)
 
                 # store the lines with the relevant information
                 lines = []
                 while True:
                     line = memmap_file.readline().decode(encoding="utf-8")
-                    if(line is "\n" or "--------" in line):
+                    if(line in ["", "\n"] or "--------" in line):
                         break
 
                     lines.append(line)
-- 
2.43.0


From 100cb808f8aed8813402e44c1066d92b3b739de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:30 +0000
Subject: [PATCH 28/44] fix: the vibron step is completed only after its output
 was verified

---
 pibronic/vibronic/electronic_structure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index 96bd6d6..ee874be 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1623,7 +1623,6 @@ class VibronExecutionClass:
         """wrapper method"""
         if self.state == State.VIBRON:
             vibron_calculation(self.path_root, self.name, self.zmat, self.parameter_dictionary)
-            self.advance()
         return
 
     def calculate_vibronic_model(self):
@@ -1652,7 +1651,9 @@ class VibronExecutionClass:
 
             self.vibron_calc()
             parse_vibron_output(self)
-            self.advance()  # important to do after parsing vibron_output
+            # important to do after parsing vibron_output, otherwise a failed calculation counts as completed
+            self.advance()
+            self.advance()  # record that we are finished
             log.info("We have reached the end of execution.")
         return
 
-- 
2.43.0


From a30fe62ef622dc59fb0d7bd0d07363fd3fb1db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:14 +0000
Subject: [PATCH 29/44] fix: a job moved the results other jobs were still
 writing

---
 pibronic/server/nlogn_feynman/pimc_job.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pibronic/server/nlogn_feynman/pimc_job.sh b/pibronic/server/nlogn_feynman/pimc_job.sh
index 35c0abc..e518016 100755
--- a/pibronic/server/nlogn_feynman/pimc_job.sh
+++ b/pibronic/server/nlogn_feynman/pimc_job.sh
@@ -39,8 +39,9 @@ echo "if there are no values it means the job didn't run long enough to record v
 # ls -al "${SCRATCH_DIR}execution_output/"
 ls -al "${SCRATCH_DIR}results/"
 
-echo mv --force "${COPY_FROM}"* "${COPY_TO}"
-mv --force "${COPY_FROM}"* "${COPY_TO}"
+# only the results of this job, other jobs might still be writing theirs
+echo mv --force "${COPY_FROM}"*"_J${SLURM_JOB_ID}_"* "${COPY_TO}"
+mv --force "${COPY_FROM}"*"_J${SLURM_JOB_ID}_"* "${COPY_TO}"
 # HACKS
 # echo mv --force "${COPY_FROM}${SLURM_JOBID}"* "${COPY_TO}"
 # mv --force "${COPY_FROM}${SLURM_JOBID}"* "${COPY_TO}"
-- 
2.43.0


From fb55d9bb83dbedd2c67cf6c669d01a9b0d87aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:35 +0000
Subject: [PATCH 30/44] fix: a result object saved an ordinary run over the
 training data it had made before

---
 pibronic/pimc/pimc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 1edeea1..e919306 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -1251,6 +1251,9 @@ def save_gR_with_samples(data, result, input_R_values):
     don't want to pollute BoxResult with extra functions that might not be necessary in the future
     so this will go here for now"""
 
+    # the name of the ordinary result file, which the same object might save afterwards
+    partial_name = result.partial_name
+
     result.partial_name = partial(file_name.training_data_g_output().format, P=data.beads, T=data.temperature)
     path = result.compute_path_to_file()
 
@@ -1266,6 +1269,8 @@ def save_gR_with_samples(data, result, input_R_values):
              number_of_samples=result.samples,
              input_R_values=input_R_values,
              )
+
+    result.partial_name = partial_name
     return
 
 
-- 
2.43.0


From f5a54911e0cac64a8984855f0d04102817d26c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:32 +0000
Subject: [PATCH 31/44] fix: the samples of a path that was given twice were
 counted twice

---
 pibronic/pimc/pimc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index e919306..55a6523 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -856,6 +856,9 @@ class BoxResult:
         number_of_samples = 0
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
+        # the samples of a file must not be counted twice
+        list_of_paths = list(dict.fromkeys(list_of_paths))
+
         list_of_bad_paths = []
 
         for path in list_of_paths:
@@ -880,7 +883,7 @@ class BoxResult:
         assert not set(list_of_paths) == set()
 
         # okay now remove all the bad paths!
-        list_of_paths = list(set(list_of_paths) - set(list_of_bad_paths))
+        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
@@ -978,6 +981,9 @@ class BoxResultPM(BoxResult):
         number_of_samples = 0
         assert not len(list_of_paths) == 0, "list_of_paths cannot be empty"
 
+        # the samples of a file must not be counted twice
+        list_of_paths = list(dict.fromkeys(list_of_paths))
+
         list_of_bad_paths = []
 
         try:
@@ -1006,7 +1012,7 @@ class BoxResultPM(BoxResult):
         assert not set(list_of_paths) == set()
 
         # okay now remove all the bad paths!
-        list_of_paths = list(set(list_of_paths) - set(list_of_bad_paths))
+        list_of_paths = [path for path in list_of_paths if path not in list_of_bad_paths]
 
         assert len(list_of_paths) > 0, "none of the provided paths were good, i.e. none of them had all the required keys {}".format(self.key_list)
 
-- 
2.43.0


From d52f7155ab5a4b7fe237446f090da3ffecccd827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:32 +0000
Subject: [PATCH 32/44] fix: a job ignored a delta beta that was given as a
 whole number

---
 pibronic/pimc/pimc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/pimc/pimc.py b/pibronic/pimc/pimc.py
index 55a6523..2272e9a 100755
--- a/pibronic/pimc/pimc.py
+++ b/pibronic/pimc/pimc.py
@@ -576,7 +576,7 @@ class BoxData:
             self.tau = self.beta / self.beads
         # dumb hacks
         if SEP.dB.value in params.keys():
-            if type(params[SEP.dB.value]) is float:
+            if isinstance(params[SEP.dB.value], (int, float)):
                 self.delta_beta = params[SEP.dB.value]
 
         # fill the paths
-- 
2.43.0


From cba5cb1861f59b0a70bb7fe4b8163b9a3703b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:32 +0000
Subject: [PATCH 33/44] fix: half of the paths below a relative root depended
 on the working directory

---
 pibronic/data/file_structure.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index 961d5f4..f588500 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -79,14 +79,14 @@ class FileStructure:
         # special
         self.path_es = join(self.path_data, "electronic_structure")
         # sub directories
-        self.path_vib_params = join(path_root, self.template_vib_params.format(id_data))
-        self.path_vib_results = join(path_root, self.template_vib_results.format(id_data))
-        self.path_vib_output = join(path_root, self.template_vib_output.format(id_data))
-        self.path_vib_plots = join(path_root, self.template_vib_plots.format(id_data))
-        self.path_rho_params = join(path_root, self.template_rho_params.format(id_data, id_rho))
-        self.path_rho_results = join(path_root, self.template_rho_results.format(id_data, id_rho))
-        self.path_rho_output = join(path_root, self.template_rho_output.format(id_data, id_rho))
-        self.path_rho_plots = join(path_root, self.template_rho_plots.format(id_data, id_rho))
+        self.path_vib_params = join(self.path_root, self.template_vib_params.format(id_data))
+        self.path_vib_results = join(self.path_root, self.template_vib_results.format(id_data))
+        self.path_vib_output = join(self.path_root, self.template_vib_output.format(id_data))
+        self.path_vib_plots = join(self.path_root, self.template_vib_plots.format(id_data))
+        self.path_rho_params = join(self.path_root, self.template_rho_params.format(id_data, id_rho))
+        self.path_rho_results = join(self.path_root, self.template_rho_results.format(id_data, id_rho))
+        self.path_rho_output = join(self.path_root, self.template_rho_output.format(id_data, id_rho))
+        self.path_rho_plots = join(self.path_root, self.template_rho_plots.format(id_data, id_rho))
 
         # root_suffix = "D{:d}_R{:d}_".format(id_data, id_rho)
         # self.pimc_suffix = root_suffix + "P{P:d}_T{T:.2f}_J*_data_points.npz"
-- 
2.43.0


From 6b498825aa045a6fdd71931a1bdf96889ed541e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:32 +0000
Subject: [PATCH 34/44] fix: no electronic structure job could be submitted,
 the partition and host name were not defined

---
 pibronic/server/job_boss.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index a0e8ea7..e322f1e 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -25,9 +25,6 @@ from .. import pimc
 job_state_lock = threading.Lock()
 job_almost_done_flag = False
 
-# this should be redone
-# partition = 'highmem' if hostname == 'feynman' else 'serial'
-
 
 def get_path_to_python_executable():
     """returns the absolute path to the python executable currently executing this script"""
@@ -69,6 +66,15 @@ def get_hostname():
         raise Exception("Did not find ClusterName in the config data from scontrol!?")
 
 
+def __getattr__(name):
+    """the cluster's `hostname` and its default `partition` are looked up when they are needed, not when this is imported"""
+    if name == "hostname":
+        return get_hostname()
+    if name == "partition":
+        return 'highmem' if get_hostname() == 'feynman' else 'serial'
+    raise AttributeError(f"module {__name__!r} has no attribute {name!r}")
+
+
 def SIGUSR1_handle(signum, frame):
     """signal handler - uses job_state_lock to record signal using the bool job_almost_done_flag"""
     global job_almost_done_flag
-- 
2.43.0


From ad3f862f9c5b03e44ab394d30eec32af031731f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:13 +0000
Subject: [PATCH 35/44] fix: no plot could be made, matplotlib takes the latex
 preamble as a string

---
 pibronic/plotting/prepare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/prepare.py b/pibronic/plotting/prepare.py
index 0d90caa..1e7903b 100644
--- a/pibronic/plotting/prepare.py
+++ b/pibronic/plotting/prepare.py
@@ -26,7 +26,7 @@ def prepare_mpl_rc_file(pretty_but_slow=False):
         # mpl.rc('font', **{'family': 'serif', 'serif': ['Palatino']})
     mpl.rc('text', usetex=True)  # using LaTeX
     # we need to load the amsmath package to use the \text{} command
-    mpl.rcParams['text.latex.preamble'] = [r'\usepackage{amsmath}']
+    mpl.rcParams['text.latex.preamble'] = r'\usepackage{amsmath}'
     return
 
 
-- 
2.43.0


From c7238ee194b4c52cc235f0a04c166a83dda4a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:13 +0000
Subject: [PATCH 36/44] fix: the heat capacity could not be plotted,
 plot_Z_test has no generate_tau_values

---
 pibronic/plotting/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index 2d8d1d9..c407254 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -1099,7 +1099,7 @@ class plot_Z_test(plotVirtual):
         # print Cv values
         for T in self.lst_T[idx_FS]:
             idx_T = self.lst_T[idx_FS].index(T)
-            tau_values = self.generate_tau_values(T)
+            tau_values = generate_tau_values(self, T, idx_FS)
             for X in self.lst_X[idx_FS]:
                 idx_X = self.lst_X[idx_FS].index(X)
 
-- 
2.43.0


From 6519a0a56a9b347d0ce81e6f946033c7f76c453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:13 +0000
Subject: [PATCH 37/44] fix: results of more than one temperature could not be
 plotted, there was one axis only

---
 pibronic/plotting/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index c407254..beb64fb 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -358,7 +358,7 @@ class plot_original_Z_test(plotVirtual):
         return tau_arr
 
     def plot_Z(self):
-        fig, ax = plt.subplots(1, 1)
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1)
 
         # HACKY - this won't work anymore with the nested lists
         if len(self.lst_T[0]) is 1:
@@ -1022,7 +1022,7 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_Z(self):
-        fig, ax = plt.subplots(1, 1)
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1)
 
         # HACKY - this won't work anymore with the nested lists
         if len(self.lst_T[0]) is 1:
@@ -1055,7 +1055,7 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_E(self):
-        fig, ax = plt.subplots(1, 1)
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1)
 
         # HACKY - this won't work anymore with the nested lists
         if len(self.lst_T[0]) is 1:
@@ -1088,7 +1088,7 @@ class plot_Z_test(plotVirtual):
         return
 
     def plot_Cv(self):
-        fig, ax = plt.subplots(1, 1)
+        fig, ax = plt.subplots(max(1, len(self.lst_T[0])), 1)
 
         # HACKY - this won't work anymore with the nested lists
         if len(self.lst_T[0]) is 1:
-- 
2.43.0


From a4d4fd2ee76d5bab0f80a44545a17c5dc4428ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:02 +0000
Subject: [PATCH 38/44] fix: the monotonic sequence could not be generated for
 plotting, the order was not passed on

---
 pibronic/vibronic/orthonormal/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pibronic/vibronic/orthonormal/sequences.py b/pibronic/vibronic/orthonormal/sequences.py
index 9cb1338..a3956a1 100755
--- a/pibronic/vibronic/orthonormal/sequences.py
+++ b/pibronic/vibronic/orthonormal/sequences.py
@@ -322,7 +322,7 @@ def generate_full_monotonic_sequence_for_plotting(order):
     p_list = list_of_turning_points(SKSM, identity)
 
     # first we generate the x pairs and save them to a file
-    x_pairs = generate_and_save_x_pairs(p_list)
+    x_pairs = generate_and_save_x_pairs(order, p_list)
     max_x = p_list[-1].x
 
     diff = difference_function(SKSM, identity)
-- 
2.43.0


From 72215f55ee024644d3c30894a2d5f992d4d80190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 39/44] fix: results below a root with brackets or braces in
 its name were not found

---
 pibronic/data/file_structure.py | 21 +++++++++++++--------
 pibronic/data/postprocessing.py | 12 +++++++-----
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/pibronic/data/file_structure.py b/pibronic/data/file_structure.py
index f588500..80c738a 100755
--- a/pibronic/data/file_structure.py
+++ b/pibronic/data/file_structure.py
@@ -93,11 +93,11 @@ class FileStructure:
         # self.jackknife_suffix = root_suffix + "P{P:d}_T{T:.2f}_X{X:d}_thermo"
 
         # can't use os.path.join on these because they are format strings that haven't been fully resolved yet
-        self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
-        self.template_jackknife = self.path_rho_results + file_name.jackknife()
-        self.template_sos_rho = self.path_rho_params + file_name.sos()
-        self.template_sos_vib = self.path_vib_params + file_name.sos()
-        self.template_trotter_vib = self.path_vib_params + file_name.trotter()
+        self.template_pimc = self._literal(self.path_rho_results) + file_name.pimc(J="{J:s}")
+        self.template_jackknife = self._literal(self.path_rho_results) + file_name.jackknife()
+        self.template_sos_rho = self._literal(self.path_rho_params) + file_name.sos()
+        self.template_sos_vib = self._literal(self.path_vib_params) + file_name.sos()
+        self.template_trotter_vib = self._literal(self.path_vib_params) + file_name.trotter()
 
         # TODO - should we factor this out into the file_name module?
         # self.template_pimc = file_name.pimc
@@ -137,6 +137,11 @@ class FileStructure:
 
         return
 
+    @staticmethod
+    def _literal(path):
+        """ a path that is part of a format string stands for itself, even if it contains curly braces """
+        return path.replace("{", "{{").replace("}", "}}")
+
     def directories_exist(self):
         """x"""
         if False in map(os.path.isdir, [getattr(self, directory) for directory in self.dir_list]):
@@ -188,9 +193,9 @@ class FileStructure:
                                    self.template_rho_plots.format(self.id_data, id_rho))
 
         #
-        self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
-        self.template_jackknife = self.path_rho_results + file_name.jackknife()
-        self.template_sos_rho = self.path_rho_params + file_name.sos()
+        self.template_pimc = self._literal(self.path_rho_results) + file_name.pimc(J="{J:s}")
+        self.template_jackknife = self._literal(self.path_rho_results) + file_name.jackknife()
+        self.template_sos_rho = self._literal(self.path_rho_params) + file_name.sos()
 
         # TODO - now we can't reliably update the self.dir_list
         # should have a mode modular way of doing this
diff --git a/pibronic/data/postprocessing.py b/pibronic/data/postprocessing.py
index 9f30d25..29c33dd 100755
--- a/pibronic/data/postprocessing.py
+++ b/pibronic/data/postprocessing.py
@@ -47,25 +47,25 @@ from ..data import file_name
 
 def retrive_pimc_file_list(FS):
     """return a list of the full path to each pimc file that might be used"""
-    globPath = FS.path_rho_results + file_name.pimc(P="*", T="*", J="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.pimc(P="*", T="*", J="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_jackknife_file_list(FS):
     """return a list of the full path to each jackknife file that might be used"""
-    globPath = FS.path_rho_results + file_name.jackknife(P="*", T="*", X="*")
+    globPath = glob.escape(FS.path_rho_results) + file_name.jackknife(P="*", T="*", X="*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_coupled_file_list(FS, B="*"):
     """return a list of the full path to each sos(coupled) file that might be used"""
-    globPath = FS.path_vib_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_vib_params) + file_name.sos("*")
     return [file for file in glob.glob(globPath)]
 
 
 def retrive_sos_sampling_file_list(FS, B="*"):
     """return a list of the full path to each sos(sampling) file that might be used"""
-    globPath = FS.path_rho_params + file_name.sos("*")
+    globPath = glob.escape(FS.path_rho_params) + file_name.sos("*")
     return [file for file in glob.glob(globPath)]
 
 
@@ -301,7 +301,9 @@ def load_pimc_data(FS, P, T, pimc_results):
     currently solved by:
         self.template_pimc = self.path_rho_results + file_name.pimc(J="{J:s}")
     """
-    path_data_points = FS.template_pimc.format(P=P, T=T, J="*")
+    # only the job number is a wild card, the directories stand for themselves
+    directory, name = os.path.split(FS.template_pimc.format(P=P, T=T, J="*"))
+    path_data_points = join(glob.escape(directory), name)
     list_of_files = [file for file in glob.glob(path_data_points)]
     # results which belong to an older version of either model must not be mixed in
     FS.generate_model_hashes()
-- 
2.43.0


From cac89013769d5249d468e1d3306fbbf684f458c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 40/44] fix: no .h file could be read, and modes which share a
 frequency got the linear terms of the first one

---
 pibronic/vibronic/model_h.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pibronic/vibronic/model_h.py b/pibronic/vibronic/model_h.py
index f285ac5..7cf52f5 100755
--- a/pibronic/vibronic/model_h.py
+++ b/pibronic/vibronic/model_h.py
@@ -126,7 +126,8 @@ def extract_linear_couplings(path, memmap, coupling_terms, frequencies):
 
     for idx, w in enumerate(frequencies):
         # find the next block of linear coupling_terms terms
-        next_block = memmap.find(str(w).encode(encoding="utf-8"), begin, end)
+        # continue behind the previous block, modes may have the same frequency
+        next_block = memmap.find(str(w).encode(encoding="utf-8"), memmap.tell(), end)
         # error handling
         if next_block == -1:
             s = ("Frequency {:f} in wavenumber_freq did not match any "
@@ -260,9 +261,9 @@ def read_model_h_file(path_file_h):
         global numModes, numStates
         global Modes, States
 
-        numStates = get_number_of_electronic_states(source_file)
+        numStates = get_number_of_electronic_states(path_file_params, source_file)
         States = range(numStates)
-        numModes, numSymmetricModes = get_number_of_normal_modes(source_file)
+        numModes, numSymmetricModes = get_number_of_normal_modes(path_file_params, source_file)
         Modes = range(numModes)
 
         # for readability and clarity we use these letters
@@ -280,7 +281,7 @@ def read_model_h_file(path_file_h):
         linear_couplings = np.zeros(size['NAA'])
         quadratic_couplings = np.zeros(size['NNAA'])
 
-        extract_normal_mode_frequencies(source_file, frequencies, numSymmetricModes)
+        extract_normal_mode_frequencies(path_file_params, source_file, frequencies, numSymmetricModes)
 
         # convert to wavenumers up to 2 decimal places
         wavenumber_freq = np.around(frequencies * 8065.5, decimals=2)
@@ -290,8 +291,8 @@ def read_model_h_file(path_file_h):
     with open(path_file_h, "r+b") as source_file:
         # access the file using memory map for efficiency
         with mmap.mmap(source_file.fileno(), 0, prot=mmap.PROT_READ) as mm:
-            extract_energies(path_file_h, mm, excitation_energies, frequencies)
-            extract_linear_couplings(path_file_h, mm, wavenumber_freq, linear_couplings, frequencies)
+            extract_energies(path_file_h, mm, excitation_energies)
+            extract_linear_couplings(path_file_h, mm, linear_couplings, wavenumber_freq)
             # extract_quadratic_couplings(path_file_h, mm, wavenumber_freq, quadratic_couplings, frequencies)
             # extract_offdiag_quadratic_couplings(path_file_h, mm, wavenumber_freq, quadratic_couplings, frequencies)
             # extract_cubic_couplings(path_file_h, mm, wavenumber_freq, cubic_couplings, frequencies)
-- 
2.43.0


From 512e7877758ca93211ad2b78d21375160652df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 41/44] fix: a model with an empty state file was reported with
 the state of another model

---
 pibronic/vibronic/electronic_structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index ee874be..f5e2e4b 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -209,8 +209,9 @@ def pretty_print_job_status(path=None):
         if isfile(path_file_state):
             with open(path_file_state, 'r') as file:
                 lines = file.readlines()
+            last_state = "not recorded"  # the file may be empty
             for line in reversed(lines):
-                if line in ["", "\n"]:
+                if line.strip() == "":
                     continue
                 last_state = str(line.strip())
                 break
-- 
2.43.0


From becaa43bf14aef80da3e22c643465416a9ee461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 42/44] fix: load_sos compared a data set without a
 sum-over-states file with the previous data set's results

---
 pibronic/plotting/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pibronic/plotting/plotting.py b/pibronic/plotting/plotting.py
index beb64fb..2d840be 100755
--- a/pibronic/plotting/plotting.py
+++ b/pibronic/plotting/plotting.py
@@ -66,9 +66,8 @@ def load_sos(self, basis_size=80):
     for idx_FS, FS in enumerate(self.FS_lst):
         path = FS.template_sos_vib.format(B=basis_size)
 
-        if os.path.isfile(path):
-            with open(path, 'r') as file:
-                data = json.loads(file.read())
+        with open(path, 'r') as file:
+            data = json.loads(file.read())
 
         for T in self.lst_T[idx_FS]:
             self.sos_list[idx_FS][f"{T:.2f}"] = data[f"{T:.2f}"]
-- 
2.43.0


From a87821e313b83c99f3fbf91890191d7001690a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 43/44] fix: a partition was taken as listed when its name is
 part of the name of another one

---
 pibronic/server/job_boss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pibronic/server/job_boss.py b/pibronic/server/job_boss.py
index e322f1e..5768573 100755
--- a/pibronic/server/job_boss.py
+++ b/pibronic/server/job_boss.py
@@ -210,7 +210,9 @@ def assert_partition_exists(partition_name):
     cmd = ['sinfo', '-O', 'partition']
     result = subprocess_run_wrapper(cmd)
     assert partition_name is not None, "The partition string is None?"
-    assert partition_name in result.stdout, f"Partition {partition_name} is not present in {result.stdout}"
+    # sinfo marks the default partition with an asterisk
+    listed_partitions = [name.rstrip('*') for name in result.stdout.split()]
+    assert partition_name in listed_partitions, f"Partition {partition_name} is not present in {result.stdout}"
     return
 
 
-- 
2.43.0


From 6200a90f9d089c6791e441606c9f6c9a7998369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 44/44] fix: numerical settings of a parameter file are
 integers, as the vibron preparation formats them

---
 pibronic/vibronic/electronic_structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pibronic/vibronic/electronic_structure.py b/pibronic/vibronic/electronic_structure.py
index f5e2e4b..c3be26b 100755
--- a/pibronic/vibronic/electronic_structure.py
+++ b/pibronic/vibronic/electronic_structure.py
@@ -1563,6 +1563,10 @@ class VibronExecutionClass:
                             s = "Header {:s} is not valid\n Check that your {:s} has the correct formatting"
                             raise ValueError(s.format(header, file_path))
 
+                        # the numerical settings are formatted as integers
+                        if isinstance(self.parameter_dictionary[header], int):
+                            data = int(data)
+
                         self.parameter_dictionary[header] = data
 
         except ValueError as error_object:
-- 
2.43.0

