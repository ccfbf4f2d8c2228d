From 026b2c4727921424b8e5f8d78e0d3eca60fb7b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 01/48] fix: spectral Frechet derivative for complex
 eigenvectors, degenerate eigenvalues and non-normal matrices

---
 qopt/matrix.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index c77968d..4d4a675 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1041,26 +1041,31 @@ class DenseOperator(OperatorMatrix):
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
 
-        eig_vec_dag = eig_vec.conj().T
+        if is_skew_hermitian:
+            eig_vec_inv = eig_vec.conj().T
+        else:
+            # the eigenvectors of a general matrix are not orthogonal
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
         eig_val_diffs = eig_val_cols - eig_val_cols.T
 
-        # avoid devision by zero
-        eig_val_diffs += np.eye(self.data.shape[0])
+        # avoid division by zero for degenerate eigenvalues
+        degenerate = eig_val_diffs == 0
+        eig_val_diffs[degenerate] = 1
 
-        omega = (np.exp(eig_val_diffs * tau) - 1.) / eig_val_diffs
+        omega = np.expm1(eig_val_diffs * tau) / eig_val_diffs
 
-        # override the false diagonal elements.
-        np.fill_diagonal(omega, tau)
+        # override the false diagonal and degenerate elements.
+        omega[degenerate] = tau
 
-        direction_transformed = eig_vec @ direction.data @ eig_vec_dag
+        direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec_dag)
+                        eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec_dag @ dk_dalpha @ eig_vec
+        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
         du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
-- 
2.43.0


From 54cfbd79710612b997535820effd7180f6e5d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 02/48] fix: spectral matrix exponential of non-normal matrices
 inverts the eigenvector matrix

---
 qopt/matrix.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 4d4a675..e60308d 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -995,10 +995,16 @@ class DenseOperator(OperatorMatrix):
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
 
+        if is_skew_hermitian:
+            eig_vec_inv = eig_vec.conj().T
+        else:
+            # the eigenvectors of a general matrix are not orthogonal
+            eig_vec_inv = np.linalg.inv(eig_vec)
+
         # apply the exponential function to the eigenvalues and invert the
         # diagonalization transformation
-        exp = np.einsum('ij,j,kj->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec.conj())
+        exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
+                        eig_vec_inv)
 
         return DenseOperator(exp)
 
-- 
2.43.0


From 3bab004de3d1d15d574a61d8df2749f69344b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 03/48] fix: truncate_to_subspace recognises kets and
 normalises with a valid norm

---
 qopt/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index e60308d..41869dd 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1306,12 +1306,12 @@ class DenseOperator(OperatorMatrix):
             # bra-vector
             out = type(self)(self.data[np.ix_([0], subspace_indices)])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
-        elif self.shape[0] == 1:
+                out *= 1 / out.norm('fro')
+        elif self.shape[1] == 1:
             # ket-vector
             out = type(self)(self.data[np.ix_(subspace_indices, [0])])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
+                out *= 1 / out.norm('fro')
         else:
             out = type(self)(self.data[np.ix_(subspace_indices)])
 
-- 
2.43.0


From 613b54604eee37e3a92f82cc987f31c053b8b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 04/48] fix: DenseOperator can be constructed from the Qobj of
 current qutip versions

---
 qopt/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 41869dd..3d3f168 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -702,7 +702,7 @@ class DenseOperator(OperatorMatrix):
         super().__init__()
         self.data = None
         if type(obj) is Qobj:
-            self.data = np.array(obj.data.todense())
+            self.data = np.array(obj.full())
         elif type(obj) is np.ndarray:
             self.data = obj
         elif type(obj) is sp.csr_matrix:
-- 
2.43.0


From f38e32191cf99f7522b999f54c88ea05c08d70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:31 +0000
Subject: [PATCH 05/48] fix: multiplying a numpy array from the left with a
 DenseOperator yields the matrix product

---
 qopt/matrix.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 3d3f168..c10762b 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -695,6 +695,9 @@ class DenseOperator(OperatorMatrix):
 
     """
 
+    # numpy arrays leave the multiplication from the left to __rmul__
+    __array_priority__ = 1000
+
     def __init__(
             self,
             obj: Union[Qobj, np.ndarray, sp.csr_matrix, 'DenseOperator']) \
@@ -755,11 +758,11 @@ class DenseOperator(OperatorMatrix):
     def __rmul__(self, other: Union['DenseOperator', complex, float, int,
                                     np.generic]) -> 'DenseOperator':
         """See base class. """
-        if type(other) == np.ndarray:
+        if type(other) == np.ndarray and other.ndim > 0:
             out = DenseOperator(np.matmul(other, self.data))
-        elif type(other) in VALID_SCALARS:
+        elif type(other) in VALID_SCALARS or type(other) == np.ndarray:
             out = self.copy()
-            out *= other
+            out.data *= other
         else:
             raise NotImplementedError(str(type(other)))
         return out
-- 
2.43.0


From 3e43a37e6f1917ff31788b742dbd0d8e205123bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 06/48] fix: the solver only skips a pulse that is validly set,
 copies it and recomputes it after set_times

---
 qopt/solver_algorithms.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 5ce5f68..b2a2660 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -285,6 +285,8 @@ class Solver(ABC):
         self.h_ctrl = h_ctrl
         self._ctrl_amps = ctrl_amps
         self._opt_pars = opt_pars
+        # True if the control amplitudes belong to the optimization parameters
+        self._pulse_is_set = False
 
         if initial_state is None:
             dim = self.h_ctrl[0].shape[0]
@@ -351,6 +353,8 @@ class Solver(ABC):
             Durations of the time slices.
 
         """
+        # the transferred parameters can depend on the times
+        self._pulse_is_set = False
         self.transfer_function.set_times(tau)
         self.transferred_time = self.transfer_function.x_times
         self.reset_cached_propagators()
@@ -371,21 +375,21 @@ class Solver(ABC):
 
         """
 
-        if np.array_equal(self._opt_pars, y):
+        if self._pulse_is_set and np.array_equal(self._opt_pars, y):
             return
-        else:
-            self._opt_pars = np.copy(y)
+
+        # The solver keeps its own copy, because the caller might reuse y.
+        opt_pars = np.copy(y)
 
         if self.transfer_function is not None:
-            self.transferred_parameters = self.transfer_function(y)
+            transferred_parameters = self.transfer_function(np.copy(opt_pars))
         else:
-            self.transferred_parameters = np.copy(y)
+            transferred_parameters = np.copy(opt_pars)
 
         if self.amplitude_function is not None:
-            u = self.amplitude_function(
-                self.transferred_parameters)
+            u = self.amplitude_function(transferred_parameters)
         else:
-            u = self.transferred_parameters
+            u = transferred_parameters
 
         if len(u.shape) != 2:
             raise ValueError('The new control amplitudes must have two '
@@ -400,8 +404,14 @@ class Solver(ABC):
             raise ValueError('The new control amplitudes do not have the '
                              'correnct number of entries on the control axis!')
 
+        # only a valid pulse is stored, and it only counts as set once every
+        # quantity belongs to it.
+        self._pulse_is_set = False
+        self._opt_pars = opt_pars
+        self.transferred_parameters = transferred_parameters
         self._ctrl_amps = u
         self.reset_cached_propagators()
+        self._pulse_is_set = True
 
     def reset_cached_propagators(self):
         """ Resets all cached propagators. """
@@ -873,8 +883,6 @@ class SchroedingerSolver(Solver):
 
     def set_optimization_parameters(self, y: np.array) -> None:
         """See base class. """
-        if not np.array_equal(self._opt_pars, y):
-            self.reset_cached_propagators()
         super().set_optimization_parameters(y)
 
     def reset_cached_propagators(self):
@@ -1160,8 +1168,6 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
 
     def set_optimization_parameters(self, y: np.array) -> None:
         """See base class. """
-        if not np.array_equal(self._opt_pars, y):
-            self.reset_cached_propagators()
         super().set_optimization_parameters(y)
 
     def reset_cached_propagators(self):
@@ -1860,9 +1866,7 @@ class LindbladSolver(SchroedingerSolver):
 
     def set_optimization_parameters(self, y: np.array) -> None:
         """See base class. """
-        if not np.array_equal(self._opt_pars, y):
-            super().set_optimization_parameters(y)
-            self.reset_cached_propagators()
+        super().set_optimization_parameters(y)
 
     def reset_cached_propagators(self):
         """ See base class. """
-- 
2.43.0


From 48edb056dcf738fb12c4bc1ffdb22c62923cb0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 07/48] fix: interrupted evaluations leave no partial results
 in the solver caches, and dissipators are not altered in place

---
 qopt/solver_algorithms.py | 110 ++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 47 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index b2a2660..bac503d 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -643,9 +643,11 @@ class Solver(ABC):
         """Computes the forward propagators. """
         if self._prop is None:
             self._compute_propagation()
-        self._fwd_prop = [self.initial_state.copy(), ]
+        # cache only complete results
+        fwd_prop = [self.initial_state.copy(), ]
         for prop in self._prop:
-            self._fwd_prop.append(prop * self._fwd_prop[-1])
+            fwd_prop.append(prop * fwd_prop[-1])
+        self._fwd_prop = fwd_prop
 
     def _compute_reversed_propagation(self) -> None:
         """Compute the reversed propagation. """
@@ -653,18 +655,19 @@ class Solver(ABC):
             self._compute_propagation()
 
         if type(self.initial_state) == matrix.DenseOperator:
-            self._reversed_prop = [matrix.DenseOperator(
+            reversed_prop = [matrix.DenseOperator(
                 np.eye(self._prop[0].shape[0])) * (1 + 0j), ]
         elif type(self.initial_state) == matrix.SparseOperator:
             raise NotImplementedError
-            # self._reversed_prop = [matrix.SparseOperator(
+            # reversed_prop = [matrix.SparseOperator(
             #    np.eye(self._prop[0].shape[0])) * (1 + 0j), ]
         else:
             raise TypeError("The initial state should be either a dense or "
                             "sparse control matrix.")
 
         for prop in self._prop[::-1]:
-            self._reversed_prop.append(self._reversed_prop[-1] * prop)
+            reversed_prop.append(reversed_prop[-1] * prop)
+        self._reversed_prop = reversed_prop
 
     @abstractmethod
     def _compute_propagation_derivatives(self) -> None:
@@ -900,12 +903,12 @@ class SchroedingerSolver(Solver):
             This is basically the total Hamiltonian.
 
         """
-        self._dyn_gen = [-1j * h for h in self.h_drift]
+        dyn_gens = [-1j * h for h in self.h_drift]
         for ctrl, ctrl_op in enumerate(self.h_ctrl):
             for dyn_gen, ctrl_amp in \
-                    zip(self._dyn_gen, self._ctrl_amps[:, ctrl]):
+                    zip(dyn_gens, self._ctrl_amps[:, ctrl]):
                 dyn_gen += -1j * ctrl_amp * ctrl_op
-        return self._dyn_gen
+        return dyn_gens
 
     def _compute_derivative_directions(
             self) -> List[List[q_mat.OperatorMatrix]]:
@@ -933,18 +936,18 @@ class SchroedingerSolver(Solver):
             calculate_propagator_derivatives = \
                 self.calculate_propagator_derivatives
 
-        # initialize the attributes
-        self._prop = [None for _ in range(len(self.transferred_time))]
+        # cache only complete results
+        new_prop = [None for _ in range(len(self.transferred_time))]
 
         if calculate_propagator_derivatives:
             derivative_directions = self._compute_derivative_directions()
-            self._derivative_prop = [
+            new_derivative_prop = [
                 [None for _ in range(len(self.transferred_time))]
                 for _2 in range(len(self.h_ctrl))]
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
                     try:
-                        self._prop[t], self._derivative_prop[ctrl][t] \
+                        new_prop[t], new_derivative_prop[ctrl][t] \
                             = self._dyn_gen[t].dexp(
                             derivative_directions[t][ctrl],
                             self.transferred_time[t],
@@ -954,11 +957,13 @@ class SchroedingerSolver(Solver):
                         raise ValueError('The computation has failed with '
                                          'a value error. Try another '
                                          'exponentiation method.')
+            self._derivative_prop = new_derivative_prop
         else:
             for t in range(len(self.transferred_time)):
-                self._prop[t] = self._dyn_gen[t].exp(
+                new_prop[t] = self._dyn_gen[t].exp(
                     tau=self.transferred_time[t], method=self.exponential_method,
                     is_skew_hermitian=self._is_skew_hermitian)
+        self._prop = new_prop
 
     def _compute_propagation_derivatives(self) -> None:
         """
@@ -974,14 +979,15 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            self._derivative_prop = [[None for _ in range(len(self.h_ctrl))]
-                                     for _2 in range(len(self.transferred_time))]
+            derivative_prop = [[None for _ in range(len(self.h_ctrl))]
+                               for _2 in range(len(self.transferred_time))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    self._derivative_prop[t][ctrl] = \
+                    derivative_prop[t][ctrl] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
+            self._derivative_prop = derivative_prop
         else:
             raise ValueError('Unknown gradient derivative approximation '
                              'method:'
@@ -1272,7 +1278,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
 
         """
         # compute the generators of the unperturbed dynamics
-        self._dyn_gen = super()._compute_dyn_gen()
+        self._dyn_gen = self._compute_dyn_gen()
 
         # compute the generators for the noise traces.
         n_noise_traces = self.noise_trace_generator.n_traces
@@ -1289,15 +1295,15 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                 control_amplitudes=self._ctrl_amps
             )
 
-        self._dyn_gen_noise = [[dyn_gen.copy() for dyn_gen in self._dyn_gen]
-                               for _ in range(n_noise_traces)]
+        dyn_gen_noise = [[dyn_gen.copy() for dyn_gen in self._dyn_gen]
+                         for _ in range(n_noise_traces)]
 
         for t, sample_stack in enumerate(noise_samples):
             for n_trace, trace in enumerate(sample_stack):
                 for operator_sample, operator in zip(trace, self.h_noise):
-                    self._dyn_gen_noise[n_trace][t] += \
+                    dyn_gen_noise[n_trace][t] += \
                         (-1j * operator_sample) * operator
-        return self._dyn_gen_noise
+        return dyn_gen_noise
 
     def _compute_propagation(
             self, calculate_propagator_derivatives: Optional[bool] = None
@@ -1321,8 +1327,9 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         num_t = len(self.transferred_time)
         num_ctrl = len(self.h_ctrl)
 
-        self._prop_noise = [[None for _ in range(num_t)]
-                            for _2 in range(n_noise_traces)]
+        # cache only complete results
+        new_prop_noise = [[None for _ in range(num_t)]
+                          for _2 in range(n_noise_traces)]
 
         if calculate_propagator_derivatives is None:
             calculate_propagator_derivatives = \
@@ -1330,7 +1337,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
 
         # parallelization of following code probably unnecessary
         if calculate_propagator_derivatives:
-            self._derivative_prop_noise = \
+            new_derivative_prop_noise = \
                 [[[None for _ in range(num_t)]
                   for _2 in range(num_ctrl)]
                  for _3 in range(n_noise_traces)]
@@ -1345,8 +1352,8 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                 for k in range(n_noise_traces):
                     for t in range(num_t):
                         for ctrl in range(len(self.h_ctrl)):
-                            self._prop_noise[k][t], \
-                                self._derivative_prop_noise[k][ctrl][t] \
+                            new_prop_noise[k][t], \
+                                new_derivative_prop_noise[k][ctrl][t] \
                                 = self._dyn_gen_noise[k][t].dexp(
                                 derivative_directions[t][ctrl],
                                 self.transferred_time[t],
@@ -1356,7 +1363,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             else:
                 for k in range(n_noise_traces):
                     for t in range(num_t):
-                        self._prop_noise[k][t] = self._dyn_gen_noise[k][t].exp(
+                        new_prop_noise[k][t] = self._dyn_gen_noise[k][t].exp(
                             tau=self.transferred_time[t],
                             method=self.exponential_method,
                             is_skew_hermitian=self._is_skew_hermitian)
@@ -1377,27 +1384,33 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                         'is_skew_hermitian'] = self._is_skew_hermitian
 
                 with Pool(processes=self.processes) as pool:
-                    self._prop_noise = pool.map(
+                    new_prop_noise = pool.map(
                         _compute_matrix_exponentials, input_dicts)
 
         else:
             raise ValueError('Invalid number of processes for parallel '
                              'computation!')
 
+        if calculate_propagator_derivatives:
+            self._derivative_prop_noise = new_derivative_prop_noise
+        self._prop_noise = new_prop_noise
+
     def _compute_forward_propagation(self) -> None:
         """Computes the forward propagators. """
         super()._compute_forward_propagation()
         if self._prop_noise is None:
             self._compute_propagation()
 
-        self._fwd_prop_noise = [
+        # cache only complete results
+        fwd_prop_noise = [
             [self.initial_state.copy(), ]
             for _ in range(self.noise_trace_generator.n_traces)]
 
-        for fwd_per_trace, prop_per_trace in zip(self._fwd_prop_noise,
+        for fwd_per_trace, prop_per_trace in zip(fwd_prop_noise,
                                                  self._prop_noise):
             for prop in prop_per_trace:
                 fwd_per_trace.append(prop * fwd_per_trace[-1])
+        self._fwd_prop_noise = fwd_prop_noise
 
     def _compute_reversed_propagation(self) -> None:
         """Compute the reversed propagation. For the perturbed and unperturbed
@@ -1406,14 +1419,16 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         if self._prop_noise is None:
             self._compute_propagation()
 
-        self._reversed_prop_noise = [
+        # cache only complete results
+        reversed_prop_noise = [
             [self._prop[0].identity_like(), ]
             for _ in range(self.noise_trace_generator.n_traces)]
 
-        for rev_per_trace, prop_per_trace in zip(self._reversed_prop_noise,
+        for rev_per_trace, prop_per_trace in zip(reversed_prop_noise,
                                                  self._prop_noise):
             for prop in prop_per_trace[::-1]:
                 rev_per_trace.append(rev_per_trace[-1] * prop)
+        self._reversed_prop_noise = reversed_prop_noise
 
     def _compute_propagation_derivatives(self) -> None:
         """
@@ -1436,7 +1451,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             num_t = len(self.transferred_time)
             num_ctrl = len(self.h_ctrl)
 
-            self._derivative_prop_noise = [
+            derivative_prop_noise = [
                 [[None for _ in range(num_t)]
                  for _2 in range(num_ctrl)]
                 for _3 in range(n_noise_traces)]
@@ -1446,9 +1461,10 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
             for k in range(n_noise_traces):
                 for t in range(len(self.transferred_time)):
                     for ctrl in range(num_ctrl):
-                        self._derivative_prop_noise[k][ctrl][t] = \
+                        derivative_prop_noise[k][ctrl][t] = \
                             self.transferred_time[t] * derivative_directions[t][ctrl] \
                             * self._prop_noise[k][t]
+            self._derivative_prop_noise = derivative_prop_noise
         else:
             raise ValueError('Unknown gradient derivative approximation '
                              'method:'
@@ -1910,27 +1926,28 @@ class LindbladSolver(SchroedingerSolver):
 
             # Add the time dependence
             if self._prefactor_function is not None:
-                self._diss_sup_op = []
+                diss_sup_op = []
                 prefactors = self._prefactor_function(
                     copy.deepcopy(self._ctrl_amps),
                     copy.deepcopy(self.transferred_parameters))
                 for factor_at_time_t in prefactors:
-                    self._diss_sup_op.append(
+                    diss_sup_op.append(
                         const_diss_sup_op[0] * factor_at_time_t[0])
                     for sup_op, factor \
                             in zip(const_diss_sup_op[1:],
                                    factor_at_time_t[1:]):
-                        self._diss_sup_op[-1] += sup_op * factor
+                        diss_sup_op[-1] += sup_op * factor
             else:
-                self._diss_sup_op = [const_diss_sup_op[0], ]
+                # the given operators must not be altered in place
+                diss_sup_op = [const_diss_sup_op[0].copy(), ]
                 for sup_op in const_diss_sup_op[1:]:
-                    self._diss_sup_op[0] += sup_op
-                self._diss_sup_op *= len(self.transferred_time)
+                    diss_sup_op[0] += sup_op
+                diss_sup_op *= len(self.transferred_time)
         else:
-            self._diss_sup_op = self._sup_op_func(
+            diss_sup_op = self._sup_op_func(
                 copy.deepcopy(self._ctrl_amps),
                 copy.deepcopy(self.transferred_parameters))
-        return self._diss_sup_op
+        return diss_sup_op
 
     def _calc_diss_sup_op_deriv(self) \
             -> Optional[List[List[q_mat.OperatorMatrix]]]:
@@ -2087,17 +2104,17 @@ class LindbladSolver(SchroedingerSolver):
             matrices.
 
         """
-        self._dyn_gen = super()._compute_dyn_gen()
+        dyn_gens = super()._compute_dyn_gen()
 
         if self._diss_sup_op is None:
             self._diss_sup_op = self._calc_diss_sup_op()
 
-        identiy_operator = self._dyn_gen[0].identity_like()
+        identiy_operator = dyn_gens[0].identity_like()
         sup_op_dyn_gen = []
 
-        assert(len(self._dyn_gen) == len(self._diss_sup_op))
+        assert(len(dyn_gens) == len(self._diss_sup_op))
 
-        for dyn_gen, diss_sup_op in zip(self._dyn_gen, self._diss_sup_op):
+        for dyn_gen, diss_sup_op in zip(dyn_gens, self._diss_sup_op):
             sup_op_dyn_gen.append(identiy_operator.kron(dyn_gen))
             # the cancelling minus sign accounts for the -i factor, which is
             # also conjugated (included in the dyn gen)
@@ -2105,7 +2122,6 @@ class LindbladSolver(SchroedingerSolver):
                 identiy_operator)
             sup_op_dyn_gen[-1] += diss_sup_op
 
-        self._dyn_gen = sup_op_dyn_gen
         return sup_op_dyn_gen
 
 
-- 
2.43.0


From 7987912f4740cba02bb06f205175af140a0a4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 08/48] fix: grape approximated derivatives of the
 SchroedingerSolver are indexed by control first

---
 qopt/solver_algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index bac503d..963dbeb 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -979,12 +979,12 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            derivative_prop = [[None for _ in range(len(self.h_ctrl))]
-                               for _2 in range(len(self.transferred_time))]
+            derivative_prop = [[None for _ in range(len(self.transferred_time))]
+                               for _2 in range(len(self.h_ctrl))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    derivative_prop[t][ctrl] = \
+                    derivative_prop[ctrl][t] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
             self._derivative_prop = derivative_prop
-- 
2.43.0


From 4c5d9ae2d5c5ff4b91d88140962b7bba75fd4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 09/48] fix: the Monte Carlo solver calls filter_function_h_n
 with the documented arguments and stores the noise operator order

---
 qopt/solver_algorithms.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 963dbeb..f420614 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1488,7 +1488,13 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         if type(self._filter_function_h_n) == list:
             h_n = self._filter_function_h_n
         else:
-            h_n = self._filter_function_h_n(self._opt_pars)
+            try:
+                h_n = self._filter_function_h_n(
+                    self._opt_pars, self.transferred_parameters,
+                    self._ctrl_amps)
+            except TypeError:
+                # old interface
+                h_n = self._filter_function_h_n(self._opt_pars)
 
         if not h_n:
             h_n = []
@@ -1497,6 +1503,9 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                     noise_operator = noise_operator.data
                 h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
 
+        # we store the order of the noise operators as in the base class
+        self.filter_function_n_oper_identifiers = [
+            noise_term[2] for noise_term in h_n]
         return h_n
 
 
-- 
2.43.0


From 3d26414ce17154d090800e3c9a10248e7a08dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 10/48] fix: create_pulse_sequence always builds the sequence
 of the current pulse

---
 qopt/solver_algorithms.py | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index f420614..5e7b2e1 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -676,12 +676,12 @@ class Solver(ABC):
         """
         pass
 
-    def _diagonalize_and_propagate_pulse_sequence(self) -> None:
+    def _diagonalize_and_propagate_pulse_sequence(
+            self, ps: pulse_sequence.PulseSequence) -> None:
         """Manually set eigendecomposition of the PulseSequence.
 
         Work around incompatibility of drift Hamiltonian
         representations."""
-        ps = self.pulse_sequence
         drift_hamiltonian = np.array([h.data for h in self.h_drift])
         control_hamiltonian = np.einsum('ijk,il->ljk', ps.c_opers, ps.c_coeffs)
         ps.eigvals, ps.eigvecs, ps.propagators = numeric.diagonalize(
@@ -736,29 +736,16 @@ class Solver(ABC):
         # nonlinear coupling), but in filter_functions the form H =
         # a(t) A is imposed, we don't tell the PulseSequence object
         # about H_drift and set the eigendecomposition after the fact.
-        if self.pulse_sequence is None:
-            h_c = list(zip(
-                self.h_ctrl,
-                self._ctrl_amps.T,
-                [f'Control{i}' for i in range(len(self.h_ctrl))]
-            ))
-            self.pulse_sequence = pulse_sequence.PulseSequence(
-                h_c, self.create_ff_h_n, self.transferred_time, basis
-            )
-        else:
-            # Clean up the caches and update coefficients
-            self.pulse_sequence.cleanup('all')
-            self.pulse_sequence.c_coeffs = self._ctrl_amps.T
-            # Not the most elegant, but necessary for the current
-            # implementation.
-            self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
-                self.create_ff_h_n,
-                len(self.transferred_time), 'H_n')[2]
-
-            if basis is not None:
-                self.pulse_sequence.basis = basis
-
-        self._diagonalize_and_propagate_pulse_sequence()
+        h_c = list(zip(
+            self.h_ctrl,
+            self._ctrl_amps.T,
+            [f'Control{i}' for i in range(len(self.h_ctrl))]
+        ))
+        ps = pulse_sequence.PulseSequence(
+            h_c, self.create_ff_h_n, self.transferred_time, basis
+        )
+        self._diagonalize_and_propagate_pulse_sequence(ps)
+        self.pulse_sequence = ps
         return self.pulse_sequence
 
     def plot_bloch_sphere(
-- 
2.43.0


From 1fa4db5d94734427b54d7f880d20650ca9e9e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:11 +0000
Subject: [PATCH 11/48] fix: gradients of the infidelities respect
 map_to_closest_unitary and rescale_propagated_state

---
 qopt/cost_functions.py | 31 ++++++++++++++++------------
 qopt/matrix.py         | 46 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 13 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0bd8bff..b41047e 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -527,14 +527,14 @@ def derivative_state_fidelity(
     for ctrl in range(num_ctrls):
         for t in range(num_time_steps):
             # here we need to take the real part.
-            if computational_states:
+            if computational_states is not None:
                 derivative_fidelity[t, ctrl] = 2 * np.real(
                     (scalar_prod * (
-                            target * (
-                            reversed_propagators[::-1][t + 1]
-                            * propagator_derivatives[ctrl][t]
-                            * forward_propagators[t]
-                    ).truncate_to_subspace(
+                            target * matrix.derivative_truncate_to_subspace(
+                        forward_propagators[-1],
+                        reversed_propagators[::-1][t + 1]
+                        * propagator_derivatives[ctrl][t]
+                        * forward_propagators[t],
                         subspace_indices=computational_states,
                         map_to_closest_unitary=rescale_propagated_state
                     )
@@ -792,7 +792,7 @@ def derivative_entanglement_fidelity_with_du(
 
     """
     target_unitary_dag = target.dag(do_copy=True)
-    if computational_states:
+    if computational_states is not None:
         trace = np.conj(
             ((forward_propagators[-1].truncate_to_subspace(
                 computational_states,
@@ -811,11 +811,13 @@ def derivative_entanglement_fidelity_with_du(
     for ctrl in range(num_ctrls):
         for t in range(num_time_steps):
             # here we need to take the real part.
-            if computational_states:
+            if computational_states is not None:
                 derivative_fidelity[t, ctrl] = 2 / d / d * np.real(
-                    trace * ((reversed_propagators[::-1][t + 1]
-                              * propagator_derivatives[ctrl][t]
-                              * forward_propagators[t]).truncate_to_subspace(
+                    trace * (matrix.derivative_truncate_to_subspace(
+                        forward_propagators[-1],
+                        reversed_propagators[::-1][t + 1]
+                        * propagator_derivatives[ctrl][t]
+                        * forward_propagators[t],
                         subspace_indices=computational_states,
                         map_to_closest_unitary=map_to_closest_unitary
                     )
@@ -1308,6 +1310,7 @@ class OperationInfidelity(CostFunction):
                 reversed_propagators=self.solver.reversed_propagators,
                 propagator_derivatives=self.solver.frechet_deriv_propagators,
                 computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary
             )
         else:
             raise NotImplementedError('Only the average and entanglement'
@@ -1436,7 +1439,8 @@ class OperationNoiseInfidelity(CostFunction):
                 propagator_derivatives=
                 self.solver.frechet_deriv_propagators_noise[i],
                 reversed_propagators=self.solver.reversed_propagators_noise[i],
-                computational_states=self.computational_states
+                computational_states=self.computational_states,
+                map_to_closest_unitary=self.map_to_closest_unitary
             )
             if self.neglect_systematic_errors:
                 temp_target = self._to_comp_space(
@@ -1448,7 +1452,8 @@ class OperationNoiseInfidelity(CostFunction):
                     propagator_derivatives=
                     self.solver.frechet_deriv_propagators,
                     reversed_propagators=self.solver.reversed_propagators,
-                    computational_states=self.computational_states
+                    computational_states=self.computational_states,
+                    map_to_closest_unitary=self.map_to_closest_unitary
                 )
             derivative[:, :, i] = np.real(temp)
         return np.mean(-derivative, axis=2)
diff --git a/qopt/matrix.py b/qopt/matrix.py
index c10762b..e0103e3 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1465,3 +1465,49 @@ def closest_unitary(matrix: OperatorMatrix):
     left_singular_vec, __, right_singular_vec_h = scipy.linalg.svd(
         matrix.data)
     return type(matrix)(left_singular_vec.dot(right_singular_vec_h))
+
+
+def derivative_truncate_to_subspace(
+        matrix: OperatorMatrix,
+        derivative: OperatorMatrix,
+        subspace_indices: Optional[Sequence[int]],
+        map_to_closest_unitary: bool = False
+) -> OperatorMatrix:
+    """
+    Derivative of the truncation to a subspace.
+
+    Parameters
+    ----------
+    matrix : OperatorMatrix
+        The matrix (or vector), which is truncated.
+
+    derivative : OperatorMatrix
+        The derivative of the matrix before the truncation.
+
+    subspace_indices : list of int, optional
+        Indices describing the subspace.
+
+    map_to_closest_unitary : bool
+        If True, then the truncated matrix is mapped to the closest unitary
+        (or a truncated vector rescaled), which also affects the derivative.
+
+    Returns
+    -------
+    truncated_derivative : OperatorMatrix
+        The derivative of the truncated matrix.
+
+    """
+    out = derivative.truncate_to_subspace(subspace_indices)
+    if subspace_indices is None or not map_to_closest_unitary:
+        return out
+    truncated = matrix.truncate_to_subspace(subspace_indices)
+    if matrix.shape[0] == matrix.shape[1]:
+        # derivative of the unitary polar factor
+        left, singular_values, right_h = scipy.linalg.svd(truncated.data)
+        inner = left.conj().T @ out.data @ right_h.conj().T
+        inner = (inner - inner.conj().T) / (
+            singular_values[:, None] + singular_values[None, :])
+        return type(matrix)(left @ inner @ right_h)
+    norm = truncated.norm('fro')
+    overlap = np.vdot(truncated.data, out.data).real
+    return out * (1 / norm) - truncated * (overlap / norm ** 3)
-- 
2.43.0


From 3fdb875f32b982b14e84971aa95f0a388cc78624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 12/48] fix: state_fidelity_subspace handles a complex overlap
 without an index error

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index b41047e..0139182 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -629,7 +629,7 @@ def state_fidelity_subspace(
     scalar_prod = scalar_prod[0, 0]
     scalar_prod_real = scalar_prod.real
     if np.abs(scalar_prod - scalar_prod_real) > 1e-5:
-        scalar_prod_real = np.abs(scalar_prod[0, 0])
+        scalar_prod_real = np.abs(scalar_prod)
         print("Warning: the calculated fidelity should be real but has an "
               "imaginary component of : " + str(scalar_prod.imag))
     return scalar_prod_real
-- 
2.43.0


From 6dd4c3453f66e6988004eed5e02791064d0ba854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 13/48] fix: matrix transfer functions recompute the transfer
 matrix after set_times

---
 qopt/transfer_function.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index d1ccc38..77392ea 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1063,6 +1063,12 @@ class ParallelTF(TransferFunction):
 
 class MatrixTF(TransferFunction):
 
+    def set_times(self, y_times: np.ndarray) -> None:
+        """See base class. """
+        super().set_times(y_times)
+        # the transfer matrix depends on the times
+        self._transfer_matrix = None
+
     def __call__(self, y: np.array) -> np.array:
         """Calculate the transferred optimization parameters (x).
 
@@ -1293,6 +1299,7 @@ class ParallelMTF(MatrixTF):
 
     def set_times(self, y_times: np.ndarray):
         """See base class. """
+        self._transfer_matrix = None
         self.tf1.set_times(y_times)
         self.tf2.set_times(y_times)
         self._num_y = self.tf1._num_y
@@ -1383,7 +1390,8 @@ class CustomMTF(MatrixTF):
                 raise ValueError('Unknown boundary type:'
                                  + str(self.bound_type[0]))
             self.oversampling = int(self.oversampling)
-            super().set_times(y_times)
+            # keep the given transfer matrix
+            TransferFunction.set_times(self, y_times)
         else:
             y_times = np.squeeze(y_times)
             self.x_times = y_times
-- 
2.43.0


From 32f6d416d16949fa1b35c0e40d9d1f56f0129b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 14/48] fix: ConcatenateMTF can be evaluated and
 differentiated, and composes the offsets

---
 qopt/transfer_function.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 77392ea..7aa8858 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1210,12 +1210,10 @@ class ConcatenateMTF(MatrixTF):
         self.x_times = tf2.x_times
         self.num_x = tf2.num_x
 
-    @property
-    def transfer_matrix(self):
-        """The total transfer matrix is the product of the individual ones."""
-        return np.einsum('ijk,jlk->ilk',
-                         self.tf2.transfer_matrix,
-                         self.tf1.transfer_matrix)
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """See base class. The offset of tf1 is also transferred by tf2. """
+        self._check_dimensions_datatype(y)
+        return self.tf2(self.tf1(y))
 
     def set_times(self, y_times: np.ndarray) -> None:
         """
@@ -1229,6 +1227,7 @@ class ConcatenateMTF(MatrixTF):
                 optimization parameters.
 
         """
+        self._transfer_matrix = None
         self.tf1.set_times(y_times)
         self.tf2.set_times(y_times=self.tf1.x_times)
         self._num_y = self.tf1._num_y
@@ -1243,8 +1242,11 @@ class ConcatenateMTF(MatrixTF):
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-        self.tf1._calculate_transfer_matrix()
-        self.tf2._calculate_transfer_matrix()
+        self._transfer_matrix = np.einsum(
+            'ijk,jlk->ilk',
+            self.tf2.transfer_matrix,
+            self.tf1.transfer_matrix
+        )
 
 
 class ParallelMTF(MatrixTF):
-- 
2.43.0


From 43d1efbab6d0ed60f173eba6836e016322da585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 15/48] fix: ParallelMTF applies the offsets of its transfer
 functions

---
 qopt/transfer_function.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 7aa8858..bb240f4 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1294,6 +1294,15 @@ class ParallelMTF(MatrixTF):
             raise ValueError("The parallized transfer functions must have the "
                              "same oversampling.")
 
+    def __call__(self, y: np.ndarray) -> np.ndarray:
+        """See base class. Each transfer function applies its own offset. """
+        self._check_dimensions_datatype(y)
+        return np.concatenate(
+            (self.tf1(y[:, :self.tf1.num_ctrls]),
+             self.tf2(y[:, self.tf1.num_ctrls:])),
+            axis=1
+        )
+
     def _calculate_transfer_matrix(self):
         """See base class. """
         self._transfer_matrix = np.concatenate(
-- 
2.43.0


From ea56603b0f79f2e7501f6323f0bb4f2b3fda0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 16/48] fix: CustomMTF keeps explicitly given x_times and
 accepts repeated calls of set_times

---
 qopt/transfer_function.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index bb240f4..6e3d2c0 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1369,6 +1369,7 @@ class CustomMTF(MatrixTF):
         self._num_y = transfer_matrix.shape[1]
         self.num_x = transfer_matrix.shape[0]
         self.x_times = x_times
+        self._x_times_given = x_times is not None
         self.bound_type = bound_type
         self.oversampling = oversampling
 
@@ -1379,7 +1380,7 @@ class CustomMTF(MatrixTF):
 
     def set_times(self, y_times: np.ndarray) -> None:
         """See base class."""
-        if self.x_times is None:
+        if not self._x_times_given:
             # construct the oversampling
             if self.bound_type is None:
                 # assume no padding
@@ -1404,11 +1405,11 @@ class CustomMTF(MatrixTF):
             # keep the given transfer matrix
             TransferFunction.set_times(self, y_times)
         else:
-            y_times = np.squeeze(y_times)
-            self.x_times = y_times
+            y_times = np.atleast_1d(np.squeeze(y_times))
             if len(y_times) != self._num_y:
                 raise ValueError('Trying to set x_times, which do not fit the'
                                  'dimension of the transfer function.')
+            self._y_times = y_times
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-- 
2.43.0


From abf31b3e8f9b2cce40a5efb0947f89ff8d321cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 17/48] fix: gradients of ConvolutionTF and GaussianConvolution
 are the exact adjoint including boundaries

---
 qopt/transfer_function.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 6e3d2c0..6b5f4ea 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -761,11 +761,18 @@ class ConvolutionTF(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.convolve(
-            deriv_by_transferred_par,
-            weights=np.expand_dims(self.kernel, axis=1),
-            cval=self.cval
-        )
+        # the filter is linear, so its response to each basis pulse yields the
+        # jacobian including the boundary treatment.
+        basis = np.eye(self.num_x * self.num_ctrls).reshape(
+            (-1, self.num_x, self.num_ctrls))
+        jacobian = np.array([
+            scipy.ndimage.convolve(
+                basis_pulse, weights=self.kernel, mode=self.mode)
+            for basis_pulse in basis
+        ])
+        gradient = np.einsum('bik,ifk->bf', jacobian, deriv_by_transferred_par)
+        gradient = gradient.reshape((self.num_x, self.num_ctrls, shape[1]))
+        return gradient.transpose((0, 2, 1))
 
     @property
     def transfer_matrix(self) -> np.array:
@@ -890,10 +897,19 @@ class GaussianConvolution(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.gaussian_filter1d(
-            deriv_by_transferred_par, self.sigma, axis=0, order=self.order,
-            mode=self.mode, truncate=self.truncate
-        )
+        # the filter is linear, so its response to each basis pulse yields the
+        # jacobian including the boundary treatment.
+        basis = np.eye(self.num_x * self.num_ctrls).reshape(
+            (-1, self.num_x, self.num_ctrls))
+        jacobian = np.array([
+            scipy.ndimage.gaussian_filter1d(
+                basis_pulse, self.sigma, axis=0, order=self.order,
+                mode=self.mode, truncate=self.truncate)
+            for basis_pulse in basis
+        ])
+        gradient = np.einsum('bik,ifk->bf', jacobian, deriv_by_transferred_par)
+        gradient = gradient.reshape((self.num_x, self.num_ctrls, shape[1]))
+        return gradient.transpose((0, 2, 1))
 
     @property
     def transfer_matrix(self) -> np.array:
-- 
2.43.0


From 2f4ece6de526e95090344d7351213f0aac4c21da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 18/48] fix: ExponentialMTF handles a single time slot with
 padding shorter than the oversampling

---
 qopt/transfer_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 6b5f4ea..6b1c091 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1557,7 +1557,7 @@ class ExponentialMTF(MatrixTF):
 
         # for the padding at the beginning
         dudx[0:self.oversampling, 0] = one_minus_exp
-        if self.num_x > self.oversampling:
+        if self._num_y > 1:
             dudx[self.oversampling:2 * self.oversampling, 0] = exp
 
         # main part
-- 
2.43.0


From 0e67d036c48f5b6d7640cb7fd4cd32607ae9bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 19/48] fix: angle_axis_representation checks both diagonal
 elements for unitarity

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0139182..45d48f7 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -184,7 +184,7 @@ def angle_axis_representation(u: np.ndarray) \
     is_unitary = np.isclose(ident[0, 0], 1) \
                  and np.isclose(ident[1, 0], 0) \
                  and np.isclose(ident[0, 1], 0) \
-                 and np.isclose(ident[0, 0], 1)
+                 and np.isclose(ident[1, 1], 1)
 
     if not is_unitary:
         raise ValueError("Your input matrix must be unitary to calculate a "
-- 
2.43.0


From 079c30de4762923d01a38acbefc145cd3338bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 20/48] fix: OperatorMatrixNorm can be instantiated

---
 qopt/cost_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 45d48f7..7b7ed28 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -260,8 +260,7 @@ class OperatorMatrixNorm(CostFunction):
     def __init__(self, solver: solver_algorithms.Solver,
                  target: matrix.OperatorMatrix, mode: str = 'scalar',
                  label: Optional[List[str]] = None):
-        super().__init__()
-        self.solver = solver
+        super().__init__(solver=solver, label=label)
         self.target = target
         self.mode = mode
         if label is not None:
-- 
2.43.0


From 3938b5a46a6d5276c22630b6c56394fee7891cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 21/48] fix: StateNoiseInfidelity accepts no target if
 systematic errors are neglected

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 7b7ed28..d5e3917 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1130,7 +1130,7 @@ class StateNoiseInfidelity(CostFunction):
         self.solver = solver
 
         # assure target is a bra vector
-        if target.shape[0] > target.shape[1]:
+        if target is not None and target.shape[0] > target.shape[1]:
             self.target = target.dag()
         else:
             self.target = target
-- 
2.43.0


From adb921bfbb394f61db8fa4b6e9cb4da5f3269245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 22/48] fix: termination conditions of one optimizer no longer
 change the defaults of all optimizers

---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index c191a1a..b92b083 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -165,7 +165,7 @@ class Optimizer(ABC):
     ):
         self.system_simulator = system_simulator
         self.use_jacobian_function = use_jacobian_function
-        self.termination_conditions = default_termination_conditions
+        self.termination_conditions = copy.copy(default_termination_conditions)
         if termination_cond is not None:
             self.termination_conditions.update(**termination_cond)
 
-- 
2.43.0


From 45d04d2bbf495b4daa830cc60ff4df0cecccc99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 23/48] fix: weighting the costs does not corrupt the recorded
 and minimal costs

---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index b92b083..3b2cc90 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -226,7 +226,7 @@ class Optimizer(ABC):
 
         # apply the cost function weights after saving the values.
         if self.cost_func_weights is not None:
-            costs *= self.cost_func_weights
+            costs = costs * self.cost_func_weights
 
         self._n_cost_fkt_eval += 1
         return costs
-- 
2.43.0


From 650217137153e342674188f50b7d1b9416558215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 24/48] fix: the final gradient norm after exceeding the wall
 time is evaluated at the best pulse

---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 3b2cc90..a50560c 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -336,7 +336,7 @@ class Optimizer(ABC):
 
         if self.use_jacobian_function:
             jac_norm = np.linalg.norm(
-                self.cost_jacobian_wrapper(self._min_costs_par))
+                self.cost_jacobian_wrapper(self._min_costs_par.T.flatten()))
         else:
             jac_norm = 0
 
-- 
2.43.0


From 02a841152779039c9dc7f1b6084e7aebd704d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 25/48] fix: exceeding the wall time before the first
 evaluation yields a result

---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index a50560c..bbb06df 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -334,7 +334,7 @@ class Optimizer(ABC):
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
 
-        if self.use_jacobian_function:
+        if self.use_jacobian_function and self._min_costs_par is not None:
             jac_norm = np.linalg.norm(
                 self.cost_jacobian_wrapper(self._min_costs_par.T.flatten()))
         else:
-- 
2.43.0


From 769ff70c0e1e06f40d303bb28619c21b17f9ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 26/48] fix: LeastSquaresOptimizer runs without bounds

---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index bbb06df..1fdc53d 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -406,7 +406,8 @@ class LeastSquaresOptimizer(Optimizer):
                          use_jacobian_function=use_jacobian_function,
                          store_optimizer=store_optimizer)
         self.method = method
-        self.bounds = bounds
+        # scipy expects infinite bounds rather than None
+        self.bounds = (-np.inf, np.inf) if bounds is None else bounds
 
     def run_optimization(self, initial_control_amplitudes: np.array,
                          verbose: int = 0) -> optimization_data.OptimizationResult:
-- 
2.43.0


From dfd24144e20d68a18e527d2d4fb7b5316210ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 27/48] fix: ScalarMinimizingOptimizer respects store_optimizer
 for every method

---
 qopt/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 1fdc53d..ba0168c 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -621,7 +621,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
-                    optimizer=self,
+                    optimizer=self if self.store_optimizer else None,
                     optim_summary=self.optim_iter_summary,
                     optimization_stats=self.system_simulator.stats
                 )
-- 
2.43.0


From 34a208485a7012a0cbba97bc330b80477afb7e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 28/48] fix: optimization results contain the initial
 parameters

---
 qopt/optimize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index ba0168c..de3a450 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -171,6 +171,7 @@ class Optimizer(ABC):
 
         self.optim_iter_summary = None
         self.pulse_shape = ()
+        self._init_parameters = None
 
         self._opt_start_time = 0
         self._min_costs = np.inf
@@ -303,6 +304,7 @@ class Optimizer(ABC):
         self._n_cost_fkt_eval = 0
         self._n_jac_fkt_eval = 0
         self.pulse_shape = initial_optimization_parameters.shape
+        self._init_parameters = np.copy(initial_optimization_parameters)
         if self.save_intermediary_steps:
             self.optim_iter_summary = \
                 optimization_data.OptimizationSummary(
@@ -348,6 +350,7 @@ class Optimizer(ABC):
         optim_result = optimization_data.OptimizationResult(
             final_cost=self._min_costs,
             indices=self.system_simulator.cost_indices,
+            init_parameters=self._init_parameters,
             final_parameters=self._min_costs_par,
             final_grad_norm=jac_norm,
             num_iter=self._n_cost_fkt_eval,
@@ -445,6 +448,7 @@ class LeastSquaresOptimizer(Optimizer):
             optim_result = optimization_data.OptimizationResult(
                 final_cost=result.fun,
                 indices=self.system_simulator.cost_indices,
+                init_parameters=self._init_parameters,
                 final_parameters=result.x.reshape(
                     self.pulse_shape[::-1]).T,
                 final_grad_norm=np.linalg.norm(result.grad),
@@ -559,6 +563,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     final_grad_norm=np.linalg.norm(result.jac),
@@ -592,6 +597,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     num_iter=result.nfev,
@@ -616,6 +622,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
                     indices=self.system_simulator.cost_indices,
+                    init_parameters=self._init_parameters,
                     final_parameters=result.x.reshape(
                         self.pulse_shape[::-1]).T,
                     num_iter=result.nfev,
@@ -866,6 +873,7 @@ class SimulatedAnnealing(Optimizer):
         optim_result = optimization_data.OptimizationResult(
             final_cost=costs,
             indices=self.system_simulator.cost_indices,
+            init_parameters=self._init_parameters,
             final_parameters=pulse,
             optimizer=storage_opt,
             optim_summary=self.optim_iter_summary,
-- 
2.43.0


From ad96f76f8f1e61ed72277dc761f5469da9243fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 29/48] fix: OptimizationResult.to_dict includes the status

---
 qopt/optimization_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qopt/optimization_data.py b/qopt/optimization_data.py
index 72d5264..8d78e4c 100644
--- a/qopt/optimization_data.py
+++ b/qopt/optimization_data.py
@@ -148,6 +148,7 @@ class OptimizationResult(object):
                 'init_parameters': self.init_parameters,
                 'num_iter': self.num_iter,
                 'termination_reason': self.termination_reason,
+                'status': self.status,
                 'optimizer': self.optimizer,
                 'optimization_stats': self.optimization_stats,
                 'optim_summary': self.optim_summary
-- 
2.43.0


From ac626e3d5ee5be359ac1184151a62f55b41138ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 30/48] fix: DataContainer supports copy.deepcopy

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index d635543..65aec6b 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -219,7 +219,7 @@ class DataContainer:
         self.optimization_statistics.append(optimization_stats)
         self.check_length()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo=None):
         cpyobj = type(self)(
             final_costs=copy.deepcopy(self.final_costs),
             indices=copy.deepcopy(self.indices),
-- 
2.43.0


From 5c1a1f045107025a2e518b433dcf44149ef472ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 31/48] fix: setting the pulse of a simulator uses the shape of
 the new pulse

---
 qopt/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index f248460..3d055f2 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -145,7 +145,7 @@ class Simulator(object):
     def pulse(self, new_pulse):
         """Sets the pulse and the corresponding attributes accordingly. """
         if new_pulse is not None:
-            self._num_times, self._num_ctrl = self._optimization_parameteres.shape
+            self._num_times, self._num_ctrl = new_pulse.shape
         self._optimization_parameteres = new_pulse
 
     @needs_refactoring
-- 
2.43.0


From fe5277fd56c87277d15ba6cb9b54b045b1dfc428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 32/48] fix: NTGQuasiStatic corrects the standard deviation for
 the samples of each operator and leaves its input unaltered

---
 qopt/noise.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index bc81527..b2c3add 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -443,18 +443,21 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                          n_traces=n_traces,
                          n_noise_operators=n_noise_operators,
                          always_redraw_samples=always_redraw_samples)
-        self.standard_deviation = standard_deviation
+        # copied, as the entries can be corrected for the discrete sampling
+        self.standard_deviation = list(standard_deviation)
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-            if self.n_traces == 1:
+            # number of samples drawn for each noise operator
+            n_samples = self._n_traces if self._n_traces else self.n_traces
+            if n_samples == 1:
                 raise RuntimeWarning('Standard deviation cannot be estimated'
                                      'for a single trace!')
             elif self.sampling_mode == 'uncorrelated_deterministic':
                 for i in range(len(self.standard_deviation)):
                     samples = sample_1dim_gaussian_distribution(
                         std=self.standard_deviation[i],
-                        n_samples=self.n_traces
+                        n_samples=n_samples
                     )
                     actual_std = np.std(samples)
                     if actual_std < 1e-20:
-- 
2.43.0


From ee64857f8ea0f2fcb2c3ad7e4c71ed5fc773bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 33/48] fix: coloured noise with an odd number of samples uses
 the frequencies of the discrete Fourier transform

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index b2c3add..77958c6 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -300,7 +300,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     delta_white = np.random.randn(*output_shape, actual_n_samples)
     delta_white_ft = np.fft.rfft(delta_white, axis=-1)
     # Only positive frequencies since FFT is real and therefore symmetric
-    f = np.linspace(0, f_nyquist, actual_n_samples // 2 + 1)
+    f = np.fft.rfftfreq(actual_n_samples, dt)
     f[1:] = spectral_density(f[1:])
     f[0] = 0
     delta_colored = np.fft.irfft(delta_white_ft * np.sqrt(f / s0),
-- 
2.43.0


From 0441b193c5c78173b26a374383bb5e0e3a00a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 34/48] fix: fast_colored_noise rounds down to the next power
 of two as documented

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 77958c6..6fc618f 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -293,7 +293,7 @@ def fast_colored_noise(spectral_density: Callable, dt: float, n_samples: int,
     f_nyquist = f_max / 2
     s0 = 1 / f_nyquist
     if r_power_of_two:
-        actual_n_samples = int(2 ** np.ceil(np.log2(n_samples)))
+        actual_n_samples = int(2 ** np.floor(np.log2(n_samples)))
     else:
         actual_n_samples = int(n_samples)
 
-- 
2.43.0


From af8632bee91c5c4cf97357f9323125bf95f1d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 35/48] fix: normalization of the one dimensional bell curve

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 6fc618f..1fa066c 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -97,7 +97,7 @@ def bell_curve_1dim(x: Union[np.ndarray, float],
         Function values.
 
     """
-    normalization_factor = 1 / 2 / np.pi / stdx
+    normalization_factor = 1 / np.sqrt(2 * np.pi) / stdx
     exponential = np.exp(-.5 * ((x / stdx) ** 2))
     return normalization_factor * exponential
 
-- 
2.43.0


From 26b735a732831fef97b2291985e5ccb44e4784cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:47 +0000
Subject: [PATCH 36/48] fix: energy spectra can be plotted with current
 matplotlib versions

---
 qopt/energy_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qopt/energy_spectrum.py b/qopt/energy_spectrum.py
index 7c9bf4d..11609c4 100644
--- a/qopt/energy_spectrum.py
+++ b/qopt/energy_spectrum.py
@@ -34,7 +34,6 @@ Functions
 
 """
 
-import matplotlib as mpl
 import matplotlib.pyplot as plt
 import numpy as np
 
@@ -64,7 +63,7 @@ def vector_color_map(vectors: np.array):
 
     points_on_cmap = np.linspace(0, 1, vectors.shape[-1], endpoint=True)
     # include the endpoint to use the full colormap
-    basis_colors = mpl.cm.get_cmap('brg')(points_on_cmap)
+    basis_colors = plt.get_cmap('brg')(points_on_cmap)
     basis_colors = np.array(basis_colors)[:, :-1]
     
     values = np.einsum('ij, ni -> nj', basis_colors, np.abs(vectors))
-- 
2.43.0


From 1cf8130415df7dc5490444fe709d0508499b3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 37/48] fix: dexp calculates the accompanying exponential also
 for matrices without eigenbasis

---
 qopt/matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index e0103e3..dfbb33b 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1248,24 +1248,24 @@ class DenseOperator(OperatorMatrix):
         elif method == "approx":
             d_m = (self.data + epsilon * direction.data) * tau
             dprop = la.expm(d_m)
-            prop = self.exp(tau)
+            prop = DenseOperator(la.expm(self.data * tau))
             prop_grad = (DenseOperator(dprop) - prop) * (1 / epsilon)
 
         elif method == "first_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = DenseOperator(la.expm(self.data * tau))
             prop_grad = direction.data * tau
 
         elif method == "second_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = DenseOperator(la.expm(self.data * tau))
             prop_grad = direction.data * tau
             prop_grad += (self.data @ direction.data
                           + direction.data @ self.data) * (tau * tau * 0.5)
 
         elif method == "third_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = DenseOperator(la.expm(self.data * tau))
             prop_grad = direction.data * tau
             prop_grad += (self.data @ direction.data
                           + direction.data @ self.data) * tau * tau * 0.5
-- 
2.43.0


From ecc7cad1cc4d202f1e5230944ee56b2404ba32f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 38/48] fix: UnaryAnalyticAmpFunc does not truncate to the type
 of the first value

---
 qopt/amplitude_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/amplitude_functions.py b/qopt/amplitude_functions.py
index 832a94c..8044ee0 100644
--- a/qopt/amplitude_functions.py
+++ b/qopt/amplitude_functions.py
@@ -158,8 +158,9 @@ class UnaryAnalyticAmpFunc(AmplitudeFunction):
     def __init__(self,
                  value_function: Callable[[float, ], float],
                  derivative_function: Callable[[float, ], float]):
-        self.value_function = np.vectorize(value_function)
-        self.derivative_function = np.vectorize(derivative_function)
+        self.value_function = np.vectorize(value_function, otypes=[float])
+        self.derivative_function = np.vectorize(derivative_function,
+                                                otypes=[float])
 
     def __call__(self, x: np.ndarray) -> np.ndarray:
         """See base class. """
-- 
2.43.0


From 35ec24705115016136fda0a9726f5847f230239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 39/48] fix: the solvers accept an empty list as drift
 hamiltonian

---
 qopt/solver_algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 5e7b2e1..9fd4c29 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -332,6 +332,9 @@ class Solver(ABC):
             self.h_drift = [h_drift, ] * self.transfer_function.num_x
         elif len(h_drift) == 1:
             self.h_drift = h_drift * self.transfer_function.num_x
+        elif len(h_drift) == 0:
+            # no drift at all
+            self.h_drift = [0 * h_ctrl[0], ] * self.transfer_function.num_x
         else:
             self.h_drift = h_drift
 
-- 
2.43.0


From 3ceca477ff14b10d144e9016ad28e59b70240a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 40/48] fix: solvers with constant drift and dissipation can be
 set to another number of time steps

---
 qopt/solver_algorithms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 9fd4c29..094b93e 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -360,6 +360,11 @@ class Solver(ABC):
         self._pulse_is_set = False
         self.transfer_function.set_times(tau)
         self.transferred_time = self.transfer_function.x_times
+        h_drift = getattr(self, 'h_drift', None)
+        if h_drift and len(h_drift) != len(self.transferred_time) \
+                and all(h is h_drift[0] for h in h_drift):
+            # extend the constant drift to the new number of time steps
+            self.h_drift = [h_drift[0], ] * len(self.transferred_time)
         self.reset_cached_propagators()
 
     def set_optimization_parameters(self, y: np.array) -> None:
@@ -1883,6 +1888,13 @@ class LindbladSolver(SchroedingerSolver):
         """See base class. """
         super().set_optimization_parameters(y)
 
+    def set_times(self, tau):
+        """ See base class. """
+        # the number of time steps can change
+        self._diss_sup_op = None
+        self._diss_sup_op_deriv = None
+        super().set_times(tau)
+
     def reset_cached_propagators(self):
         """ See base class. """
         super().reset_cached_propagators()
-- 
2.43.0


From f243aca71992f17b401974839530e190cdf4d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 41/48] fix: the approximation of the derivatives does not
 depend on the order of evaluations

---
 qopt/solver_algorithms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 094b93e..c879e5d 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -928,8 +928,10 @@ class SchroedingerSolver(Solver):
             self._dyn_gen = self._compute_dyn_gen()
 
         if calculate_propagator_derivatives is None:
+            # an approximation is calculated from the propagators on demand
             calculate_propagator_derivatives = \
-                self.calculate_propagator_derivatives
+                self.calculate_propagator_derivatives \
+                and not self.frechet_deriv_approx_method
 
         # cache only complete results
         new_prop = [None for _ in range(len(self.transferred_time))]
@@ -1327,8 +1329,10 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                           for _2 in range(n_noise_traces)]
 
         if calculate_propagator_derivatives is None:
+            # an approximation is calculated from the propagators on demand
             calculate_propagator_derivatives = \
-                self.calculate_propagator_derivatives
+                self.calculate_propagator_derivatives \
+                and not self.frechet_deriv_approx_method
 
         # parallelization of following code probably unnecessary
         if calculate_propagator_derivatives:
-- 
2.43.0


From ab0300c4e46131f2b0d33fce3aa445593ea4019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:53 +0000
Subject: [PATCH 42/48] fix: partial trace over all or no subsystems

---
 qopt/matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index dfbb33b..cf779bb 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -949,10 +949,10 @@ class DenseOperator(OperatorMatrix):
         pmat = np.trace(mat.reshape(dims + dims)
                            .transpose(remove + [n_dim + q for q in remove] +
                                       keep + [n_dim + q for q in keep])
-                           .reshape([np.prod(dims_rm),
-                                    np.prod(dims_rm),
-                                    np.prod(dims_keep),
-                                    np.prod(dims_keep)])
+                           .reshape([np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_keep, dtype=int),
+                                    np.prod(dims_keep, dtype=int)])
                         )
 
         if do_copy:
-- 
2.43.0


From 1c9fe698fca9e545bb5bbe4dceeadf427b779379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 43/48] fix: frequencies of the filter function follow the
 pulse durations

---
 qopt/cost_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index d5e3917..f416c37 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1570,7 +1570,8 @@ class OperatorFilterFunctionInfidelity(CostFunction):
             if self.solver.pulse_sequence is None:
                 self.solver.create_pulse_sequence()
 
-            self._omega = filter_functions.util.get_sample_frequencies(
+            # not stored, since they depend on the durations of the pulse
+            return filter_functions.util.get_sample_frequencies(
                 pulse=self.solver.pulse_sequence,
                 n_samples=200,
                 spacing='log',
-- 
2.43.0


From caa74c6cab761cfd360c52944de3682fa61f1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:09 +0000
Subject: [PATCH 44/48] fix: angle_axis_representation accepts multiples of the
 identity with rounding errors

---
 qopt/cost_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index f416c37..d243b50 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -193,7 +193,8 @@ def angle_axis_representation(u: np.ndarray) \
     # there is an unphysical global phase alpha
     cos_alpha = .5 * (u[0, 0] + u[1, 1])
     # beta in [0, pi) so sin in [0, 1]
-    sin = np.sqrt(1 - np.abs(cos_alpha) ** 2)
+    # rounding can let |cos_alpha| exceed 1 if u is a multiple of the identity
+    sin = np.sqrt(np.maximum(1 - np.abs(cos_alpha) ** 2, 0))
     if np.isclose(0, sin, atol=1e-6):
         return 0, np.array([1, 0, 0])
     n_1_alpha = (u[0, 1] + u[1, 0]) / 1j / sin / 2
-- 
2.43.0


From 80a5ada02cb87eabe8079aa6b41b96cbb03ef21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:20 +0000
Subject: [PATCH 45/48] fix: plot_pulse draws every time slot with its own
 duration

---
 qopt/transfer_function.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 6b1c091..2609e98 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -469,12 +469,11 @@ class TransferFunction(ABC):
         n_padding_start, n_padding_end = self.num_padding_elements
         for y_per_control, x_per_control in zip(y.T, x.T):
             plt.figure()
-            plt.bar(np.cumsum(self.x_times) - .5 * self.x_times[0],
-                    x_per_control, self.x_times[0])
-            plt.bar(np.cumsum(self._y_times) - .5 * self._y_times[0]
-                    + np.cumsum(self.x_times)[n_padding_start]
-                    - self.x_times[n_padding_start],
-                    y_per_control, self._y_times[0],
+            plt.bar(np.cumsum(self.x_times) - .5 * np.asarray(self.x_times),
+                    x_per_control, self.x_times)
+            plt.bar(np.cumsum(self._y_times) - .5 * np.asarray(self._y_times)
+                    + np.sum(self.x_times[:n_padding_start]),
+                    y_per_control, self._y_times,
                     fill=False)
         plt.xlabel(xlabel)
         plt.ylabel(ylabel)
-- 
2.43.0


From 37c0257ffe8dd11a3882694dd8529e34fb510af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 46/48] fix: transfer functions keep their own copy of the
 durations

---
 qopt/transfer_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 2609e98..6570685 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -370,7 +370,7 @@ class TransferFunction(ABC):
         if not isinstance(y_times, np.ndarray):
             raise Exception("times must be a list or np.array")
 
-        y_times = np.atleast_1d(np.squeeze(y_times))
+        y_times = np.atleast_1d(np.squeeze(np.array(y_times)))
 
         if len(y_times.shape) > 1:
             raise ValueError('The x_times should not have more than one '
@@ -1420,7 +1420,7 @@ class CustomMTF(MatrixTF):
             # keep the given transfer matrix
             TransferFunction.set_times(self, y_times)
         else:
-            y_times = np.atleast_1d(np.squeeze(y_times))
+            y_times = np.atleast_1d(np.squeeze(np.array(y_times)))
             if len(y_times) != self._num_y:
                 raise ValueError('Trying to set x_times, which do not fit the'
                                  'dimension of the transfer function.')
-- 
2.43.0


From b52c5ba35cab21a821c4ae0853486502aacd8e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 47/48] fix: new times transfer the stored pulse anew

---
 qopt/solver_algorithms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index c879e5d..a5b4e5f 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -366,6 +366,10 @@ class Solver(ABC):
             # extend the constant drift to the new number of time steps
             self.h_drift = [h_drift[0], ] * len(self.transferred_time)
         self.reset_cached_propagators()
+        if getattr(self, 'transferred_parameters', None) is not None \
+                and len(self._opt_pars) == self.transfer_function._num_y:
+            # transfer the pulse anew, if it fits to the new times
+            self.set_optimization_parameters(self._opt_pars)
 
     def set_optimization_parameters(self, y: np.array) -> None:
         """
-- 
2.43.0


From c25fbcdb291fd63d86efd81345a04f52ace36d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 48/48] fix: DataContainer.index returns the labels of the cost
 functions

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index 65aec6b..201697e 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -164,7 +164,7 @@ class DataContainer:
     @property
     def index(self):
         """Indices of the cost functions. """
-        return self.final_parameters.index
+        return self.indices
 
     def check_length(self):
         pass
-- 
2.43.0

