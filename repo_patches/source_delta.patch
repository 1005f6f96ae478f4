From a98cb4225a785d6bc4053b2f0bda42fddd4ee2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 01/39] fix: reset conjugate Kraus operators when returning to
 a single channel use

SparseKraus kept the conjugates of the previous n, so channel() and
entropy_exchange() were wrong or crashed after n > 1 followed by n = 1.
---
 PyQCodes/chan/_kraus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 9a5a471..d4e53d5 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -269,7 +269,7 @@ class Kraus(ABC):
         elif n < self.current_n:
             # Reduce Densekraus operator to correspond to nth channel.
             if n == 1:
-                self.nth_kraus_ops = self.kraus_ops
+                self._initialize_kraus_ops()
             else:
                 self.nth_kraus_ops = self._tensor_kraus_operators(self.kraus_ops, self.kraus_ops)
                 for i in range(0, n - 2):
-- 
2.43.0


From 88a2132f048aab51b702aa4c420e71538c2b12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 02/39] fix: entropy exchange blocks of orthogonal Kraus groups

The block offsets were only right when the last group had the size of the
first one; the documented erasure channel returned overlapping blocks and
the entropy of blocks of different sizes could not be computed.
---
 PyQCodes/chan/_kraus.py  | 6 ++----
 PyQCodes/chan/channel.py | 5 ++++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index d4e53d5..6da1852 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -843,7 +843,6 @@ class DenseKraus(Kraus):
         # and A_2 correponds to {k_1, k_2}.
 
         """
-        numb_rows = self.numb_kraus ** n
         # Compute adjoint of the complementary channel.
         if adjoint:
             return np.einsum("ijkl,ij->kl", self.nth_kraus_exch, rho, dtype=np.complex128)
@@ -860,11 +859,10 @@ class DenseKraus(Kraus):
                 W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:orthogonal_split,
                               count:orthogonal_split, :, :], rho)
                 output.append(W.T)
-                count += orthogonal_split
+                count = orthogonal_split
 
             # Last section of kraus operators
-            diff = (numb_rows - count)
-            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[diff:, diff:, :, :], rho)
+            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:, count:, :, :], rho)
             output.append(W.T)
         return output
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 8a27261..8f13f0c 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -519,7 +519,10 @@ class AnalyticQChan():
             The von neumann entropy.
 
         """
-        if self.sparse:
+        if isinstance(mat, list):
+            # List of matrices, possibly of different sizes (e.g. blocks of entropy exchange).
+            eigs = np.concatenate([np.ravel(np.linalg.eigvalsh(x)) for x in mat])
+        elif self.sparse:
             eigs = np.linalg.eigvalsh(mat)
         else:
             eigs = np.ravel(np.linalg.eigvalsh(mat))
-- 
2.43.0


From 3ce8931f57ebf6820697a85ae49529430c5a0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 03/39] fix: Choi channel keeps the output particles in the
 partial trace

The kept subsystems were computed from the number of output particles only,
which is wrong whenever the channel changes the number of particles.
---
 PyQCodes/chan/_choi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index e6f5b83..6c7135c 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -192,7 +192,7 @@ class ChoiQutip():
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
         # Keep the following dimensions when doing partial trace
-        keep = [i for i in range(self.num_out, 2 * self.num_out)]
+        keep = [i for i in range(self.num_in, self.num_in + self.num_out)]
         return ptrace(Qobj(choi_rho, dims=self.dim), keep).data.todense()
 
     def complementary_channel(self, rho):
-- 
2.43.0


From 17b505b1bf4dd96304b1c65553517b1f8fe180ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 04/39] fix: complementary channel of a Choi matrix is
 complex128

scipy's sqrtm may return complex256, on which eigvalsh (and so the coherent
information and its optimisation) fails.
---
 PyQCodes/chan/_choi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index 6c7135c..37cdd2c 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -216,7 +216,8 @@ class ChoiQutip():
             Quantum Channel." PhD diss., 2015.
         """
         # Follows from Tong's Thesis, Bei's Student.
-        square_root = sqrtm(rho)
+        # sqrtm may return extended precision, which numpy.linalg does not support.
+        square_root = np.asarray(sqrtm(rho), dtype=np.complex128)
         tensored = np.kron(square_root.T, np.eye(self.output_dim))
         return tensored.dot(self.choi).dot(tensored)
 
-- 
2.43.0


From cb126dba1a825e0fe2ca554d842c08cc28da5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 05/39] fix: honour the adjoint flag for channels given as Choi
 matrices

---
 PyQCodes/chan/_choi.py   | 6 +++++-
 PyQCodes/chan/channel.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index 37cdd2c..6cef96b 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -172,13 +172,15 @@ class ChoiQutip():
     def numb_qubits(self):
         return [self.num_in, self.num_out]
 
-    def channel(self, rho):
+    def channel(self, rho, adjoint=False):
         r"""
         Compute the channel on a density matrix.
 
         Parameters
         ----------
         rho : array
+        adjoint : bool
+            Compute the adjoint of the channel instead.
 
         Returns
         -------
@@ -188,6 +190,8 @@ class ChoiQutip():
         ----------
         See John Watrous Notes of Choi-Matrix. Note that he uses row-based vectorization.
         """
+        if adjoint:
+            return sum([np.conj(k).T.dot(rho).dot(k) for k in self.kraus_operators()])
         # Definition is taken from John Watrous.
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 8f13f0c..d577f6e 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -461,7 +461,7 @@ class AnalyticQChan():
 
         # For Choi Matrix.
         assert n == 1, "n, nth use of the channel must be one for choi-matrices."
-        return self.choi.channel(rho)
+        return self.choi.channel(rho, adjoint)
 
     def entropy_exchange(self, rho, n, adjoint=False):
         r"""
-- 
2.43.0


From edfdcc6e58d6c01929787943c6ad9f82dd20c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 06/39] fix: fidelity of rank-deficient states

Nesting scipy's sqrtm loses half of the digits on singular matrices, so the
fidelity of pure states (the domain of optimize_fidelity) got a spurious
imaginary part and raised an AssertionError.
---
 PyQCodes/chan/channel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index d577f6e..be8890b 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -29,7 +29,6 @@ from PyQCodes.chan._choi import ChoiQutip
 from PyQCodes.chan._coherent import optimize_procedure
 
 import numpy as np
-from scipy.linalg import sqrtm
 from sparse import SparseArray
 
 r"""
@@ -392,10 +391,11 @@ class AnalyticQChan():
 
         """
         chan = self.channel(rho, n)
-        sqrt_rho = sqrtm(rho)
-        fidel = np.trace(sqrtm(sqrt_rho.dot(chan).dot(sqrt_rho)))
-        assert np.abs(np.imag(fidel)) < 1e-5
-        return np.real(fidel)
+        # Positive-semidefinite square roots, where sqrtm is inaccurate on rank-deficient matrices.
+        eigs, evecs = np.linalg.eigh(rho)
+        sqrt_rho = (evecs * np.sqrt(np.clip(eigs, 0., None))).dot(np.conj(evecs).T)
+        eigs = np.linalg.eigvalsh(sqrt_rho.dot(chan).dot(sqrt_rho))
+        return np.sum(np.sqrt(np.clip(eigs, 0., None)))
 
     def average_entanglement_fidelity(self, probs, states):
         r"""
-- 
2.43.0


From 8b4ceb6da67b5ce32ded32f01e749b5bcf6ad027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:46 +0000
Subject: [PATCH 07/39] fix: serial concatenation of sparse Kraus operators

Building the result from a list of sparse matrices through numpy is refused
by the sparse package.
---
 PyQCodes/chan/_kraus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 6da1852..9aa7613 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -26,7 +26,7 @@ THE SOFTWARE.
 """
 import numpy as np
 from scipy.sparse import kron
-from sparse import COO, kron, tensordot, matmul, SparseArray
+from sparse import COO, kron, tensordot, matmul, stack, SparseArray
 from abc import ABC, abstractmethod, abstractstaticmethod
 
 r"""
@@ -609,8 +609,8 @@ class SparseKraus(Kraus):
         # Multiply all kraus operators with one another
         kraus_ops = [matmul(kraus1[j], kraus2[i]) for j in range(0, len(kraus1))
                      for i in range(0, len(kraus2))]
-        # Reshape them to be three-dimensional.
-        return COO(np.array(kraus_ops, dtype=np.complex128),)
+        # Stack them to be three-dimensional.
+        return stack(kraus_ops, axis=0)
 
 
 class DenseKraus(Kraus):
-- 
2.43.0


From b6c60f4b0564393c0eb45c9fd373ff36963a4cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 08/39] fix: dimensions of concatenated multi-particle channels

B + A maps the input of A to the output of B, and the single particle of
A * B has the dimension of all particles of A and B; channels acting on
more than one particle could not be concatenated.
---
 PyQCodes/chan/_kraus.py  | 8 ++++----
 PyQCodes/chan/channel.py | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 9aa7613..51e321c 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -405,7 +405,7 @@ class SparseKraus(Kraus):
         assert isinstance(other, SparseKraus), "Kraus object should be of type 'SparseKraus'."
         if self.dim_in**self.numb_qubits[0] != other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return SparseKraus(SparseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
@@ -416,7 +416,7 @@ class SparseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in, dim_out = other.input_dim * self.input_dim, other.output_dim * self.output_dim
         return SparseKraus(SparseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
 
@@ -715,7 +715,7 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         if not self.dim_in**self.numb_qubits[0] == other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return DenseKraus(DenseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
@@ -726,7 +726,7 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in, dim_out = other.input_dim * self.input_dim, other.output_dim * self.output_dim
         return DenseKraus(DenseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index be8890b..38e1eba 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -351,8 +351,9 @@ class AnalyticQChan():
         else:
             new_kraus_ops = DenseKraus.parallel_concatenate(self.kraus, other.kraus)
         numb_qubits = [1, 1]
-        dim_in = self.dim_in * other.dim_in
-        dim_out = self.dim_out * other.dim_out
+        # Dimension of all particles together, since the number of particles is set to one.
+        dim_in = self.dim_in**self.numb_qubits[0] * other.dim_in**other.numb_qubits[0]
+        dim_out = self.dim_out**self.numb_qubits[1] * other.dim_out**other.numb_qubits[1]
         return AnalyticQChan(new_kraus_ops, numb_qubits, dim_in, dim_out, sparse=issparse)
 
     def _is_qubit_channel(self):
-- 
2.43.0


From d4f8a6ac6f118283185920cbf60f06dd29bc64cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 09/39] fix: channels keep their own copy of the operators
 given

An array given by the caller was kept by reference, so modifying it later
silently changed the channel (for n > 1 or Choi matrices only in part).
---
 PyQCodes/chan/_choi.py  | 2 +-
 PyQCodes/chan/_kraus.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index 6cef96b..e904848 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -127,7 +127,7 @@ class ChoiQutip():
             of the choi matrix.
 
         """
-        self.choi = choi_matrix
+        self.choi = np.array(choi_matrix)
         self._num_in = numb_qubits[0]
         self._num_out = numb_qubits[1]
         # Dimension of input/output Hilbert space.
diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 51e321c..01bca17 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -700,9 +700,7 @@ class DenseKraus(Kraus):
         if not isinstance(kraus_ops, (list, np.ndarray)):
             raise TypeError("Kraus operators should be a list or numpy array.")
         # Store a copy of the single kraus operators.
-        self.kraus_ops = kraus_ops
-        if isinstance(kraus_ops, list):
-            self.kraus_ops = np.array(kraus_ops, dtype=np.complex128)
+        self.kraus_ops = np.array(kraus_ops, dtype=np.complex128)
         self._orthogonal_kraus = orthogonal_kraus
         super(DenseKraus, self).__init__(kraus_ops, numb_qubits, dim_in=dim_in, dim_out=dim_out)
 
-- 
2.43.0


From 9d06f2de2f098b0fa826397a677f66df5dd102f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 10/39] fix: sparse channel on an array of density matrices

The batch axis was broadcast against the Kraus axis: an error, or silently
wrong when both had the same length.
---
 PyQCodes/chan/_kraus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 01bca17..61a2ade 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -499,6 +499,9 @@ class SparseKraus(Kraus):
             rho.
 
         """
+        if rho.ndim == 3:
+            # Array of density matrices.
+            return np.array([self.channel(x, adjoint) for x in rho])
         if adjoint:
             left_mult = matmul(self.nth_kraus_ops_conj, rho)
             return np.sum(matmul(left_mult, self.nth_kraus_ops), axis=0)
-- 
2.43.0


From c9588d1e3a29212641109e0779531a76647be43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 11/39] fix: numb_krauss property refers to the existing
 attribute

---
 PyQCodes/chan/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 38e1eba..d64b5e4 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -257,7 +257,7 @@ class AnalyticQChan():
     def numb_krauss(self):
         r"""Return the number of kraus operators for the single (n=1) channel."""
         assert self._type == "kraus", "Function only works with kraus operators."
-        return self.krauss.numb_krauss
+        return self.krauss.numb_kraus
 
     @property
     def kraus(self):
-- 
2.43.0


From 41e0de9ac34d4d3fb08a156df9abbcf006285fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 12/39] fix: Cholesky vector of a density matrix inverts
 rho_from_vec

The off-diagonal entries were written as all real then all imaginary parts
while rho_from_vec reads them in pairs, so the round trip was wrong for
more than one off-diagonal entry; rank-deficient states were refused
although the rank is a parameter.
---
 PyQCodes/chan/param.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index 9824488..d992a22 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -580,11 +580,15 @@ class CholeskyParam(ParameterizationABC):
         if rank is None:
             rank = nsize
         assert 1 <= rank <= nsize
-        cholesky_fac = np.linalg.cholesky(rho)
+        # Write rho = A A^{\dagger} with A of size (nsize, rank), then A = L Q with L lower-triangular.
+        eigs, evecs = np.linalg.eigh(rho)
+        a = evecs[:, nsize - rank:] * np.sqrt(np.clip(eigs[nsize - rank:], 0., None))
+        cholesky_fac = np.conj(np.linalg.qr(np.conj(a).T, mode="r")).T
+        # Make the diagonal of L real and positive.
+        cholesky_fac = cholesky_fac * np.exp(-1j * np.angle(np.diag(cholesky_fac)))
         # First set of elements is the diagonal elements (always real).
         vec = np.diag(np.real(cholesky_fac))
-        # Add real Off-diagonal elements
-        vec = np.append(vec, np.real(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
-        # Add imaginary Off-diagonal elements
-        vec = np.append(vec, np.imag(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
+        # Add real and imaginary component of each off-diagonal element.
+        off_diag = cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]
+        vec = np.append(vec, np.ravel(np.column_stack((np.real(off_diag), np.imag(off_diag)))))
         return vec
-- 
2.43.0


From 3aacb1d2e06fad4744472e385e64a00496e0dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 13/39] fix: SLSQP optimisation returns the best of all initial
 guesses

The multi-process selection compared with the wrong sign and returned an
arbitrary (mostly the last) local optimum; without a pool the comparison
was against an OptimizeResult and raised a TypeError.
---
 PyQCodes/chan/_coherent.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 86e2ede..a84b12d 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -87,16 +87,9 @@ def _use_multi_processes(samples, bounds, args, maxiter, eps, ftol, fobjective,
     pool = Pool(processes=pool_number)
     results = pool.map(obj_func, samples)
 
-    # Initialize parameters for finding maximas over the results.
-    maxima = -1e10
-    optimal_x_val = None
-    success = False
-    for r in results:
-        if -r["fun"] > maxima:
-            maxima = r["fun"]
-            optimal_x_val = r["x"]
-            success = r["success"]
-    return maxima, success, optimal_x_val
+    # The objective functions are minimized, so the best result has the smallest value.
+    best = min(results, key=lambda r: r["fun"])
+    return best["fun"], best["success"], best["x"]
 
 
 def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjective, disp):
@@ -131,11 +124,12 @@ def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjectiv
         Returns the optimal solution found, whether it converges or not and the variables of the
         parameterization corresponding to the optimal solution.
     """
-    optimal_val = -1e10
+    # The objective functions are minimized, so the best result has the smallest value.
+    optimal_val = np.inf
     for s in samples:
         optimize = _optimize_using_slsqp(s, bounds, args, maxiter, eps, ftol, fobjective, disp)
-        if optimize["fun"] > optimal_val:
-            optimal_val = optimize
+        if optimize["fun"] < optimal_val:
+            optimal_val = optimize["fun"]
             optimal_x_val = optimize["x"]
             success = optimize["success"]
     return optimal_val, success, optimal_x_val
-- 
2.43.0


From 08fb5848692c0924073fc26bd544f80dcb7f9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 14/39] fix: accept a subclass of ParameterizationABC as
 parameterization

As documented; only instances were accepted, and instances of OverParam
could not draw random vectors.
---
 PyQCodes/chan/_coherent.py | 7 ++++---
 PyQCodes/chan/param.py     | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index a84b12d..4d8276c 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -62,10 +62,11 @@ def _choose_objective_func(objective):
 
 def _get_parameterization_scheme_density(param):
     r"""Get parameterization static class from the param string"""
-    if not (isinstance(param, str) or isinstance(param, ParameterizationABC)):
-        raise TypeError("Param should either be string or class ParameterizationABC.")
-    if isinstance(param, ParameterizationABC):
+    if isinstance(param, ParameterizationABC) or \
+            (isinstance(param, type) and issubclass(param, ParameterizationABC)):
         return param
+    if not isinstance(param, str):
+        raise TypeError("Param should either be string or class ParameterizationABC.")
     if param == "overparam":
         paramet = OverParam
     elif param == "cholesky":
diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index d992a22..6725db6 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -224,6 +224,7 @@ class OverParam(ParameterizationABC):
     # vec should be [np.sqrt(0.5), 0, 0, 0, 0, 0, np.sqrt(0.5), 0]
 
     """
+    @staticmethod
     def random_vectors(nsize, rank, dist="normal"):
         r"""
         Random vectors from specified distribution.
-- 
2.43.0


From 28c7dfd98e1ec614249861f8aba7d667eacbbe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 15/39] fix: SLSQP accepts initial guesses without the
 Lipschitz sampler

As documented, the Lipschitz sampler is only needed when no samples are given.
---
 PyQCodes/chan/_coherent.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 4d8276c..d2de690 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -271,7 +271,6 @@ def optimize_procedure(channel, n, rank, optimizer="diffev", param="overparam",
                                                                           objective_func, disp)
 
     elif optimizer == "slsqp":
-        assert lipschitz != 0, "SLSQP parameter requires 'lipschitz' parameter to be nonzero."
         # Epsilon and ftol parameters for optimizer.
         eps, ftol = 1e-5, 1e-8
 
-- 
2.43.0


From 6f556147435e3af2b1c6e5fc5d5c3abdf24810e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 16/39] fix: effective channel honours its options

The documented optimisation options were ignored.
---
 PyQCodes/find_codes.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index c4ca605..30a6cc6 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -150,7 +150,8 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
         raise TypeError("Number of Columns of Pauli error does not match 2**k.")
 
     # Parameters for optimization
-    # TODO: add coherent information parameters.
+    params = {"param": "overparam", "lipschitz": 25, "use_pool": 3, "maxiter": 250}
+    params.update(options or {})
 
     # Set up the objects, stabilizer code, pauli-channel error, respectively.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
@@ -172,12 +173,9 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
 
     # Solve the objective function
     if optimize == "coherent":
-        result = total_chan.optimize_coherent(n=1, rank=2,
-                                              optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+        result = total_chan.optimize_coherent(n=1, rank=2, optimizer="slsqp", **params)
     else:
-        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", **params)
     return result
 
 
-- 
2.43.0


From 96337e3c5389089908e0b8e9effc161872deae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 17/39] fix: encoder/decoder optimisation passes the parameters
 and maximises

The objective called the parameterised channel without its parameters (always
a TypeError) and minimised the average fidelity.
---
 PyQCodes/find_codes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index 30a6cc6..9eee81f 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -329,7 +329,11 @@ class QDeviceChannel():
             decoder(eng, register, parameters[nparams_encoder:])
 
         def objective_func(parameters, eng, register):
-            return self._device.estimate_average_fidelity(total_channel, ntimes, epsilon)
+            def chan(eng, register):
+                total_channel(eng, register, parameters)
+
+            # The fidelity is maximized.
+            return -self._device.estimate_average_fidelity(chan, ntimes, epsilon)
 
         if optimizer == "diffev":
             result = differential_evolution(objective_func, bounds=bounds, maxiter=maxiter,
@@ -338,5 +342,5 @@ class QDeviceChannel():
             raise ValueError("Does not recognize optimizer: " + str(optimizer))
 
         output = {"success" : result["success"], "params_encoder": result["x"][:nparams_encoder],
-                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": result["fun"]}
+                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": -result["fun"]}
         return output
-- 
2.43.0


From c811dd55bb1641ce466ea2b11546f0fad625496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 18/39] fix: error-correcting Kraus operators with sparse
 matrices

The truth value of a comparison of scipy sparse matrices is ambiguous.
---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 7bf06f8..6ca008e 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -345,7 +345,7 @@ class StabilizerCode():
                 error_p = error.dot(p)
 
                 # Check if they are anti-commuting.
-                if np.all(abs(error_p + p_error) < 1e-5):
+                if abs(error_p + p_error).max() < 1e-5:
                     # Append stabilier multipled by error for entire error-correcting procedure.
                     kraus.append(p.dot(error))
                     found_decoder = True  # Error is correctable.
-- 
2.43.0


From c6479078b5ffc6a234fd0670f5ae94359dc6e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 19/39] fix: effective channel with sparse Kraus operators

Iterating the COO array gives matrices scipy's sparse matrices cannot multiply.
---
 PyQCodes/find_codes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index 9eee81f..3239be0 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -164,7 +164,10 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     encoder = stab.encode_krauss_operators()
 
     # Get the kraus operators for the stabilizers that anti-commute with each kraus operator.
-    kraus = stab.kraus_operators_correcting_errors(error_chan.krauss.nth_kraus_ops, sparse=sparse)
+    errors = error_chan.krauss.nth_kraus_ops
+    if sparse:
+        errors = [x.tocsr() for x in errors]
+    kraus = stab.kraus_operators_correcting_errors(errors, sparse=sparse)
     # Multiply by the encoder to get the full approximate error-correcting.
     kraus = [x.dot(encoder) for x in kraus]
 
-- 
2.43.0


From 628449c9f0e23a856315b9c32c6ba446aa8c7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 20/39] fix: check the code parameters of stabilizers given as
 strings

The documented assertion was only made for binary representations.
---
 PyQCodes/codes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 6ca008e..5a8a771 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -171,8 +171,8 @@ class StabilizerCode():
             stabilizer_group = StabilizerCode.pauli_str_to_binary_representation(stabilizer_group)
         elif isinstance(stabilizer_group[0], (list, np.ndarray)):
             stabilizer_group = np.array(stabilizer_group)
-            assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
-            assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
+        assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
+        assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
 
         self._stab_bin_rep = stabilizer_group
         self.numb_stab = self.stab_bin_rep.shape[0]
-- 
2.43.0


From 73b88bd0ef7f5506fe08db1ffaf05cc7ea482dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 21/39] fix: apply_stabilizer_circuit accepts a pauli string,
 as documented

---
 PyQCodes/codes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 5a8a771..f59649a 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -530,6 +530,8 @@ class StabilizerCode():
         if isinstance(stabilizer, (list, np.ndarray)):
             # Convert to Pauli String.
             pauli_str = StabilizerCode.binary_rep_to_pauli_str(stabilizer)
+        else:
+            pauli_str = stabilizer
 
         for i, pauli_op in enumerate(pauli_str):
             print(pauli_op)
-- 
2.43.0


From 94c92f30b0015ff2dc17748db14a1249c456c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 22/39] fix: decoding circuit returns each qubit once

When the ancilla qubits were already part of the register they were appended
a second time.
---
 PyQCodes/codes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index f59649a..f7fb646 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -628,7 +628,9 @@ class StabilizerCode():
                 register_ancilla = register[self.n:]
                 del register[:self.n]
             return register_ancilla
-        return register + register_ancilla
+        if add_ancilla_bits:
+            return register + register_ancilla
+        return register
 
     def logical_circuit(self, eng, register, pauli_op):
         r"""
-- 
2.43.0


From 3bcdaefefd9cbb6fe7e65028e0b26f274b93a08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 23/39] fix: reset the measurement ancilla of the register

After an outcome of one the ancilla stayed in |1>, which flipped the outcome
of every later syndrome measurement using it.
---
 PyQCodes/codes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index f7fb646..c06a31e 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -429,6 +429,10 @@ class StabilizerCode():
         result = int(measure_qubit)
         if numb_qubits == self.n:
             del measure_qubit
+        elif result == 1:
+            # Reset the ancilla of the register, so that it can be used again.
+            XGate() | measure_qubit
+            eng.flush()
         return result
 
     def encoding_circuit(self, eng, register, state):
-- 
2.43.0


From 9b7a1fe8233ffbf7a7fcc3392034e9cb6d4e6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:42 +0000
Subject: [PATCH 24/39] fix: code concatenation with general logical operators
 and block sizes

The Z part of logical X (and X part of logical Z) of the inner code was
dropped, blocks were assigned as if l equalled the number of blocks and n
equalled m, identities repeated the previous operator, and the documented
ValueError was asserted instead of raised.
---
 PyQCodes/codes.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index c06a31e..5cddf42 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1016,7 +1016,7 @@ class StabilizerCode():
         m, l = stab2.n, stab2.k
 
         if n % l != 0:
-            assert ValueError("Code concatenation only works when l divides n, ie n | l.")
+            raise ValueError("Code concatenation only works when l divides n, ie n | l.")
 
         generator = []
         # Suppose l = 1
@@ -1047,13 +1047,13 @@ class StabilizerCode():
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer.
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Operator.
                         new_gen_x.extend(logical_x[:m])
-                        new_gen_z += [0] * m
+                        new_gen_z.extend(logical_x[m:])
                     elif pauli == 0 and stabilizer[n + j] == 1:  # Z Operator.
-                        new_gen_x += [0] * m
+                        new_gen_x.extend(logical_z[:m])
                         new_gen_z.extend(logical_z[m:])
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Operator.
-                        new_gen_x.extend(logical_x[:m])
-                        new_gen_z.extend(logical_z[m:])
+                        new_gen_x.extend((logical_x[:m] + logical_z[:m]) % 2)
+                        new_gen_z.extend((logical_x[m:] + logical_z[m:]) % 2)
                     else:
                         new_gen_x += [0] * m
                         new_gen_z += [0] * m
@@ -1086,9 +1086,9 @@ class StabilizerCode():
                 new_gen_z = np.zeros((total_qubits), dtype=np.int)
 
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer element.
-                    which_logical_op = j % numb_blocks  # Modulo the number of blocks.
+                    which_logical_op = j % l  # Each block encodes l qubits.
 
-                    which_block = int(np.floor(j / numb_blocks))
+                    which_block = j // l
 
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Block Operator.
                         current_logical = logical_x[which_logical_op]
@@ -1097,10 +1097,11 @@ class StabilizerCode():
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Block Operator
                         current_logical = (logical_z[which_logical_op] +
                                            logical_x[which_logical_op]) % 2
+                    else:  # Identity.
+                        continue
 
                     # Get the range of qubits that it acts on.
-                    # TODO: should this be n or m.
-                    range_qubits = (n * which_block, n * (which_block + 1))
+                    range_qubits = (m * which_block, m * (which_block + 1))
 
                     new_gen_x[range_qubits[0]: range_qubits[1]] = \
                         (new_gen_x[range_qubits[0]: range_qubits[1]] + current_logical[:m]) % 2
-- 
2.43.0


From 6dfe6d6d7cc02d329a8ff5f2f2e2394a607b1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 25/39] fix: rank of the X block over the binary field in the
 normal form

---
 PyQCodes/codes.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 5cddf42..f81abfd 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -705,6 +705,22 @@ class StabilizerCode():
         normalizer = self.normalizer()
         return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
 
+    @staticmethod
+    def _binary_rank(binary_matrix):
+        r"""Return the rank of a binary matrix over the field with two elements."""
+        matrix = np.array(binary_matrix) % 2
+        rank = 0
+        for i_col in range(matrix.shape[1]):
+            pivots = rank + np.flatnonzero(matrix[rank:, i_col])
+            if len(pivots) == 0:
+                continue
+            matrix[[rank, pivots[0]]] = matrix[[pivots[0], rank]]
+            for i_row in range(rank + 1, matrix.shape[0]):
+                if matrix[i_row, i_col] != 0:
+                    matrix[i_row] = (matrix[i_row] + matrix[rank]) % 2
+            rank += 1
+        return rank
+
     def _gaussian_elimination_first_block(self):
         r"""
         Perform Gaussian Elimination On the first block G1 from binary representation [G1 | G2].
@@ -729,7 +745,7 @@ class StabilizerCode():
         """
         output = self.stab_bin_rep.copy()
 
-        rank = np.linalg.matrix_rank(self.stab_bin_rep[:, :self.n])
+        rank = self._binary_rank(self.stab_bin_rep[:, :self.n])
         numb_stabs = self.numb_stab
         assert self.stab_bin_rep.shape[0] == numb_stabs
 
-- 
2.43.0


From dbbe63296655938ebc8a500c3e0e7d0fb1e081ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 26/39] fix: normalizer and undetectable errors of the
 stabilizer group

---
 PyQCodes/codes.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index f81abfd..578bdb0 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -703,7 +703,7 @@ class StabilizerCode():
 
         """
         normalizer = self.normalizer()
-        return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
+        return [self.binary_rep_to_pauli_str(x) for x in normalizer]
 
     @staticmethod
     def _binary_rank(binary_matrix):
@@ -979,20 +979,22 @@ class StabilizerCode():
 
         """
         normalizer = []
+        rank_stab = self._binary_rank(self.stab_bin_rep)
         # Worse-case algorithm. Go through every permutation
         all_pauli_reps = itertools.product([0, 1], repeat=2 * self.n)
         # all_pauli_reps = self.generator_set_pauli_elements()
         for pauli in all_pauli_reps:
-            pauli = list(pauli)
+            pauli = np.array(pauli)
             does_commute = True
 
             # TODO: Vectorize this.
             for stab in self.stab_bin_rep:
-                if not self._commute(stab, pauli):
+                if self.inner_prod(stab, pauli) != 0:
                     does_commute = False
                     break
-            # If it commutes and satisfies couple of generator conditions.
-            if does_commute:
+            # If it commutes and is not in the stabilizer group itself.
+            if does_commute and \
+                    self._binary_rank(np.vstack((self.stab_bin_rep, pauli))) > rank_stab:
                 normalizer.append(pauli)
         return np.array(normalizer)
 
-- 
2.43.0


From b8179f419cb73151aa7be5da81a5d1d43f706dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 27/39] fix: objective and dimensions of the optimal decoder

---
 PyQCodes/avgfid/avg_fidelity.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index e58f104..a24cb63 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -96,7 +96,8 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     else:
         kraus_chan = [x.dot(encoder) for x in error_chan.nth_kraus_operators]
 
-    numb_qubits = [code_param[1], code_param[0]]
+    # The recovery operator goes from n qubits to k qubits.
+    numb_qubits = [code_param[0], code_param[1]]
     dim_in, dim_out = 2, 2
     result = _optimize_average_entang_fid(kraus_chan, numb_qubits, dim_in, dim_out, options=options)
     return result
@@ -188,7 +189,10 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
     """
     P = pic.Problem()
     input_dim = dim_in ** numb_qubits[0]  # Dimension of hilbert space of input.
-    numb_rows_cols = input_dim * dim_out ** numb_qubits[1]  # Number of rows/cols of choi-matrix.
+    output_dim = dim_out ** numb_qubits[1]  # Dimension of hilbert space of output.
+    numb_rows_cols = input_dim * output_dim  # Number of rows/cols of choi-matrix.
+    # Dimension of the encoded information, the input of the encoder or the output of the recovery.
+    code_dim = input_dim if encoder else output_dim
 
     # Optimize with respect to encoder or decoder.
     X = P.add_variable('X', (numb_rows_cols, numb_rows_cols), 'hermitian')
@@ -208,12 +212,12 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
         print("The size is ", krauss[0].size)
         print(krauss[0].shape)
         print(type(krauss[0]))
-        C_e_sparse = sum([np.outer(k.conj().reshape((np.prod(k.shape), 1), order="F"),
-                                   k.conj().reshape((np.prod(k.shape), 1), order="F"))
-                          for k in krauss]) / input_dim**2
+        vecs = [k.conj().T.reshape((np.prod(k.shape), 1), order="F").tocsr() for k in krauss]
+        C_e_sparse = sum([vec.dot(vec.conj().T) for vec in vecs]) / code_dim**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / input_dim**2
+                            np.conj(np.ravel(np.conj(k).T, order="F"))) for k in krauss])
+        C_e = C_e / code_dim**2
         C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
-- 
2.43.0


From b3e83d6b8c919385eb1be0c241fc8ccbca511ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:52 +0000
Subject: [PATCH 28/39] fix: Choi channel returns an array, as documented

The partial trace went through QuTiP objects and returned a numpy matrix,
on which '*' and indexing behave differently from the array of Kraus channels.
---
 PyQCodes/chan/_choi.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index e904848..b764ba1 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -27,7 +27,7 @@ THE SOFTWARE.
 import numpy as np
 from scipy.linalg import sqrtm
 
-from qutip import Qobj, ptrace
+from qutip import Qobj
 
 
 __all__ = ["ChoiQutip"]
@@ -193,11 +193,11 @@ class ChoiQutip():
         if adjoint:
             return sum([np.conj(k).T.dot(rho).dot(k) for k in self.kraus_operators()])
         # Definition is taken from John Watrous.
-        choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
+        choi_rho = self.choi.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
-        # Keep the following dimensions when doing partial trace
-        keep = [i for i in range(self.num_in, self.num_in + self.num_out)]
-        return ptrace(Qobj(choi_rho, dims=self.dim), keep).data.todense()
+        # Partial trace over the input particles.
+        dims = (self.input_dim, self.output_dim)
+        return np.einsum("iaib->ab", choi_rho.reshape(dims + dims))
 
     def complementary_channel(self, rho):
         r"""
-- 
2.43.0


From fadd4ba91d1c593c6f3a06b51fcb37b60dc52fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:02 +0000
Subject: [PATCH 29/39] fix: refuse Pauli strings of different lengths

The letters beyond the length of the first string were dropped silently.
---
 PyQCodes/codes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 578bdb0..89ae361 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1231,6 +1231,8 @@ class StabilizerCode():
         n = len(paulis[0])
         binary_rep = np.zeros((len(paulis), 2 * n))
         for i, p in enumerate(paulis):
+            if len(p) != n:
+                raise ValueError("Pauli strings should have the same length.")
             for j in range(0, n):
                 if p[j] == "X":
                     binary_rep[i][j] = 1
-- 
2.43.0


From ebfdc4c80960ac40f034349000eac01d9da657a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 30/39] fix: entropy ignores negative eigenvalues due to
 rounding

---
 PyQCodes/chan/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index d64b5e4..2119bb4 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -527,7 +527,8 @@ class AnalyticQChan():
             eigs = np.linalg.eigvalsh(mat)
         else:
             eigs = np.ravel(np.linalg.eigvalsh(mat))
-        no_zeros = eigs[np.abs(eigs) > cut_off]
+        # Rounding may produce small negative eigenvalues.
+        no_zeros = eigs[eigs > cut_off]
         return -np.sum(no_zeros * np.log2(no_zeros))
 
     def coherent_information(self, rho, n, regularized=False):
-- 
2.43.0


From 25eca350b3522dd5c99672de8ce943751a18ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 31/39] fix: codes keep their own copy of the logical operators
 given

---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 89ae361..d4c2968 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -195,7 +195,7 @@ class StabilizerCode():
                                                    "should be 2*n."
             assert logical_ops[1].shape[1] == 2*n, "Number of columns of Z logical operators " \
                                                    "should be 2*n."
-            self._logical_x, self._logical_z = logical_ops
+            self._logical_x, self._logical_z = [np.array(op) for op in logical_ops]
 
     @property
     def n(self):
-- 
2.43.0


From f8f9ba4aa04ebd5eb8805ee3046e23fd75bea73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 32/39] fix: reset of registers in superposition or with
 pending gates

---
 PyQCodes/device_adaptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyQCodes/device_adaptor.py b/PyQCodes/device_adaptor.py
index f3007a6..8ff9540 100644
--- a/PyQCodes/device_adaptor.py
+++ b/PyQCodes/device_adaptor.py
@@ -128,9 +128,13 @@ class ProjectQDeviceAdaptor(DeviceAdaptorABC):
         """
         if not self._real_device:
             if cheat:
+                # Qubits need to be allocated and previous gates applied beforehand.
+                self.eng.flush()
                 probability = [1.] + [0.] * (2**self.numb_qubits - 1)
                 self.eng.backend.set_wavefunction(probability, self.register)
             else:
+                # Qubits in superposition cannot be deallocated, hence measure them.
+                All(Measure) | [qubit for qubit in self.register if qubit.id != -1]
                 self.eng.flush(deallocate_qubits=True)
                 self._register = self.eng.allocate_qureg(self.numb_qubits)
                 self.eng.flush()
-- 
2.43.0


From 08d061db42f902788a62b2983255183f60c5f3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:31 +0000
Subject: [PATCH 33/39] fix: Kraus objects share the caller's sparse operators
 and lists

---
 PyQCodes/chan/_kraus.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 61a2ade..e61d61d 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -97,7 +97,7 @@ class Kraus(ABC):
 
         self.numb_kraus = len(kraus_ops)
         # Note that numb_qubits reset to one when multiplying kraus operators A * B, see __mul__.
-        self._numb_qubits = numb_qubits
+        self._numb_qubits = list(numb_qubits)
         self.input_dim = dim_in**numb_qubits[0]
         self.output_dim = dim_out**numb_qubits[1]
         self._dim_in = dim_in
@@ -396,8 +396,9 @@ class SparseKraus(Kraus):
         # If kraus operators aren't in sparse format.
         if isinstance(kraus_ops, (list, np.ndarray)):
             self.kraus_ops = COO(np.array(kraus_ops, dtype=np.complex128),)
-        else:
-            self.kraus_ops = kraus_ops
+        elif isinstance(kraus_ops, SparseArray):
+            # Store a copy of the single kraus operators.
+            self.kraus_ops = kraus_ops.copy(deep=True)
         super(SparseKraus, self).__init__(kraus_ops, numb_qubits, dim_in, dim_out)
 
     def __add__(self, other):
@@ -704,7 +705,7 @@ class DenseKraus(Kraus):
             raise TypeError("Kraus operators should be a list or numpy array.")
         # Store a copy of the single kraus operators.
         self.kraus_ops = np.array(kraus_ops, dtype=np.complex128)
-        self._orthogonal_kraus = orthogonal_kraus
+        self._orthogonal_kraus = tuple(orthogonal_kraus)
         super(DenseKraus, self).__init__(kraus_ops, numb_qubits, dim_in=dim_in, dim_out=dim_out)
 
     @property
-- 
2.43.0


From 8f2923e938de2c32e91f87aa179c98d09d0bbedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:31 +0000
Subject: [PATCH 34/39] fix: sparse array that is not three-dimensional
 accepted as channel

---
 PyQCodes/chan/channel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 2119bb4..b888763 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -200,6 +200,9 @@ class AnalyticQChan():
             self._type = "choi"
             self.choi = ChoiQutip(operator, numb_qubits, dim_in, dim_out)
 
+        else:
+            raise TypeError("Sparse operators should be three-dimensional kraus operators.")
+
     @property
     def nth_kraus_operators(self):
         r"""
-- 
2.43.0


From 0cbed2f3cacd8b31c3022e22bd44f94d2da26809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 35/39] fix: syndrome measurement next to other qubits took a
 code qubit as ancilla

---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index d4c2968..c5c94d8 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -386,7 +386,7 @@ class StabilizerCode():
         - See Quantum Error Correction Book By Daniel Lidar Page 72.
 
         """
-        numb_qubits = len(eng.active_qubits)
+        numb_qubits = len(register)
 
         # The additional qubit is for measurement purposes.
         if numb_qubits != self.n and numb_qubits != self.n + 1:
-- 
2.43.0


From 211f57da2c12ef1b914e1a6d411e7f61f79ff98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 36/39] fix: errors of small amplitude taken to anticommute
 with every stabilizer

---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index c5c94d8..4b597ed 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -345,7 +345,7 @@ class StabilizerCode():
                 error_p = error.dot(p)
 
                 # Check if they are anti-commuting.
-                if abs(error_p + p_error).max() < 1e-5:
+                if abs(error_p + p_error).max() < 1e-5 * abs(error).max():
                     # Append stabilier multipled by error for entire error-correcting procedure.
                     kraus.append(p.dot(error))
                     found_decoder = True  # Error is correctable.
-- 
2.43.0


From 0b5f39056a4270ea9d9d2efcba349a428d5a4500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:42 +0000
Subject: [PATCH 37/39] fix: effective channel of codes with several logical
 qubits

---
 PyQCodes/find_codes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index 3239be0..759b029 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -157,7 +157,8 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
 
     # Figure out the dimensions of channel later.
-    error_chan = AnalyticQChan(pauli_errors, [1, 1], 2, 2, sparse=sparse)
+    numb_channel = [code_param[1], code_param[1]]  # The errors act on k qubits.
+    error_chan = AnalyticQChan(pauli_errors, numb_channel, 2, 2, sparse=sparse)
     error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
 
     # Get Kraus Operator for encoder.
-- 
2.43.0


From 45f9c7be7bcb5c791657e669fda0b2c8016a3a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:42 +0000
Subject: [PATCH 38/39] fix: optimal decoder of codes with several logical
 qubits

---
 PyQCodes/avgfid/avg_fidelity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index a24cb63..582991b 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -84,7 +84,8 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     """
     # Set up stabilizer code, pauli-channel error and update the channel to match encoder.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
-    error_chan = AnalyticQChan(kraus_chan, [1, 1], 2, 2, sparse=sparse)
+    numb_channel = [code_param[1], code_param[1]]  # The channel acts on k qubits.
+    error_chan = AnalyticQChan(kraus_chan, numb_channel, 2, 2, sparse=sparse)
     error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
 
     # Get Kraus Operator for encoder.
-- 
2.43.0


From 212fcea0f2e70ba51e95a6a6fd9160aafe817ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:03 +0000
Subject: [PATCH 39/39] fix: logical_circuit addresses every logical operator
 of codes with more than ten logical qubits

---
 PyQCodes/codes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 4b597ed..afb5244 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -667,9 +667,11 @@ class StabilizerCode():
         >> code.logical_circuit(eng, register, "Z1"0
 
         """
-        assert len(pauli_op) == 2, "'pauli_op' should be length two."
+        # Split into the letter and the (decimal) index of the logical operator, e.g. "X10".
+        pauli_op = (pauli_op[:1], pauli_op[1:])
         assert pauli_op[0] in ['X', 'Y', 'Z'], "First character of 'pauli_op' should be X, Y or Z."
-        assert 0 <= int(pauli_op[1]) < self.k, "Second character should be integer from 0 to k-1."
+        assert pauli_op[1] in map(str, range(self.k)), \
+            "Letter should be followed by an integer from 0 to k-1."
 
         if pauli_op[0] == 'X':
             logical_x_ith = self.logical_x[int(pauli_op[1])]
-- 
2.43.0

