From 6a9db6f5b2558e063c3e1ecd976c7342b9870c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 01/13] fix: treat equal unitaries as close at a threshold of
 1.0

Rounding leaves distances of about 1e-16 between equal unitaries, so
close_to(u, 1.0) was False for many u and an exact compilation with
threshold=1.0 never stopped.
---
 stoqcompiler/unitary/unitary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 5dbbe85..6347d5e 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -298,7 +298,7 @@ class Unitary:
         distance = self.distance_from(u)
         if threshold is not None:
             max_distance = 1.0 - threshold
-            return distance <= max_distance
+            return distance <= max_distance or np.isclose(distance, 0.0)
 
         return np.isclose(distance, 0.0)
 
-- 
2.43.0


From 24a977ed23879a4eb3379d86e87e2ef1cf06f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 02/13] fix: invert repeated sequence entries exactly once

An entry object that occurs several times in a sequence was inverted in
place once per occurrence, so its inverse sequence had wrong entries.
---
 stoqcompiler/unitary/unitary_sequence.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 897e003..ba7e0c5 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -258,9 +258,9 @@ class UnitarySequence:
         inverse_sequence = UnitarySequence(
             self.get_dimension(), self.get_sequence_entries())
         inverse_sequence.sequence_entries.reverse()
-        for entry in inverse_sequence.sequence_entries:
-            entry.unitary = entry.unitary.inverse()
-            entry.full_unitary_by_dimension = {}
+        inverse_sequence.sequence_entries = [
+            UnitarySequenceEntry(entry.unitary.inverse(), entry.apply_to)
+            for entry in inverse_sequence.sequence_entries]
         inverse_sequence.sequence_product = self.product().inverse()
         return inverse_sequence
 
-- 
2.43.0


From 38637e6e417772276e45a9db1083f600b0a8aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 03/13] fix: keep sequence entries given as an array in a list

The constructor accepts np.ndarray, but append, remove and inverse on
such a sequence failed with AttributeError.
---
 stoqcompiler/unitary/unitary_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index ba7e0c5..b666727 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -35,7 +35,7 @@ class UnitarySequence:
                 or isinstance(sequence_entries, np.ndarray))
         [self._assert_is_entry_valid(entry) for entry in sequence_entries]
 
-        self.sequence_entries = copy.deepcopy(sequence_entries)
+        self.sequence_entries = copy.deepcopy(list(sequence_entries))
         self.sequence_product = None
 
         self.previous_entries = None
-- 
2.43.0


From c60e49eb3af2cddc1624b03cf387613d84e8073d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 04/13] fix: store qubit indices as plain integers

Randomly chosen qubits are numpy integers, which numpy 2 displays as
'Rx[np.int64(0)]'.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 720ea99..183bab5 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -32,7 +32,7 @@ class UnitarySequenceEntry:
         assert np.min(apply_to) >= 0
 
         self.unitary = unitary
-        self.apply_to = apply_to
+        self.apply_to = [int(qubit) for qubit in apply_to]
         self.full_unitary_by_dimension = {}
 
     def get_dimension(self) -> int:
-- 
2.43.0


From 6bbe315766d45f263e02356d271ba9a9e9dd98d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 05/13] fix: keep the inverse marking of sequence entries

The full unitary of an inverted entry lost its inverse marking, so the
display output of an inverted sequence showed the original operations.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 183bab5..ac1a9f3 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -164,6 +164,7 @@ class UnitarySequenceEntry:
                 full_matrix,
                 operation_name,
                 self.unitary.parameter_dict,
+                is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
         return self.full_unitary_by_dimension[system_dimension]
-- 
2.43.0


From f8c44c7adce0fa629f6cf89e4c7d2009e9461947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 06/13] fix: compile with unitary primitives given as an array

The constructor accepts np.ndarray, whose truth value is ambiguous.
---
 stoqcompiler/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d8f1c59..2a7c4c0 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -98,7 +98,7 @@ class Compiler:
         :rtype: CompilerResult
         '''
         assert isinstance(target_unitary, Unitary)
-        assert self.unitary_primitives
+        assert len(self.unitary_primitives) > 0
 
         initial_time = time.perf_counter()
         compiled_sequence, cost_by_step = self._compile(
-- 
2.43.0


From 6cb03beda161305bb0b3cbae9782a5125f1b7cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 07/13] fix: drop the probabilities of primitives that cannot
 be applied

Primitives with an empty allowed_apply_to list were left out of the
choice, but their probabilities were not.
---
 stoqcompiler/compiler/compiler.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 2a7c4c0..2cf2c24 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -214,10 +214,17 @@ class Compiler:
         '''
         # choose from unitary_primitives where the allowed_apply_to list
         # is not empty
-        unitary_primitives = [
-            u for u in unitary_primitives
-            if (u.get_allowed_apply_to() is None
-                or len(u.get_allowed_apply_to()) > 0)]
+        is_allowed = [
+            (u.get_allowed_apply_to() is None
+             or len(u.get_allowed_apply_to()) > 0)
+            for u in unitary_primitives]
+        if not np.all(is_allowed):
+            unitary_primitives = [
+                u for u, allowed in zip(unitary_primitives, is_allowed)
+                if allowed]
+            if probabilities is not None:
+                probabilities = np.asarray(probabilities)[is_allowed]
+                probabilities = probabilities / np.sum(probabilities)
 
         # randomly choose one of the unitary primitives and assign random
         # parameter values
-- 
2.43.0


From e93ba62d6227266fc972ef56407f9b2954627f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 08/13] fix: start each compilation with a fresh annealing
 schedule

The annealing parameter was carried over from one compilation to the
next on the same Compiler, so later compilations were quenched from the
first step.
---
 stoqcompiler/compiler/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 2cf2c24..1b6169d 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -166,6 +166,7 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        self.beta = 0.0
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
@@ -263,6 +264,7 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        self.beta = 0.0
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
-- 
2.43.0


From 4a6a19606ebc5350e60b0a2e264e9d443101da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 09/13] fix: reject entries on qubits beyond 61

2**(np.max(qubits) + 1) overflows in 64-bit integers, so entries on
qubits from 62 on were accepted by sequences of any size.
---
 stoqcompiler/unitary/unitary_sequence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index b666727..d44e3f8 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -87,7 +87,8 @@ class UnitarySequence:
         assert isinstance(sequence_entry, UnitarySequenceEntry), \
             type(sequence_entry)
         assert sequence_entry.get_dimension() <= self.dimension
-        assert 2**(np.max(sequence_entry.get_apply_to()) + 1) <= self.dimension
+        assert (max(sequence_entry.get_apply_to()) + 1
+                <= np.log2(self.dimension))
 
     def get_dimension(self) -> int:
         '''
-- 
2.43.0


From 9d0ce8137693d9dc080ae959dc0f0ffdc7a3061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 10/13] fix: reject fractional qubit indices

Conversion to int cut them off, so that an operation given for qubit
0.5 was applied to qubit 0, and [0.5, 0] to qubit 0 twice.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index ac1a9f3..ec3b9dc 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -1,6 +1,7 @@
 '''
 Defines the UnitarySequenceEntry class.
 '''
+import operator
 import numpy as np
 import scipy.sparse
 from typing import List
@@ -32,7 +33,7 @@ class UnitarySequenceEntry:
         assert np.min(apply_to) >= 0
 
         self.unitary = unitary
-        self.apply_to = [int(qubit) for qubit in apply_to]
+        self.apply_to = [int(operator.index(qubit)) for qubit in apply_to]
         self.full_unitary_by_dimension = {}
 
     def get_dimension(self) -> int:
-- 
2.43.0


From 0e645c06ba5156ba94e61536393a4da4a159dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 11/13] fix: cap the annealing parameter correctly for numpy
 dimensions

(2**dimension)**2 overflows to zero for a numpy integer dimension of 32
(np.int64) or 16 (np.int32), and every change was accepted.
---
 stoqcompiler/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 1b6169d..0266689 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -66,7 +66,7 @@ class Compiler:
         self.unitary_primitives = copy.deepcopy(unitary_primitives)
         self.unitary_primitive_probabilities = copy.deepcopy(
             unitary_primitive_probabilities)
-        self.max_beta = (2**dimension) ** 2
+        self.max_beta = (2**int(dimension)) ** 2
         self.beta = 0.0
         self.annealing_rate = annealing_rate
         self.append_probability = append_probability
-- 
2.43.0


From f67d79850186137d43d0449c95b44d3adbf97ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:07 +0000
Subject: [PATCH 12/13] fix: evolve under single-precision Hamiltonian matrices

The exponential was taken in single precision, and its result rejected
as not being unitary.
---
 stoqcompiler/unitary/unitary_definitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_definitions.py b/stoqcompiler/unitary/unitary_definitions.py
index e18ad03..78c1a6c 100644
--- a/stoqcompiler/unitary/unitary_definitions.py
+++ b/stoqcompiler/unitary/unitary_definitions.py
@@ -279,6 +279,7 @@ class UnitaryDefinitions:
         :rtype: Unitary
         '''
         assert isinstance(h_matrix, np.ndarray)
+        h_matrix = h_matrix.astype(np.complex128)
         assert np.allclose(h_matrix, h_matrix.T.conj())
 
         dimension = h_matrix.shape[0]
-- 
2.43.0


From 90cb7cb5cd2bb443972de61db8313780cc07bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 13/13] fix: accept a threshold of None in RAV generation, as
 documented

---
 stoqcompiler/verification/verification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 63b1e7e..fe7b1f4 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -66,7 +66,7 @@ class Verification:
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitives])
         assert sequence_length >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or 0.0 <= threshold <= 1.0
 
         # Generate a random sequence of the desired length
         random_sequence = UnitarySequence(dimension)
@@ -146,7 +146,7 @@ class Verification:
             isinstance(count, int)
             for count in unitary_primitive_counts.values()])
         assert layer_count >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or 0.0 <= threshold <= 1.0
 
         # Generate a random sequence of the desired number of layers
         # Total sequence length will therefore be
-- 
2.43.0

