From b28c5a00a76b1dc267ef67a040b817bbac49834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 01/39] fix: raise the length-mismatch error in OperatorString

---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5e6dfa8..d86a735 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -123,7 +123,7 @@ class OperatorString:
         self.op_type           = op_type
 
         if len(self.orbital_operators) != len(self.orbital_labels):
-            ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
+            raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
         self.prefactor = prefactor
 
-- 
2.43.0


From 3fd926fe1263befe878fb96257db4e4f49d5eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 02/39] fix: make OperatorString equality, hash and Majorana
 prefactor consistent

---
 qosy/operatorstring.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index d86a735..5556b49 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -146,12 +146,17 @@ class OperatorString:
             num_swaps_to_reorder = (num_ab*(num_ab-1))/2
             if num_swaps_to_reorder % 2 == 1:
                 self.prefactor = 1j
+            elif self.prefactor == 1j:
+                self.prefactor = 1.0
 
         if (self.op_type == 'Pauli' and self.prefactor != 1) \
            or (self.op_type == 'Majorana' and self.prefactor not in [1, 1j]) \
            or (self.op_type == 'Fermion' and self.prefactor not in [1, 1j]):
             raise ValueError('Invalid prefactor {} for operator string of op_type {}'.format(self.prefactor, self.op_type))
                  
+        # Equal strings need equal names, so store the prefactor in one form.
+        self.prefactor = 1.0 if self.prefactor == 1 else 1j
+
         name_list = [str(self.prefactor),' ']
         for (op, la) in zip(self.orbital_operators, self.orbital_labels):
             name_list.extend([op, ' ', str(la), ' '])
@@ -209,7 +214,7 @@ class OperatorString:
             >>> op_string1 == op_string3 # True
         """
         
-        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type)
+        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type) and (self.prefactor == other.prefactor)
         
         return equals
 
-- 
2.43.0


From 5919ee05575996e5b1b92a4070f4c99cc39b6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 03/39] fix: reject unknown orbital operators and types in
 OperatorString

---
 qosy/operatorstring.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5556b49..15e03e5 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -125,6 +125,13 @@ class OperatorString:
         if len(self.orbital_operators) != len(self.orbital_labels):
             raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
+        valid_ops = {'Pauli': PAULI_OPS, 'Majorana': MAJORANA_OPS, 'Fermion': FERMION_OPS}
+        if self.op_type not in valid_ops:
+            raise ValueError('Unknown operator string type: {}'.format(self.op_type))
+        for op in self.orbital_operators:
+            if op not in valid_ops[self.op_type]:
+                raise ValueError('Invalid orbital operator {} for operator string of op_type {}'.format(op, self.op_type))
+
         self.prefactor = prefactor
 
         # Stored for use in computing commutators.
-- 
2.43.0


From 8093584f28b6d2917d34cd152d7daa5406ddb71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 04/39] fix: copy the list of OperatorStrings given to a Basis

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 25867a1..520f0f1 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -48,7 +48,7 @@ class Basis:
         if op_strings is None:
             op_strings = []
         
-        self.op_strings = op_strings
+        self.op_strings = list(op_strings) # Copied, so that growing the Basis does not change the input.
 
         # A dictionary that maps each OperatorString
         # to its index in the list op_strings.
-- 
2.43.0


From 010b1c515af3e04273cb31fcf8822a29f74458db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 05/39] fix: order the C labels of fermion strings in
 cluster_basis as documented

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 520f0f1..0fd1df9 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -854,7 +854,7 @@ def cluster_basis(k, cluster_labels, op_type, include_identity=False):
                     possible_prefactors = [1.0, 1j]
                     for prefactor in possible_prefactors:
                         for ind_labels_backward in range(max_ind_labels_backward):
-                            labels_backward = possible_labels_backward[ind_labels_backward]
+                            labels_backward = possible_labels_backward[ind_labels_backward][::-1]
                             
                             ops    = ['CDag']*len(labels_forward) + ['C']*len(labels_backward)
                             labels = np.concatenate((labels_forward, labels_backward))
-- 
2.43.0


From ef7beb1f73eed338599cefabfdd07cffe8eecd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 06/39] fix: convert the Fermion identity without identity to
 the zero operator

---
 qosy/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index b0eed54..0fdfd82 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -307,7 +307,7 @@ def _convert_fermion_string(op_string, include_identity=False):
         coeffs_majorana.append(coeffM)
         op_strings_majorana.append(op_string_M)
 
-    return Operator(np.array(coeffs_majorana), op_strings_majorana)
+    return Operator(np.array(coeffs_majorana), op_strings_majorana, op_type='Majorana')
 
 def _convert_operator_string(op_string, to_op_type, include_identity=False):
     # Converts an OperatorString to a linear combination of
-- 
2.43.0


From 73160704ebf457f13e7f00f148f2ab391edd97f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 07/39] fix: include the identity in distance_basis when
 requested

---
 qosy/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index 0fd1df9..14abe8f 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -950,6 +950,8 @@ def distance_basis(lattice, k, R, op_type, allowed_orbitals=None, include_identi
     sorted_clusters = sorted(clusters, key=cmp_to_key(compare))
     
     total_basis = Basis()
+    if include_identity:
+        total_basis += OperatorString([], [], op_type) # Identity operator
     for cluster_labels in sorted_clusters:
         total_basis += cluster_basis(k, cluster_labels, op_type)
         
-- 
2.43.0


From 710cf8a87a30ac010c283c418a0f9a3d0c807600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 08/39] fix: close the symmetry group in symmetrize_basis

---
 qosy/symmetrization.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 35adf6a..c7138f9 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -59,25 +59,18 @@ def symmetrize_basis(basis, group_generators, tol=1e-12):
     # Construct the symmetry group G from its generators.
     num_orbitals = len(group_generators[0].info)
     I = label_permutation(np.arange(num_orbitals)) # Identity transformation
-    G = [I]
-    G_set = set(G)
-    newG = G + group_generators
-    newG_set = set([tuple(g.info) for g in newG])
-    
-    while len(newG) != len(G):
-        G = newG
-        G_set = newG_set
-        
-        # Generate new group elements
+    G     = [I]
+    G_set = set([tuple(I.info)])
+
+    # Generate new group elements until the group is closed.
+    for g in G:
         for gen in group_generators:
-            for g in G:
-                perm       = compose_permutations(g.info, gen.info)
-                perm_tuple = tuple(perm)
-                if perm_tuple not in newG_set:
-                    newG_set.add(perm_tuple)
-                    perm_transformation = label_permutation(perm)
-                    newG.append(perm_transformation)
-        
+            perm       = compose_permutations(g.info, gen.info)
+            perm_tuple = tuple(perm)
+            if perm_tuple not in G_set:
+                G_set.add(perm_tuple)
+                G.append(label_permutation(perm))
+
     # The symmetrized basis will be a list of Operators
     # that obey the given discrete group symmetries.
     symmetrized_basis  = []
-- 
2.43.0


From 65ad01038f8299e32e2e709fc811b4e93ef3067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 09/39] fix: compute the minimum-image distance for skewed
 lattices and numpy indices

---
 qosy/lattice.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 684ef53..18a291e 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -129,14 +129,20 @@ class Lattice:
         # to another. They are used to check for wrapping of points
         # around the periodic edges.
         self._boundary_vectors = [np.zeros(self.dim)]
+        self._periods          = []
         for ind_vec in range(self.dim):
             if self.periodic_boundaries[ind_vec]:
                 previous_bvecs = list(self._boundary_vectors)
                 boundary_vec   = self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec]
 
+                self._periods.append(boundary_vec)
                 self._boundary_vectors = previous_bvecs \
                                          + [boundary_vec + pbv for pbv in previous_bvecs] \
                                          + [-boundary_vec + pbv for pbv in previous_bvecs]
+
+        # Used to obtain the coordinates of a vector with respect to the periods.
+        if len(self._periods) > 0:
+            self._inv_periods = nla.pinv(np.transpose(self._periods))
                     
     def index(self, position, orbital_name=''):
         """Return the index of the orbital whose atom is located
@@ -193,25 +199,34 @@ class Lattice:
         -------
             The closest distance between the two positions.
 
-        Notes
-        -----
-        At least one of the two positions needs to be within
-        the boundaries of the lattice for the periodic
-        boundaries to be computed correctly.
         """
 
-        if type(position1) is int:
+        if isinstance(position1, (int, np.integer)):
             (pos1, _, _) = self._orbitals[position1]
         else:
             pos1 = position1
             
-        if type(position2) is int:
+        if isinstance(position2, (int, np.integer)):
             (pos2, _, _) = self._orbitals[position2]
         else:
             pos2 = position2
-            
-        mirror_distances = [np.linalg.norm((pos1+bv)-pos2) for bv in self._boundary_vectors]
-        return np.min(mirror_distances)
+
+        displacement = np.array(pos1, dtype=float) - np.array(pos2, dtype=float)
+        if len(self._periods) == 0:
+            return np.linalg.norm(displacement)
+
+        # Wrap the displacement by the nearest integer multiples of the periods.
+        coords       = np.dot(self._inv_periods, displacement)
+        displacement = displacement - np.dot(np.round(coords), self._periods)
+        
+        # For skewed periods, the wrapped displacement might not be the
+        # shortest one. Search all of the images that could be shorter.
+        coords   = np.dot(self._inv_periods, displacement)
+        residual = np.linalg.norm(np.dot(coords, self._periods))
+        bounds   = residual * np.linalg.norm(self._inv_periods, axis=1)
+        ranges   = [np.arange(np.ceil(c-b-self.tol), np.floor(c+b+self.tol)+1) for (c, b) in zip(coords, bounds)]
+        
+        return np.min([np.linalg.norm(displacement - np.dot(shift, self._periods)) for shift in it.product(*ranges)])
 
     def position(self, orb_index):
         """Compute the position of the orbital with the
-- 
2.43.0


From 468fd9e4bb0f213dd05d40fe87d13ddc8e1777c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 10/39] fix: wrap positions by any number of periods in
 Lattice.index

---
 qosy/lattice.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 18a291e..63a77c5 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -164,12 +164,20 @@ class Lattice:
             The index of the orbital in the lattice.
         """
         
+        # Wrap the position into the lattice by whole numbers of periods.
+        wrapped_position = np.array(position, dtype=float)
+        coords           = np.dot(nla.pinv(np.transpose(self.unit_cell.lattice_vectors)), wrapped_position)
+        for ind_vec in range(self.dim):
+            if self.periodic_boundaries[ind_vec]:
+                num_periods      = np.floor(coords[ind_vec] / self.num_cells[ind_vec] + self.tol)
+                wrapped_position = wrapped_position - num_periods * self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec]
+
         # Translate by the boundary vectors associated with
         # the periodic edges. The first boundary vector is the
         # zero vector, which corresponds to no translation.
-        for boundary_vector in self._boundary_vectors:
+        for (start, boundary_vector) in it.product([np.array(position), wrapped_position], self._boundary_vectors):
             # Shift the position.
-            pos      = position + boundary_vector
+            pos      = start + boundary_vector
             # Make sure the zeros are exactly zero (no floating point roundoff).
             pos      = np.array([x if np.abs(x) > self.tol else 0.0 for x in pos])
             
-- 
2.43.0


From 76961d4198c6ad0a29c55f53a7bedfbc0db8b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 11/39] fix: close the point group and accumulate the
 expansions in symmetrize_lattice

---
 qosy/symmetrization.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index c7138f9..008ab0b 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -242,12 +242,12 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
 
     # Construct the point group G from its generators.
     G = [np.eye(dim)]
-    newG = G + point_group_generators
+    newG = remove_duplicates(G + point_group_generators)
     while len(newG) != len(G):
         G = newG
         
         # Generate new group elements, potentially with duplicates
-        newG = [np.dot(g,gen) for g in G for gen in point_group_generators]
+        newG = G + [np.dot(g,gen) for g in G for gen in point_group_generators]
         # Remove the duplicates
         newG = remove_duplicates(newG)
 
@@ -257,7 +257,7 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
         
     # Build the new unit cell by symmetrizing
     # the old unit cell.
-    old_lattice = copy.deepcopy(lattice)
+    expanded_lattice = copy.deepcopy(lattice)
 
     # Expand and symmetrize the unit cell.
     for ind_expansion in range(num_expansions):
@@ -267,18 +267,15 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
             delta = orig_lattice_vectors[ind_lv]
 
             # Expand the lattice in the direction of delta.
-            new_lattice = _expand_lattice(old_lattice, ind_lv, delta)
+            expanded_lattice = _expand_lattice(expanded_lattice, ind_lv, delta)
         
         # Symmetrize the atom positions for the new
         # unit cell.
-        new_lattice = _symmetrize_atoms(new_lattice, G, tol=tol)
+        new_lattice = _symmetrize_atoms(expanded_lattice, G, tol=tol)
 
         # Remove the duplicate atoms equivalent to
         # one another by lattice translations
         # by the new lattice vectors.
         new_lattice = _remove_duplicate_atoms(new_lattice, tol=tol)
-
-        # Update the old lattice.
-        old_lattice = new_lattice
     
     return new_lattice
-- 
2.43.0


From c44f0f923b2d10ce2993685810785e5679a623de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 12/39] fix: find the invariant operators of non-orthonormal
 lists of Operators

---
 qosy/core.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 7543236..7db3f04 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -124,7 +124,8 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
         'commutator'.
     return_superoperator : bool, optional
         If True, returns :math:`I \\mp (S + S^\\dagger)/2` where
-        :math:`S` is the symmetry matrix. The null space of 
+        :math:`S` is the symmetry matrix (or, for a list of Operators,
+        :math:`(S \\mp I)^\\dagger(S \\mp I)/2`). The null space of 
         this superoperator corresponds to the :math:`(\\pm 1)` 
         eigenspace of the symmetry matrix. Default is False.
     num_vecs : int, optional
@@ -160,22 +161,29 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     else:
         raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
 
-    matrix = 0.5*(sym_matrix + sym_matrix.H)
+    if isinstance(basis, Basis):
+        # The OperatorStrings are orthonormal.
+        superoperator = ss.eye(len(basis), format='csc') - sign * 0.5*(sym_matrix + sym_matrix.H)
+    else:
+        # The Operators are not necessarily orthonormal.
+        difference    = sym_matrix - sign * ss.eye(len(basis), format='csc')
+        superoperator = 0.5*(difference.H).dot(difference)
 
     if num_vecs is None:
-        (evals, evecs) = nla.eigh(matrix.toarray())
+        (evals, evecs) = nla.eigh(superoperator.toarray())
     else:
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign)
+        # Use a small negative sigma for the shift-invert method.
+        sigma = -1e-6
+        (evals, evecs) = ssla.eigsh(superoperator, k=num_vecs, sigma=sigma)
 
-    inds = np.where(np.abs(evals - sign) < tol)[0]
+    inds = np.where(np.abs(evals) < tol)[0]
     vecs = evecs[:,inds]
 
     if num_vecs is not None and len(inds) == num_vecs:
         warnings.warn('All {} vectors found with eigsh were in the ({})-eigenvalue subspace. Increase num_vecs to ensure that you are not missing null vectors.'.format(num_vecs, sign))
 
     if return_superoperator:
-        superoperator = ss.eye(len(basis), format='csc') - sign * matrix
-        return (vecs, superoperator, 1.0 - sign*evals, evecs)
+        return (vecs, superoperator, evals, evecs)
     else:
         return vecs
 
-- 
2.43.0


From ed25c3a8e797f1debd34944932ec266bee97d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 13/39] fix: keep the spans when orthogonalizing in the
 noncumulative generator

---
 qosy/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 7db3f04..df8fc54 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -432,12 +432,10 @@ class SymmetricOperatorGenerator:
                 curr_ops   = self.projected_output_operators[ind_output]
                 prev_ops   = self.projected_output_operators[ind_output-1]
 
-                num_curr_ops = int(curr_ops.shape[1])
+                # The current operators are contained in the space of the previous ones.
+                matrix = np.hstack((curr_ops, prev_ops))
             
-                matrix                    = np.copy(prev_ops)
-                matrix[:, 0:num_curr_ops] = curr_ops
-            
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=0.0)
+                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=tol)
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From 0dd0f6962e601a058ed6f6733cf2218b1bac84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 14/39] fix: record the empty output of skipped symmetries in
 the cumulative generator

---
 qosy/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qosy/core.py b/qosy/core.py
index df8fc54..748a273 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -463,6 +463,7 @@ class SymmetricOperatorGenerator:
 
             if len(basis) == 0:
                 print(' SKIPPING SYMMETRY {}'.format(ind_input+1))
+                self.projected_output_operators.append([])
                 continue
                 
             input_symmetry = self.input_symmetries[ind_input]
-- 
2.43.0


From cb9426c92eb2eb57bbece64887d0d926f74db270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 15/39] fix: drop zero first columns in gram_schmidt

---
 qosy/tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 22d9a82..c51d232 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -467,9 +467,7 @@ def gram_schmidt(matrix, tol=0.0):
             return (vec1.H).dot(vec2)[0,0]
         
     shift = 0
-    new_matrix[:,0] = matrix[:,0] / _norm(matrix[:,0])
-    
-    for ind_col_unshifted in range(1,k):
+    for ind_col_unshifted in range(k):
         ind_col = ind_col_unshifted - shift
         new_matrix[:,ind_col] = matrix[:,ind_col_unshifted]
         for ind_vec in range(ind_col):
-- 
2.43.0


From b963b481267d2006617bf8ed9e9f6075f0f4e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 16/39] fix: pair the zero modes correctly in
 diagonalize_quadratic

---
 qosy/diagonalization.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ad7b458..6ca45d4 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -315,6 +315,24 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     # where Z is unitary and T is quasi-upper-triangular,
     # so that it forms 2x2 blocks of the form [[0, a], [-a, 0]].
     (T, Z) = sla.schur(A.toarray(), output='real')
+
+    # The zero modes are 1x1 blocks, which can be anywhere along
+    # the diagonal. Put them into pairs as well.
+    pairs      = []
+    zero_modes = []
+    ind        = 0
+    while ind < 2*N:
+        if ind+1 < 2*N and np.abs(T[ind,ind+1]) > threshold:
+            pairs.append((ind, ind+1))
+            ind += 2
+        else:
+            zero_modes.append(ind)
+            ind += 1
+    pairs += list(zip(zero_modes[0::2], zero_modes[1::2]))
+    pairs.sort()
+    order = np.array(pairs, dtype=int).flatten()
+    T     = T[np.ix_(order, order)]
+    Z     = Z[:, order]
     
     # N (non-negative) eigenvalues
     # Note: the +/- eigenvalue pairs across the diagonal are
-- 
2.43.0


From 54e5bcdaa4f8b8595634c2e0b775c3fd07acede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 17/39] fix: index the fermion modes of diagonalize_quadratic
 as documented

---
 qosy/diagonalization.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 6ca45d4..a308f75 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -358,23 +358,23 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     eigvecs_Fermion = np.zeros((2*N,2*N), dtype=complex)
     for m in range(N):
         for n in range(N):
-            # The \bar{c_m} vectors
-            # \bar{c}_m = \sum_n a_n c_n + ...
+            # The \bar{c_n} vectors
+            # \bar{c}_n = \sum_m a_m c_m + ...
             eigvecs_Fermion[m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
                                           -1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
 
-            # \bar{c}_m = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[m,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                              +1j*Z[2*m+1,2*n]    - Z[2*m+1,2*n+1])
+            # \bar{c}_n = ... + \sum_m b_m c_m^\dagger
+            eigvecs_Fermion[N+m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
+                                            +1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
             
-            # The \bar{c_m}^\dagger vectors
-            # \bar{c}_m^\dagger = \sum_n a_n c_n + ...
-            eigvecs_Fermion[2*m+1,n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
-                                              -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
-
-            # \bar{c}_m^\dagger = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[2*m+1,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                                  -1j*Z[2*m+1,2*n]    + Z[2*m+1,2*n+1])
+            # The \bar{c_n}^\dagger vectors
+            # \bar{c}_n^\dagger = \sum_m a_m c_m + ...
+            eigvecs_Fermion[m,N+n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                            -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
+
+            # \bar{c}_n^\dagger = ... + \sum_m b_m c_m^\dagger
+            eigvecs_Fermion[N+m,N+n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                              +1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
             
     # The ground state energy
     constant_shift = -0.5*np.sum(eigvals)
-- 
2.43.0


From 4098eaf47998f3b66d977a8a2b3407ccecff20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 18/39] fix: make to_operator usable

---
 qosy/diagonalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index a308f75..ef03729 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -106,9 +106,9 @@ def to_vector(matrix, basis, num_orbitals):
     
 # TODO: document, test
 def to_operator(matrix, basis, num_orbitals):
-    coeffs = to_vector(matrix, basis)
+    coeffs = to_vector(matrix, basis, num_orbitals)
 
-    op = qy.Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
+    op = Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
 
     return op
 
-- 
2.43.0


From 6efd025e50aa19bf83eed789fe6f0e3e30b9599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 19/39] fix: accept tight-binding Hamiltonians in Majorana form

---
 qosy/diagonalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ef03729..23d05ea 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -384,7 +384,8 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
 # TODO: document, test, finish
 def diagonalize_quadratic_tightbinding(operator, num_orbitals, num_vecs=None):
     
-    op = convert(operator, 'Fermion')
+    # Remove the terms that cancelled during the conversion.
+    op = convert(operator, 'Fermion').remove_zeros(tol=1e-14)
     
     data = []
     row_inds = []
-- 
2.43.0


From b21b9faf8b9dda5f32aeb4602b3856b4f9d60e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 20/39] fix: use the commutation matrices returned by _explore
 in the selected-CI searches

---
 qosy/algorithms.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 7e324fd..b1c22fe 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -15,7 +15,7 @@ import scipy.sparse.linalg as ssla
 from .tools import intersection, gram_schmidt, sparsify
 from .operatorstring import opstring
 from .basis import Basis, Operator
-from .algebra import commutator, commutant_matrix, structure_constants, product, anticommutator
+from .algebra import commutator, commutant_matrix, liouvillian_matrix, structure_constants, product, anticommutator
 from .transformation import symmetry_matrix
     
 def _truncate_basis(basis, vector, threshold=1e-6, max_basis_size=100, filter_fun=None):
@@ -298,8 +298,8 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         print('Expanded basis: {}'.format(len(basis)))
 
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 2*max_num_evecs:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -436,8 +436,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             print('  Expanded basis: {}'.format(len(basis)))
 
             # Find best operator in basis
-            (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-            com_matrix = _com_matrix(s_constants, H).real
+            (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+            com_matrix = ((l_matrix.H).dot(l_matrix)).real
 
             orig_com_matrix = com_matrix.copy()
             
@@ -577,9 +577,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             operator = operators[-1]
         
         # O -> [H,O]
-        (s_constants1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        (l_matrix1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
-        l_matrix1    = _l_matrix(s_constants1, H)
         com_H_operator = l_matrix1.dot(ss.csr_matrix(operator.coeffs).T)
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
@@ -587,9 +586,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
-            (s_constants2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-
-            l_matrix2 = _l_matrix(s_constants2, H)
+            (l_matrix2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
             #A = ss.csr_matrix(([1.0], ([0], [0])), shape=(1,1), dtype=complex)
             com_H_A = l_matrix2.toarray()[:,0]
@@ -622,8 +619,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             previous_basis = copy.deepcopy(basis)
             
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
-- 
2.43.0


From b30cb11c7d396b3136fd92df399c27d904bf04bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 21/39] fix: keep the constraints and report the commutator
 norms in the constrained selected-CI searches

---
 qosy/algorithms.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index b1c22fe..b5245a1 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -500,9 +500,10 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
                     evecs = evecs[:, 0:min_num_evecs]
 
             # Rescale back to the original basis's normalization.
-            if norm_fun is not None:
+            if norm_fun is not None or orth_ops is not None:
                 com_matrix = orig_com_matrix
-                evecs = np.dot(D_inv_sqrt.toarray(), evecs)
+                if norm_fun is not None:
+                    evecs = np.dot(D_inv_sqrt.toarray(), evecs)
 
                 #print('Original eigenvalues: {}'.format(evals))
                 for ind_vec in range(int(evecs.shape[1])):
@@ -931,9 +932,14 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             evals = evals[inds_sort]
             evecs = evecs[:, inds_sort]
 
+        # Only keep the lowest eigenvectors, since the
+        # others can violate the constraints.
+        evals = evals[0:num_vecs]
+        evecs = evecs[:, 0:num_vecs]
+
         # Recompute the commutator norms for just
         # commuting with the Hamiltonian.
-        if len(com_ops) > 1 or orth_ops is not None:
+        if len(com_ops) > 1 or orth_ops is not None or transformations is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
                 evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
@@ -1212,7 +1218,8 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         
         # Find best operators in basis
         (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = ((l_matrix.H).dot(l_matrix)).real
+        com_matrix_H = ((l_matrix.H).dot(l_matrix)).real
+        com_matrix   = com_matrix_H
             
         # Orthogonalize against the given operators.
         if orth_ops is not None:
@@ -1228,12 +1235,17 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
             evals = evals[inds_sort]
             evecs = evecs[:, inds_sort]
 
+        # Only keep the lowest eigenvectors, since the
+        # others can violate the constraints.
+        evals = evals[0:num_ops]
+        evecs = evecs[:, 0:num_ops]
+
         # Recompute the commutator norms for just
         # commuting with the Hamiltonian.
         if orth_ops is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
-                evals[ind_vec] = (vec.H).dot(com_matrix.dot(vec))[0,0].real
+                evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
                 
             inds_sort = np.argsort(np.abs(evals))
             evals = evals[inds_sort]
-- 
2.43.0


From 929df2b178504b7af2c5da1cfe678efaf71c5bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:33 +0000
Subject: [PATCH 22/39] fix: explore each commuting operator separately in
 selected_ci_greedy

---
 qosy/algorithms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index b5245a1..e8e9caf 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -741,6 +741,11 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
     else:
         (explored_basis, explored_extended_basis, explored_s_constants_data) = explored_data
 
+    # The data collected by commuting with H cannot be
+    # used for the other operators.
+    explored_data_arr = [(explored_basis, explored_extended_basis, explored_s_constants_data)]
+    explored_data_arr += [(Basis(), Basis(), dict()) for _ in com_ops[1:]]
+
     # Keep track of how OperatorStrings
     # anti-commute with O during the calculation.
     explored_anticommutations = dict()
@@ -777,8 +782,8 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         inds_largest_termsA = inds_largest_termsA[0:num_lterms]
         A_basis1 = Basis([extended_basis1[ind] for ind in inds_largest_termsA])
 
-        for com_op in com_ops:
-            (l_matrix2, extended_basis2) = _explore(A_basis1, com_op, explored_basis, explored_extended_basis, explored_s_constants_data)
+        for (com_op, com_op_explored_data) in zip(com_ops, explored_data_arr):
+            (l_matrix2, extended_basis2) = _explore(A_basis1, com_op, *com_op_explored_data)
         
             #l_matrix2 = _l_matrix(s_constants2, com_op)
         
@@ -903,7 +908,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         com_matrix_H = ss.csr_matrix((len(basis), len(basis)), dtype=float)
         for ind_com_op in range(len(com_ops)):
             com_op = com_ops[ind_com_op]
-            (l_matrix, _) = _explore(basis, com_op, explored_basis, explored_extended_basis, explored_s_constants_data)
+            (l_matrix, _) = _explore(basis, com_op, *explored_data_arr[ind_com_op])
             cdagc_real = ((l_matrix.H).dot(l_matrix)).real
             com_matrix += cdagc_real
             if ind_com_op == 0:
-- 
2.43.0


From d9342450a2c77d7eb6dfc1ec6339049e4c6dff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 23/39] fix: swap overlapping names simultaneously

---
 qosy/tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index c51d232..6265db5 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -365,11 +365,7 @@ def swap(string, nameA, nameB):
         >>> qosy.swap('1 2 3', '1', '3') # '3 2 1'
     """
     
-    result = string.replace(nameA, '({})'.format(nameA))
-    result = result.replace(nameB, nameA)
-    result = result.replace('({})'.format(nameA), nameB)
-
-    return result
+    return replace(string, {nameA : nameB, nameB : nameA})
 
 def replace(string, substitutions):
     """ Perform many string replacements
-- 
2.43.0


From 8fb2e6da8d8b651e6ba03c1d68da195436ca8d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 24/39] fix: allow no substitutions in replace

---
 qosy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/tools.py b/qosy/tools.py
index 6265db5..471e6ca 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -388,6 +388,9 @@ def replace(string, substitutions):
         >>> qosy.tools.replace('ABC', {'A':'AB', 'B':'D', 'C':'AC'}) # 'ABDAC'
     """
     
+    if len(substitutions) == 0:
+        return string
+
     # From https://gist.github.com/carlsmith/b2e6ba538ca6f58689b4c18f46fef11c
     
     substrings = sorted(substitutions, key=len, reverse=True)
-- 
2.43.0


From 49d00e36fcb34c4f881668b408aa74c30f0dc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 25/39] fix: stop selected_ci_greedy_simple when there are no
 terms left to add

---
 qosy/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index e8e9caf..544a8c6 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -584,6 +584,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
         inds_largest_termsA = np.argsort(np.abs(com_H_operator.toarray().flatten()))[::-1]
+        ind_largest_termB = None
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
@@ -604,6 +605,10 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             else:
                 print('Failed to find a B, picking new A.')
                 
+        # Stop early if there are no terms left to add.
+        if ind_largest_termB is None:
+            break
+
         # Insert B into the basis
         basis += extended_basis2[ind_largest_termB]
         
-- 
2.43.0


From bd9b341fe0d994bdf73d41868bd5259a1e5cc396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 26/39] fix: accept sparse matrices in sparsify as documented

---
 qosy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/tools.py b/qosy/tools.py
index 471e6ca..2f30204 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -555,6 +555,9 @@ def sparsify(vectors, orthogonalize=True, tol=1e-12):
         >>> qosy.sparsify(vecs) # [[1,0],[0,1]]
     """
 
+    if ss.issparse(vectors):
+        vectors = vectors.toarray()
+
     num_vectors = int(vectors.shape[1])
     
     if num_vectors <= 1:
-- 
2.43.0


From cbc6c7b0769cf3a59046d5d65ea52fc04bc0a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 27/39] fix: compare the objects instead of their indices in
 argsort

---
 qosy/symmetrization.py | 5 +----
 qosy/tools.py          | 3 ++-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 008ab0b..a7791b1 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -114,10 +114,7 @@ def _symmetrize_atoms(lattice, G, tol=1e-12):
     # Break ties by considering the distance
     # from the origin along each axis.
     distances = [(nla.norm(pos),)+tuple(np.abs(pos))+tuple(pos) for (pos, _) in sym_atom_info]
-    def _comp(ind1, ind2):
-        tup1 = distances[ind1]
-        tup2 = distances[ind2]
-
+    def _comp(tup1, tup2):
         # Ignore equal entries.
         comparison_vec = np.abs(np.array(tup1) - np.array(tup2)) < tol
         index_tup = 0
diff --git a/qosy/tools.py b/qosy/tools.py
index 2f30204..ccea80e 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -300,7 +300,8 @@ def argsort(mylist, comp=None):
     if comp is None:
         return sorted(range(len(mylist)), key=mylist.__getitem__)
     else:
-        return sorted(range(len(mylist)), key=cmp_to_key(comp))
+        key = cmp_to_key(comp)
+        return sorted(range(len(mylist)), key=lambda ind: key(mylist[ind]))
 
 def remove_duplicates(objects, equiv=None, tol=1e-12):
     """Remove duplicate objects from
-- 
2.43.0


From 71729a91e548702b6cafccb95c29b1d0519e51ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 28/39] fix: reject space group operations that map several
 orbitals to one

---
 qosy/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index 57377bc..717a26a 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -353,7 +353,7 @@ def space_group_symmetry(lattice, R, d):
     orbital_label_permutation = [lattice.index(np.dot(R,r) + d, orbital_name) \
                                  for (r, orbital_name,_) in lattice]
 
-    if -1 in orbital_label_permutation:
+    if sorted(orbital_label_permutation) != list(range(len(lattice))):
         raise ValueError('Invalid permutation of orbital labels:\n{}'.format(orbital_label_permutation))
 
     symmetry = label_permutation(orbital_label_permutation)
-- 
2.43.0


From c6d15272e6a7fdd8d20825c017e057079aeaed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 29/39] fix: discard the outputs of earlier calls in the
 noncumulative operator generation

---
 qosy/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/qosy/core.py b/qosy/core.py
index 748a273..e8d7742 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -322,6 +322,17 @@ class SymmetricOperatorGenerator:
         
         num_inputs = len(self.input_symmetries)
 
+        # Discard the outputs of previous calls, which would
+        # otherwise be mistaken for the outputs of this one.
+        self.superoperators   = []
+        self.eigenvalues      = []
+        self.eigenvectors     = []
+        self.output_operators = []
+        self.projected_superoperators   = []
+        self.projected_eigenvalues      = []
+        self.projected_eigenvectors     = []
+        self.projected_output_operators = []
+        
         if verbose:
             print('===== 1. GENERATING OPERATORS =====')
             print(' STARTING WITH BASIS OF DIM {}'.format(len(self.basis)))
-- 
2.43.0


From 7d4e874f58334834fa94ac1b3dd1897e7ff55dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 30/39] fix: keep the vectors orthonormal in
 generate_lie_algebra

---
 qosy/algebra.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 3368686..c046227 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -662,6 +662,13 @@ def generate_lie_algebra(operators, tol=1e-12):
                     # and normalized. Then add it to the vectors.
                     vecC -= overlaps
                     vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
+
+                    # Orthogonalize a second time. Without this, rounding
+                    # errors get amplified when the new vector is almost
+                    # in the span of the previous ones.
+                    vecC -= projector.dot(vecC)
+                    vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
+
                     vectors = ss.hstack((vectors, vecC), format='csc')
 
                     # Update the projector.
-- 
2.43.0


From 94e842646f705cca71dc7fed407e6e2868eca849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 31/39] fix: truncate the operators of the greedy searches with
 their own coefficients

---
 qosy/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 544a8c6..c116894 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1037,7 +1037,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             print('  Truncated basis: {}'.format(len(basis)))
 
         # Truncate the operator into the new basis
-        new_coeffs = [vector[basis.index(os)] for os in basis]
+        new_coeffs = [operator.coeffs[operator._basis.index(os)] for os in basis]
         operator = Operator(new_coeffs, basis.op_strings)
 
         # Stop early if reached the target commutator norm threshold.
@@ -1282,7 +1282,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         # Truncate the operator into the new basis
         current_operators = []
         for ind_vec in range(num_ops):
-            new_coeffs = [evecs[basis.index(os),ind_vec] for os in basis]
+            new_coeffs = [evecs[previous_basis.index(os),ind_vec] for os in basis]
             new_op     = Operator(new_coeffs, basis.op_strings)
             current_operators.append(new_op)
         
-- 
2.43.0


From e650025412a4adb798259b251c1d25bd724c6071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 32/39] fix: print operators without non-zero terms for every
 norm order

---
 qosy/visualization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 41838fd..deba358 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -137,7 +137,9 @@ def print_vectors(basis, vectors, lattice=None, keywords=None, convert_to=None,
     ind_vec = 1
     for operator in operators:
         cleaned_operator = operator.remove_zeros(tol=tol)
-        cleaned_operator.normalize(order=norm_order)
+        # An operator without non-zero terms cannot be normalized.
+        if len(cleaned_operator.coeffs) > 0:
+            cleaned_operator.normalize(order=norm_order)
         print('vector {} = '.format(ind_vec))
 
         output_string = str(cleaned_operator)
@@ -195,7 +197,9 @@ def print_operators(operators, lattice=None, keywords=None, convert_to=None, nor
     ind_vec = 1
     for operator in operators_to_print:
         cleaned_operator = operator.remove_zeros(tol=tol)
-        cleaned_operator.normalize(order=norm_order)
+        # An operator without non-zero terms cannot be normalized.
+        if len(cleaned_operator.coeffs) > 0:
+            cleaned_operator.normalize(order=norm_order)
 
         print('operator {} = '.format(ind_vec))
 
-- 
2.43.0


From e2e006f2af54f7543baf1ceb0953145b50b5cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 33/39] fix: conversion matrix from an empty basis

---
 qosy/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index 0fdfd82..e777e8e 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -469,7 +469,7 @@ def conversion_matrix(basis_from, basis_to, tol=1e-16):
         warnings.warn('Creating a non-invertible transformation matrix between bases of different sizes: {} {}'.format(len(basis_from), len(basis_to)))
 
     if len(basis_from) == 0:
-        return ss.csr_matrix(dtype=complex,shape=(0,0))
+        return ss.csr_matrix((len(basis_to), 0), dtype=complex)
     
     to_op_type = basis_to.op_strings[0].op_type
     
-- 
2.43.0


From 4a50e19b16dfe924a056b5d761443634a791f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:22 +0000
Subject: [PATCH 34/39] fix: selected_ci_greedy_many_ops truncates with the
 size of its step

---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index c116894..21e1529 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1112,7 +1112,7 @@ def selected_ci_greedy_many_ops(initial_operators, H, num_steps, num_H_terms=10,
 
             # Truncate the operator.
             if step > 0:
-                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_size)
+                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_sizes[step-1])
 
             com_ops = H
             #com_ops = [H] + [current_operators[ind_op2] for ind_op2 in range(num_operators) if ind_op2 != ind_op]
-- 
2.43.0


From 9636701fbdd286be0bedb01e59dda42738ffd08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 35/39] fix: remove_duplicates merged objects that agree to
 five digits only

---
 qosy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index ccea80e..a73b1c1 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -331,7 +331,7 @@ def remove_duplicates(objects, equiv=None, tol=1e-12):
 
     if equiv is None:
         def _equiv(objA, objB):
-            return np.allclose(objA, objB, atol=tol)
+            return np.allclose(objA, objB, rtol=tol, atol=tol)
         equiv = _equiv
     
     uniques = []
-- 
2.43.0


From fecc3b44568a2b1102e28042acb099da285bf0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:05 +0000
Subject: [PATCH 36/39] fix: constrained searches failed with an exactly
 singular factor

---
 qosy/algorithms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 21e1529..4797d35 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -484,7 +484,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
                 evecs = evecs[:,0:num_vecs]
             else:
                 maxiter = 10*int(com_matrix.shape[0])*maxiter_scale
-                (evals, evecs) = ssla.eigsh(com_matrix, k=max_num_evecs, sigma=-1e-6, which='LM', maxiter=maxiter, tol=tol)
+                sigma = -1e-6 if orth_ops is None else -1e-2
+                (evals, evecs) = ssla.eigsh(com_matrix, k=max_num_evecs, sigma=sigma, which='LM', maxiter=maxiter, tol=tol)
                 
                 inds_sort = np.argsort(np.abs(evals))
                 evals = evals[inds_sort]
@@ -723,7 +724,9 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         num_H_terms_arr = num_H_terms * np.ones(num_steps, dtype=int)
     
     if sigma is None:
-        sigma = -1e-8
+        # With constraints, the shift needs to be larger than the rounding
+        # errors of their large penalties.
+        sigma = -1e-8 if orth_ops is None and transformations is None else -1e-4
     
     if num_vecs is None:
         num_vecs = 1
@@ -1239,7 +1242,8 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
             (evals, evecs) = nla.eigh(com_matrix.toarray())
         else:
             maxiter = 10*int(com_matrix.shape[0])*maxiter_scale
-            (evals, evecs) = ssla.eigsh(com_matrix, k=num_ops, sigma=-1e-8, which='LM', maxiter=maxiter, tol=tol)
+            sigma = -1e-8 if orth_ops is None else -1e-4
+            (evals, evecs) = ssla.eigsh(com_matrix, k=num_ops, sigma=sigma, which='LM', maxiter=maxiter, tol=tol)
             
             inds_sort = np.argsort(np.abs(evals))
             evals = evals[inds_sort]
-- 
2.43.0


From a0b1f5e81adcfd0c57cd4b567f462821bce9d5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:17 +0000
Subject: [PATCH 37/39] fix: greedy search never ended when the target fidelity
 could not be reached

---
 qosy/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 4797d35..c9b4bd6 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -983,8 +983,9 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step, it likely
-                # will keep failing.
-                if step == 0:
+                # will keep failing. If it fails with all of the
+                # eigenvectors, it will keep failing.
+                if step == 0 or num_vecs >= len(basis):
                     # End early.
                     end_early = True
                     if verbose:
-- 
2.43.0


From cf30078385b7c77d27059c1f96937d007843e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 38/39] fix: constrained sweeps failed on bases with two
 strings

---
 qosy/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index c9b4bd6..7519fff 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -477,7 +477,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
                 com_matrix = D_inv_sqrt.dot(com_matrix.dot(D_inv_sqrt))
                 com_matrix = com_matrix.real
                 
-            if len(basis) < 2*max_num_evecs:
+            # (With constraints, the matrix is complex and the sparse solver needs k < N - 1.)
+            if len(basis) < max(3, 2*max_num_evecs):
                 (evals, evecs) = nla.eigh(com_matrix.toarray())
                 num_vecs = np.minimum(len(evals), max_num_evecs)
                 evals = evals[0:num_vecs]
-- 
2.43.0


From f09654fc4ba29f3bd87268a07322455078ffc2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:25 +0000
Subject: [PATCH 39/39] fix: orthonormal vectors from the sparse eigensolver

---
 qosy/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/core.py b/qosy/core.py
index e8d7742..250ae07 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -89,6 +89,8 @@ def commuting_operators(basis, operator, operation_mode='commutator', return_sup
         # Use a small negative sigma for the shift-invert method.
         sigma = -1e-6
         (evals, evecs) = ssla.eigsh(com_matrix, k=num_vecs, sigma=sigma)
+        # For complex matrices, eigsh does not orthogonalize degenerate eigenvectors.
+        (evecs, _) = nla.qr(evecs)
 
     inds_ns    = np.where(np.abs(evals) < tol)[0]
     null_space = evecs[:,inds_ns]
@@ -175,6 +177,8 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
         # Use a small negative sigma for the shift-invert method.
         sigma = -1e-6
         (evals, evecs) = ssla.eigsh(superoperator, k=num_vecs, sigma=sigma)
+        # For complex matrices, eigsh does not orthogonalize degenerate eigenvectors.
+        (evecs, _) = nla.qr(evecs)
 
     inds = np.where(np.abs(evals) < tol)[0]
     vecs = evecs[:,inds]
@@ -406,6 +410,7 @@ class SymmetricOperatorGenerator:
                     # Using scipy.sparse.linalg.eigsh
                     sigma = -1e-6
                     (evalsPSO, evecsPSO) = ssla.eigsh(projected_superoperator, k=self.num_vecs[ind_output], sigma=sigma)
+                    (evecsPSO, _) = nla.qr(evecsPSO)
                 else:
                     # Using numpy.linalg.eigh
                     (evalsPSO, evecsPSO) = nla.eigh(projected_superoperator.toarray())
-- 
2.43.0

