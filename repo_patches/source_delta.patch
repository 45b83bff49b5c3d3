From 91a8f0614351120c6d303f160e74ee523c812e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:52 +0000
Subject: [PATCH 01/15] fix: refuse assignments other than += and *= to
 ReductionVector elements in site loops

'rv[i] = x', 'rv[i] -= x' and 'rv[i] /= x' inside a site loop were silently
compiled as product reductions.
---
 hilapp/src/toplevelvisitor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index b8d37d8..6c34c81 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -505,6 +505,13 @@ int TopLevelVisitor::handle_bracket_var_ref(bracket_ref_t &ref, const array_ref:
 
     reduction reduction_type;
     if (is_assign) {
+        if (type == array_ref::REDUCTION && assignop != "+=" && assignop != "*=") {
+            reportDiag(DiagnosticsEngine::Level::Error, ref.E->getSourceRange().getBegin(),
+                       "ReductionVector elements can be modified only with reduction "
+                       "\'+=\' or \'*=\' within site loop");
+            parsing_state.skip_children = 1;
+            return 1;
+        }
         if (assignop == "+=")
             reduction_type = reduction::SUM;
         else
-- 
2.43.0


From 9601b62f43135628cbcb06db5a2060c0bb425408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 02/15] fix: delayed product of ReductionVector was combined as
 a sum

---
 libraries/plumbing/reductionvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index cc24a66..43ebc70 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -243,6 +243,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = true;
         } else {
             reduce_operation(MPI_SUM);
         }
@@ -264,6 +265,7 @@ class ReductionVector {
                 assert(0 && "Cannot mix sum and product reductions!");
             }
             delay_is_on = true;
+            is_delayed_sum = false;
         } else {
             reduce_operation(MPI_PROD);
         }
-- 
2.43.0


From ef7608a3c59a176c024edf1aabe653846d250ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 03/15] fix: ReductionVector assignment waits for a pending
 non-blocking reduction

---
 libraries/plumbing/reductionvector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index 43ebc70..cffb06c 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -204,12 +204,14 @@ class ReductionVector {
     /// Make this return void, hard to imagine it is used for anything useful
     template <typename S, std::enable_if_t<std::is_assignable<T &, S>::value, int> = 0>
     void operator=(const S &rhs) {
+        wait();
         for (auto &vp : val)
             vp = rhs;
     }
 
     /// Assignment from 0
     void operator=(std::nullptr_t np) {
+        wait();
         for (auto &vp : val)
             vp = 0;
     }
-- 
2.43.0


From e4408206fcc5588db0d46056f47e14e78803eb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 04/15] fix: Field::max started from the smallest positive
 value for floating point fields

---
 libraries/plumbing/reduction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/reduction.h b/libraries/plumbing/reduction.h
index 777bbdc..1fc71e5 100644
--- a/libraries/plumbing/reduction.h
+++ b/libraries/plumbing/reduction.h
@@ -330,14 +330,14 @@ T Field<T>::minmax(bool is_min, Parity par, CoordinateVector &loc) const {
     T val = gpu_minmax(is_min, par, loc);
 #else
     // get suitable initial value
-    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+    T val = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
 
     // write the loop with explicit OpenMP parallel region.  It has negligible effect
     // on non-OpenMP code, and the pragmas are ignored.
     #pragma omp parallel shared(val, loc, is_min)
     {
         CoordinateVector loc_th(0);
-        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
+        T val_th = is_min ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
 
         // Pragma "hila omp_parallel_region" is necessary here, because this is within
         // omp parallel
-- 
2.43.0


From 51de6cc31a810ac9eea5d8854cb7392b0c10046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 05/15] fix: incorrect cluster index ended the run with success
 status

---
 libraries/plumbing/clusters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/plumbing/clusters.h b/libraries/plumbing/clusters.h
index 60f5181..a184f0e 100644
--- a/libraries/plumbing/clusters.h
+++ b/libraries/plumbing/clusters.h
@@ -257,7 +257,7 @@ class Clusters {
         if (i >= clist.size()) {
             hila::out0 << "Incorrect cluster index " << i << ", there are only " << clist.size()
                        << " clusters\n";
-            exit(0);
+            exit(1);
         }
     }
 
-- 
2.43.0


From ae35f2c856ad560594d8d622b426c2c78294826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 06/15] fix: ReductionVector waits for an ongoing reduction
 before its storage is changed or copied

---
 libraries/plumbing/reductionvector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libraries/plumbing/reductionvector.h b/libraries/plumbing/reductionvector.h
index cffb06c..70aa68c 100644
--- a/libraries/plumbing/reductionvector.h
+++ b/libraries/plumbing/reductionvector.h
@@ -309,6 +309,7 @@ class ReductionVector {
     }
 
     std::vector<T> vector() {
+        wait();
         return val;
     }
 
@@ -319,20 +320,25 @@ class ReductionVector {
     }
 
     void resize(size_t count) {
+        wait();
         val.resize(count);
     }
     void resize(size_t count, const T &v) {
+        wait();
         val.resize(count, v);
     }
 
     void clear() {
+        wait();
         val.clear();
     }
 
     void push_back(const T &v) {
+        wait();
         val.push_back(v);
     }
     void pop_back() {
+        wait();
         val.pop_back();
     }
 
-- 
2.43.0


From b805f3f093e07977c5704cf12ffbc9f854649f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 07/15] fix: hilapp refuses a ReductionVector read by constant
 index before its reduction in the same loop

---
 hilapp/src/toplevelvisitor.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 6c34c81..a7d6411 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -563,6 +563,19 @@ int TopLevelVisitor::handle_bracket_var_ref(bracket_ref_t &ref, const array_ref:
     }
 
 
+    // constant index reads of a ReductionVector are not in the array_ref_list, check these too
+    if (type == array_ref::REDUCTION) {
+        for (auto &cer : loop_const_expr_ref_list) {
+            Expr *base = find_base_expr(cer.refs[0]);
+            if (base && get_stmt_str(base) == get_stmt_str(ref.BASE)) {
+                reportDiag(DiagnosticsEngine::Level::Error, ref.E->getSourceRange().getBegin(),
+                           "ReductionVector cannot be used on RHS and LHS simultaneously.");
+                parsing_state.skip_children = 1;
+                return 1;
+            }
+        }
+    }
+
     // now it is a new array ref
     array_ref ar;
     ar.refs.push_back(ref);
-- 
2.43.0


From 5d974eb9315d8059c675552279e5e77edc7d5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 08/15] fix: hilapp refuses changing a reduction variable with
 another operator in the same loop

---
 hilapp/src/toplevelvisitor.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index a7d6411..81d486d 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -1794,6 +1794,17 @@ void TopLevelVisitor::check_var_info_list() {
                     }
                 }
 
+                // All changes to a reduction variable must be done with the same operator
+                const std::string redop = (vi.reduction_type == reduction::SUM) ? "+=" : "*=";
+                for (auto &vr : vi.refs) {
+                    if (vr.is_assigned && vr.assignop != redop)
+                        reportDiag(DiagnosticsEngine::Level::Error,
+                                   vr.ref->getSourceRange().getBegin(),
+                                   "reduction variable \'%0\' can be modified only with \'%1\' "
+                                   "within this site loop",
+                                   vi.name.c_str(), redop.c_str());
+                }
+
             } else if (vi.is_special_reduction_type) {
                 // Use Reduction<> -type vars only as reductions
                 for (auto &vr : vi.refs) {
-- 
2.43.0


From bab0798047a9777b83301cbc939c33d92ebb83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 09/15] fix: hilapp crashed on a ReductionVector read with site
 dependent index

---
 hilapp/src/toplevelvisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 81d486d..6c3b74b 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -794,7 +794,7 @@ bool TopLevelVisitor::handle_vector_reference(Stmt *s, bool &is_assign, std::str
         if (is_assign)
             rt = array_ref::REDUCTION;
         else
-            rt = array_ref::STD_ARRAY;
+            rt = array_ref::STD_VECTOR;
     }
 
     handle_bracket_var_ref(br, rt, is_assign, assignop);
-- 
2.43.0


From 3314152f3626ce5faf69d27a46540d9ac95ab1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 10/15] fix: hilapp left onsites loops without X or fields in
 template functions untransformed

---
 hilapp/src/function_contains_loop_visitor.cpp | 17 ++++++++++++++++-
 hilapp/src/hilapp.h                           |  3 +++
 hilapp/src/toplevelvisitor.cpp                |  3 ---
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/hilapp/src/function_contains_loop_visitor.cpp b/hilapp/src/function_contains_loop_visitor.cpp
index d39e23b..559a347 100644
--- a/hilapp/src/function_contains_loop_visitor.cpp
+++ b/hilapp/src/function_contains_loop_visitor.cpp
@@ -9,6 +9,7 @@
 /// An AST Visitor for checking if the function body contains a site loop
 /// Logic:
 ///   - Find if it contains X (X_index_type), which appears inside loops
+///   - Find if it has onsites() -loop, which may have neither X nor fields in it
 ///   - Find if it has Field[Parity] -stmt.  This can appear without X in
 ///      statemets like  f[EVEN] = 1;  etc.
 ///
@@ -24,11 +25,13 @@ class containsSiteLoopChecker : public GeneralVisitor,
     bool found_field_parity;
     bool found_field;
     bool found_field_coordinate;
+    bool found_onsites;
     bool searching_for_field;
 
     template <typename visitortype>
     containsSiteLoopChecker(visitortype &v, bool fieldsearch) : GeneralVisitor(v) {
         found_field = found_X = found_field_parity = found_field_coordinate = false;
+        found_onsites = false;
         searching_for_field = fieldsearch;
     }
 
@@ -49,6 +52,17 @@ class containsSiteLoopChecker : public GeneralVisitor,
         return true;
     }
 
+    bool VisitForStmt(ForStmt *f) {
+        // onsites() -loop without X or fields inside, e.g. onsites(ALL) n += 1;
+        SourceLocation sl = f->getSourceRange().getBegin();
+        if (sl.isMacroID() &&
+            myCompilerInstance->getPreprocessor().getImmediateMacroName(sl) == site_loop_name) {
+            found_onsites = true;
+            return false;
+        }
+        return true;
+    }
+
     bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr *OC) {
         if (is_field_parity_expr(OC)) {
             // llvm::errs() << "FOUND FIELD WITH PARITY! \n";
@@ -73,7 +87,8 @@ bool TopLevelVisitor::does_function_contain_field_access(FunctionDecl *f) {
     if (f->hasBody()) {
         containsSiteLoopChecker flc(*this, false);
         flc.TraverseStmt(f->getBody());
-        return (flc.found_X || flc.found_field_parity || flc.found_field_coordinate);
+        return (flc.found_X || flc.found_field_parity || flc.found_field_coordinate ||
+                flc.found_onsites);
     }
     return false;
 }
diff --git a/hilapp/src/hilapp.h b/hilapp/src/hilapp.h
index e75aeb8..6dda1a1 100644
--- a/hilapp/src/hilapp.h
+++ b/hilapp/src/hilapp.h
@@ -552,6 +552,9 @@ bool is_macro_defined(const char *name, std::string *arg = nullptr);
 /// Utility to check if typename is native number
 number_type get_number_type(const std::string &s);
 
+/// string for the loop call name
+static const std::string site_loop_name("onsites");
+
 /// take global CI just in case
 extern CompilerInstance *myCompilerInstance;
 extern global_state global;
diff --git a/hilapp/src/toplevelvisitor.cpp b/hilapp/src/toplevelvisitor.cpp
index 6c3b74b..d7cdce3 100644
--- a/hilapp/src/toplevelvisitor.cpp
+++ b/hilapp/src/toplevelvisitor.cpp
@@ -31,9 +31,6 @@ std::string print_TemplatedKind(const enum FunctionDecl::TemplatedKind kind) {
     }
 }
 
-/// string for the loop call name
-static const std::string site_loop_name("onsites");
-
 /// Check the validity a variable reference in a loop
 bool FieldRefChecker::VisitDeclRefExpr(DeclRefExpr *e) {
     // It must be declared already. Get the declaration and check
-- 
2.43.0


From 47ee1e7383caa217be7cb8625e38601c2142848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 11/15] fix: OpenMP product reductions in site loops combine
 threads with a product

---
 hilapp/src/codegen_cpu.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hilapp/src/codegen_cpu.cpp b/hilapp/src/codegen_cpu.cpp
index 8af126a..25cec74 100644
--- a/hilapp/src/codegen_cpu.cpp
+++ b/hilapp/src/codegen_cpu.cpp
@@ -151,7 +151,7 @@ std::string TopLevelVisitor::generate_code_cpu(Stmt *S, bool semicolon_at_end, s
                         code << "_hila_reduction_sum" << sums;
                         sums++;
                     } else {
-                        code << '+';
+                        code << (r.reduction_type == reduction::PRODUCT ? '*' : '+');
                     }
                     code << ": " << r.reduction_name << ")";
                 }
-- 
2.43.0


From 77374950470730b8f4fe746b711a2a6784dbb52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:47 +0000
Subject: [PATCH 12/15] fix: sun_realtime finishes on all ranks when an output
 file cannot be opened

---
 applications/sun_realtime/src/sun_realtime.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/applications/sun_realtime/src/sun_realtime.cpp b/applications/sun_realtime/src/sun_realtime.cpp
index 8c96217..2aa50df 100644
--- a/applications/sun_realtime/src/sun_realtime.cpp
+++ b/applications/sun_realtime/src/sun_realtime.cpp
@@ -305,11 +305,12 @@ int main(int argc, char **argv) {
     hila::seed_random(seed);
 
 
+    bool files_ok = true;
     if (hila::myrank() == 0) {
         measureFile.open(meas_fname, std::ios_base::app);
         if (!measureFile) {
             hila::out0 << "!!! Error opening measurement file\n";
-            hila::finishrun();
+            files_ok = false;
         }
     }
 
@@ -320,7 +321,7 @@ int main(int argc, char **argv) {
         labelFile.open(labelFileName);
         if (!labelFile) {
             hila::out0 << "!!! Error opening file " << labelFileName << "\n";
-            hila::finishrun();
+            files_ok = false;
         }
         labelFile << "1 trajectory\n" << "2 time (lattice units)\n" << "3 plaq avg: sum_i<j (N - Tr Re P_ij)\n" 
             << "4 Tr E_i^2\n" << "5 Gauss violation (G^a G^a over the whole system)\n" << "6 total energy\n"
@@ -329,6 +330,10 @@ int main(int argc, char **argv) {
         labelFile.close();
     }
 
+    // all ranks have to finish together
+    if (!hila::broadcast(files_ok))
+        hila::finishrun();
+
     // Alloc gauge field and momenta (E)
     GaugeField<SUN> U;
     VectorField<Algebra<SUN>> E;
-- 
2.43.0


From a8adea2ae8777770338a13ac214ddf36b4e88b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:42 +0000
Subject: [PATCH 13/15] fix: antiperiodic boundary in vector layout negated
 also values not crossing the lattice edge

---
 .../plumbing/backend_vector/field_storage_backend.h      | 4 +++-
 libraries/plumbing/backend_vector/lattice_vector.h       | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/backend_vector/field_storage_backend.h b/libraries/plumbing/backend_vector/field_storage_backend.h
index 9b015eb..a5ef771 100644
--- a/libraries/plumbing/backend_vector/field_storage_backend.h
+++ b/libraries/plumbing/backend_vector/field_storage_backend.h
@@ -222,9 +222,11 @@ void field_storage<T>::set_local_boundary_elements(Direction dir, Parity par, co
                                 t[e + i] = s[e + perm[i]];
                     } else {
 #ifdef SPECIAL_BOUNDARY_CONDITIONS
+                        // only the elements which leave the node cross the lattice boundary
+                        const bool *RESTRICT leaves = vector_lattice->boundary_leaves_node[dir];
                         for (unsigned e = 0; e < elements * vector_size; e += vector_size)
                             for (unsigned i = 0; i < vector_size; i++)
-                                t[e + i] = -s[e + perm[i]];
+                                t[e + i] = leaves[i] ? -s[e + perm[i]] : s[e + perm[i]];
 #endif
                     }
                 }
diff --git a/libraries/plumbing/backend_vector/lattice_vector.h b/libraries/plumbing/backend_vector/lattice_vector.h
index 5f15c3e..b1a4f8a 100644
--- a/libraries/plumbing/backend_vector/lattice_vector.h
+++ b/libraries/plumbing/backend_vector/lattice_vector.h
@@ -36,6 +36,9 @@ struct vectorized_lattice_struct {
     bool only_local_boundary_copy[NDIRS];
     /// permutation vectors
     int boundary_permutation[NDIRS][vector_size];
+    /// true for the elements of boundary vectors whose neighbour is not on this node, i.e.
+    /// which cross the boundary of the node and not only that of a subnode
+    bool boundary_leaves_node[NDIRS][vector_size];
     /// offsets to boundary halos
     unsigned halo_offset[NDIRS], halo_offset_odd[NDIRS], n_halo_vectors[NDIRS];
     /// storage for indexes to halo sites
@@ -154,6 +157,8 @@ struct vectorized_lattice_struct {
 
                 // get the site index of the neighbouring site
                 CoordinateVector h = lattice->coordinates(idx + i) + d;
+                boundary_leaves_node[d][i] =
+                    (h[d] == lattice->mynode.min[d] + lattice->mynode.size[d]);
 
                 // remember to mod the coordinate on lattice
                 h = h.mod(lattice.size());
@@ -163,8 +168,10 @@ struct vectorized_lattice_struct {
             }
 
             // permutation to opposite direction is the inverse, thus:
-            for (int i = 0; i < vector_size; i++)
+            for (int i = 0; i < vector_size; i++) {
                 boundary_permutation[-d][boundary_permutation[d][i]] = i;
+                boundary_leaves_node[-d][boundary_permutation[d][i]] = boundary_leaves_node[d][i];
+            }
         }
     }
 
-- 
2.43.0


From 4edcc46c9139f43c646a39467edf59c950b13666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 14/15] fix: hilapp did not see random numbers drawn in
 constructors called from site loops

---
 hilapp/src/contains_random_visitor.cpp | 86 +++++++++++++++++---------
 hilapp/src/generalvisitor.h            |  3 +
 hilapp/src/loop_function.cpp           |  2 +-
 3 files changed, 60 insertions(+), 31 deletions(-)

diff --git a/hilapp/src/contains_random_visitor.cpp b/hilapp/src/contains_random_visitor.cpp
index 0c70ed5..3d72b3b 100644
--- a/hilapp/src/contains_random_visitor.cpp
+++ b/hilapp/src/contains_random_visitor.cpp
@@ -27,40 +27,55 @@ class containsRandomChecker : public GeneralVisitor,
 
     // check random number calls
     bool VisitStmt(Stmt *S) {
-        if (CallExpr *CE = dyn_cast<CallExpr>(S)) {
-            if (FunctionDecl *FD = CE->getDirectCallee()) {
-                std::string name = FD->getQualifiedNameAsString();
-                if (name == "hila::random") {
-                    found_random = true;
-                    return false;
-                }
-
-                if (has_pragma(FD, pragma_hila::CONTAINS_RNG)) {
-                    found_random = true;
-                    return false;
-                }
-
-                if (FD->hasBody()) {
-                    // some other function, go in it hierarchially
-                    for (auto d : fdecls) {
-                        if (d == FD)
-                            return true; // was checked, return and continue
-                    }
-                    // llvm::errs() << "RNG CHECK FUNCTION NAME: " << name << "\n";
-                    fdecls.push_back(FD);
-
-                    if (contains_random(FD->getBody())) {
-                        // llvm::errs() << "RNG CHECK FUNCTION NAME: " << name << " HAS
-                        // RNG INSIDE\n";
-                        found_random = true;
-                        return false;
-                    }
-                }
-            }
+        FunctionDecl *FD = nullptr;
+        if (CallExpr *CE = dyn_cast<CallExpr>(S))
+            FD = CE->getDirectCallee();
+        else if (CXXConstructExpr *CtorE = dyn_cast<CXXConstructExpr>(S))
+            FD = CtorE->getConstructor();
+
+        if (FD && function_contains_random(FD)) {
+            found_random = true;
+            return false;
         }
         return true;
     }
 
+    // does calling this function (or constructor) generate random numbers?
+    bool function_contains_random(FunctionDecl *FD) {
+        if (FD->getQualifiedNameAsString() == "hila::random")
+            return true;
+
+        if (has_pragma(FD, pragma_hila::CONTAINS_RNG))
+            return true;
+
+        if (!FD->hasBody())
+            return false;
+
+        // some other function, go in it hierarchially
+        for (auto d : fdecls) {
+            if (d == FD)
+                return false; // was checked, return and continue
+        }
+        fdecls.push_back(FD);
+
+        if (contains_random(FD->getBody()))
+            return true;
+
+        // constructors: the member initializers are not part of the body
+        const FunctionDecl *definition = FD;
+        FD->hasBody(definition);
+        if (auto *ctor = dyn_cast<CXXConstructorDecl>(definition)) {
+            for (auto *init : ctor->inits()) {
+                Expr *E = init->getInit();
+                if (auto *DE = dyn_cast_or_null<CXXDefaultInitExpr>(E))
+                    E = DE->getExpr();
+                if (E && contains_random(E))
+                    return true;
+            }
+        }
+        return false;
+    }
+
     // need to do new "starter pack" here, because the TopLevelVisitor version not
     // callable here
     bool contains_random(Stmt *s) {
@@ -87,3 +102,14 @@ bool GeneralVisitor::contains_random(Stmt *s) {
     fdecls.clear();
     return (checker.found_random);
 }
+
+bool GeneralVisitor::function_contains_random(FunctionDecl *fd) {
+
+    containsRandomChecker checker(*this);
+    fdecls.clear();
+
+    bool found = checker.function_contains_random(fd);
+
+    fdecls.clear();
+    return found;
+}
diff --git a/hilapp/src/generalvisitor.h b/hilapp/src/generalvisitor.h
index ea50912..4d3f402 100644
--- a/hilapp/src/generalvisitor.h
+++ b/hilapp/src/generalvisitor.h
@@ -145,6 +145,9 @@ class GeneralVisitor {
     /// check if stmt contains random number generator
     bool contains_random(Stmt *s);
 
+    /// check if calling function (or constructor, with initializers) generates random numbers
+    bool function_contains_random(FunctionDecl *fd);
+
     /// similarly if contains #pragma hila novector -functions, recursively
     bool contains_novector(Stmt *s);
 
diff --git a/hilapp/src/loop_function.cpp b/hilapp/src/loop_function.cpp
index 9b110aa..7bdffca 100644
--- a/hilapp/src/loop_function.cpp
+++ b/hilapp/src/loop_function.cpp
@@ -189,7 +189,7 @@ void GeneralVisitor::handle_constructor_in_loop(Stmt *s) {
         contains_rng = true;
     } else if (decl->hasBody()) {
         // trivially site dep if it has random
-        contains_rng = contains_random(decl->getBody());
+        contains_rng = function_contains_random(decl);
     } else {
         llvm::errs() << "CONSTRUCTOR DECL WITHOUT BODY - TODO HANDLING\n";
     }
-- 
2.43.0


From ff87e9f481f0037082ca65fb8cc46057faea68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 15/15] fix: read_fields did not compile (it called a function
 that does not exist)

---
 libraries/plumbing/field_io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libraries/plumbing/field_io.h b/libraries/plumbing/field_io.h
index c364430..861ccd8 100644
--- a/libraries/plumbing/field_io.h
+++ b/libraries/plumbing/field_io.h
@@ -336,12 +336,12 @@ void Field<T>::read(const std::string &filename) {
 // Read a list of fields from an input stream
 template <typename T>
 static void read_fields(std::ifstream &inputfile, Field<T> &last) {
-    last.read_from_stream(inputfile);
+    last.read(inputfile);
 }
 
 template <typename T, typename... fieldtypes>
 static void read_fields(std::ifstream &inputfile, Field<T> &next, fieldtypes &...fields) {
-    next.read_from_stream(inputfile);
+    next.read(inputfile);
     read_fields(inputfile, fields...);
 }
 
-- 
2.43.0

