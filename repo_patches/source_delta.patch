From 8326cbc93f05ed0fa80bbf9773200eaa96e2f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 01/53] fix: report an exception instead of crashing when no
 coarse level can be constructed

---
 src/base/precond/amg_pc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/precond/amg_pc.cpp b/src/base/precond/amg_pc.cpp
index 4fa6229..6cc9a84 100644
--- a/src/base/precond/amg_pc.cpp
+++ b/src/base/precond/amg_pc.cpp
@@ -593,6 +593,10 @@ void BaseAMGPC :: BuildAMGMat ()
 
   GetBaseFactory().SetUpLevels(amg_levels, dof_map);
 
+  // without any coarse level there is no DOF-map to build vectors, smoothers or a coarse grid inverse from
+  if ( dof_map->GetNSteps() == 0 )
+    { throw Exception("Failed to construct any coarse levels!"); }
+
   /** Smoothers **/
   Array<shared_ptr<BaseSmoother>> smoothers = BuildSmoothers(amg_levels, dof_map);
 
-- 
2.43.0


From cdec0b01772fc2202fd79c18d37c50dfd1d3d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/53] fix: keep negative entries when compressing scalar
 sparse matrices

---
 src/base/linalg/utils_sparseLA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 7cecef3..3fe7852 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -963,7 +963,7 @@ template<int N, int M> INLINE double abssum_tm(Mat<N, M, double> const &x)
   return s;
 }
 
-INLINE double abssum_tm(double const &x) { return x; }
+INLINE double abssum_tm(double const &x) { return abs(x); }
 
 template<class TSPM>
 shared_ptr<TSPM>
-- 
2.43.0


From 51e651afa3f9d8705b0adfcf90ffbe1eb87dad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 03/53] fix: sparse identity matrix has its entries on the
 diagonal

---
 src/base/linalg/utils_sparseLA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 3fe7852..20b257b 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -858,8 +858,8 @@ createSparseIdentityImpl(int H, BitArray const *onRows)
   {
     if ( (onRows == nullptr) || (onRows->Test(k) ) )
     {
-      spI->GetRowIndices(k)[0] = 1;
-      spI->GetRowValues(k)[0] = 1.0;
+      spI->GetRowIndices(k)[0] = k;
+      SetIdentity(spI->GetRowValues(k)[0]);
     }
   }
 
-- 
2.43.0


From 948309bb5bd9307b389f9c220ac20855772b8226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 04/53] fix: sum of sparse matrices uses the entries of both
 summands

---
 src/base/linalg/utils_sparseLA.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 20b257b..c2301a3 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -174,22 +174,22 @@ AddMergeSPM (double const &alpha,
       {
         for (auto j : Range(risA))
         {
-          lam(k, risA[j], rvsA[j]);
+          lam(k, risA[j], alpha * rvsA[j]);
         }
       }
       else if (risA.Size() == 0)
       {
         for (auto j : Range(risB))
         {
-          lam(k, risB[j], rvsB[j]);
+          lam(k, risB[j], beta * rvsB[j]);
         }
       }
       else
       {
         iterate_ABC(risA, risB,
-          [&](auto const &idxA) { lam(k, risA[idxA], rvsA[idxA]); },
-          [&](auto const &idxB) { lam(k, risB[idxB], rvsA[idxB]); },
-          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], rvsA[idxA] + rvsA[idxB]); });
+          [&](auto const &idxA) { lam(k, risA[idxA], alpha * rvsA[idxA]); },
+          [&](auto const &idxB) { lam(k, risB[idxB], beta * rvsB[idxB]); },
+          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], alpha * rvsA[idxA] + beta * rvsB[idxB]); });
       }
     }
   };
-- 
2.43.0


From 800487b851ef2025fbc2b84babd0ff9bb2ac241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 05/53] fix: conversion of block matrices to sparse matrices

---
 src/base/linalg/utils_sparseLA.cpp | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index c2301a3..a21ada4 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -505,7 +505,7 @@ shared_ptr<BaseMatrix> BaseMatrixToSparse (shared_ptr<BaseMatrix> A);
 
 template<int BH, int BW>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BH, BW, double>>>
+shared_ptr<stripped_spm<Mat<BH, BW, double>>>
 Block2SparseMatrix_impl (BlockMatrix &A)
 {
   typedef stripped_spm_tm<Mat<BH, BW, double>> TSPM;
@@ -559,8 +559,8 @@ Block2SparseMatrix_impl (BlockMatrix &A)
 
   for (auto j : Range(W))
   {
-    rowOff[j] = totalH;
-    totalH += getBlockInCol(j)->Width();
+    colOff[j] = totalW;
+    totalW += getBlockInCol(j)->Width();
   }
 
   auto iterateBlockWise = [&](auto lam)
@@ -591,7 +591,7 @@ Block2SparseMatrix_impl (BlockMatrix &A)
     }
   });
 
-  auto spA = make_shared<stripped_spm_tm<Mat<BH, BW, double>>>(perow, totalW);
+  auto spA = make_shared<stripped_spm<Mat<BH, BW, double>>>(perow, totalW);
 
   perow = 0;
 
@@ -602,15 +602,16 @@ Block2SparseMatrix_impl (BlockMatrix &A)
       auto Akj_ris = Akj.GetRowIndices(kk);
       auto Akj_rvs = Akj.GetRowValues(kk);
 
-      auto ris = spA->GetRowIndices(kk);
-      auto rvs = spA->GetRowValues(kk);
+      int const row = offRow + kk;
+
+      auto ris = spA->GetRowIndices(row);
+      auto rvs = spA->GetRowValues(row);
 
-      for (auto l : Range(ris))
+      for (auto l : Range(Akj_ris))
       {
-        int const row = offRow + kk;
         int const inRow = perow[row]++;
-        ris[inRow] = offCol + Akj_ris[j];
-        rvs[inRow] = Akj_rvs[j];
+        ris[inRow] = offCol + Akj_ris[l];
+        rvs[inRow] = Akj_rvs[l];
       }
     }
   });
@@ -702,8 +703,8 @@ Block2SparseMatrix (BlockMatrix &A)
 
         if (kjPar)
         {
-          rowPds[k] = parAkj->GetRowParallelDofs();
-          colPds[j] = parAkj->GetColParallelDofs();
+          rowPds[j] = parAkj->GetRowParallelDofs();
+          colPds[k] = parAkj->GetColParallelDofs();
         }
 
         if (blockPar == -1)
@@ -760,15 +761,15 @@ Block2SparseMatrix (BlockMatrix &A)
   shared_ptr<ParallelDofs> fusedRowParDOFs = nullptr;
   shared_ptr<ParallelDofs> fusedColParDOFs = nullptr;
 
-  if (blockPar)
+  if (blockPar == 1)
   {
     fusedRowParDOFs = fuseParallelDOFs(rowPds);
     fusedColParDOFs = fuseParallelDOFs(colPds);
   }
 
   return WrapParallelMatrix(singleSparseMat,
-                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Height(), BH),
-                            UniversalDofs(fusedColParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedColParDOFs, singleSparseMat->Height(), BH),
                             blockOp);
 }
 
-- 
2.43.0


From 057a7fafcfbb90fd69da7cace5ea304c3cf4831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 06/53] fix: sum of a sparse matrix and the identity

---
 src/base/linalg/utils_sparseLA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index a21ada4..d713d80 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -837,7 +837,7 @@ EmbedSparseMatrix(shared_ptr<BaseMatrix> A, IntRange r, int const bigH)
 
 template<int BS>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BS, BS, double>>>
+shared_ptr<stripped_spm<Mat<BS, BS, double>>>
 createSparseIdentityImpl(int H, BitArray const *onRows)
 {
   Array<int> perow(H); perow = 1;
@@ -853,7 +853,7 @@ createSparseIdentityImpl(int H, BitArray const *onRows)
     }
   }
 
-  auto spI = make_shared<stripped_spm_tm<Mat<BS, BS, double>>>(perow, H);
+  auto spI = make_shared<stripped_spm<Mat<BS, BS, double>>>(perow, H);
 
   for (auto k : Range(perow))
   {
-- 
2.43.0


From c5e34133ccb679256428edfd5c6890b3e8e5d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 07/53] fix: ToSparseMatrix compresses with the given tolerance

---
 src/base/utils/python_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/python_utils.cpp b/src/base/utils/python_utils.cpp
index bdc8d16..f4ab64b 100644
--- a/src/base/utils/python_utils.cpp
+++ b/src/base/utils/python_utils.cpp
@@ -42,7 +42,7 @@ void ExportUtils (py::module &m)
     auto spA = BaseMatrixToSparse(A);
     if (compress)
     {
-      spA = CompressAGeneric(spA);
+      spA = CompressAGeneric(spA, compressTol);
     }
     return spA;
   },
-- 
2.43.0


From 61471d5d7bf68ad3fda51c3e17efcc0580a1be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 08/53] fix: RestrictMatrixToBlocks leaves its input matrix
 unchanged

---
 src/base/linalg/utils_sparseLA.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index d713d80..cc7316b 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -1077,7 +1077,9 @@ restrictMatrixToBlocks(shared_ptr<BaseMatrix> A,
   shared_ptr<BaseMatrix> rMat = nullptr;
 
   DispatchOverMatrixDimensions(*locMat, [&](auto &spA, auto H, auto W) {
-    rMat = restrictMatrixToBlocksImpl(spA, rowBlocks, colBlocks, compressTol);
+    // entries are zeroed out before compressing, do that on a copy
+    std::remove_reference_t<decltype(spA)> copyA(spA);
+    rMat = restrictMatrixToBlocksImpl(copyA, rowBlocks, colBlocks, compressTol);
   });
 
   return WrapParallelMatrix(rMat,
-- 
2.43.0


From 68d70225aa5543690d0206bfd6ffc406469d7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 09/53] fix: SubAMGMatrix on the coarsest level is the coarse
 solver

---
 src/base/solve/python_solve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/solve/python_solve.cpp b/src/base/solve/python_solve.cpp
index 9841a1c..7cab995 100644
--- a/src/base/solve/python_solve.cpp
+++ b/src/base/solve/python_solve.cpp
@@ -98,7 +98,7 @@ namespace amg
       shared_ptr<BaseMatrix> out = nullptr;
       if (level == 0)
         { out = amgMat; }
-      else if ( level == amgMat->GetNLevels(0) )
+      else if ( level + 1 >= amgMat->GetNLevels(0) ) // no smoother on the coarsest level
         { out = amgMat->GetCINV(); }
       else {
         auto sm = make_shared<AMGSmoother>(amgMat, level);
-- 
2.43.0


From 431c2d8d533c68e581482210ca885a29358ded52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 10/53] fix: pseudo inverse of zero blocks

---
 src/base/utils/utils_denseLA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index 37e85dc..9e2966f 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -300,7 +300,7 @@ CPI_TN (FlatMatrix<TSCAL> A, LocalHeap &lh)
     // if ( (maxval < 1e-20*rest) || (rest < eps) )
       // { isok = false; break; }
 
-    if ( maxval < max( AbsZeroTol<TSCAL>() * rest, eps) )
+    if ( maxval <= max( AbsZeroTol<TSCAL>() * rest, eps) )
       { isok = false; break; }
 
     // exchange rows
@@ -498,7 +498,7 @@ TryDirectInverse_simple (FlatMatrix<TSCAL> A, LocalHeap & lh)
     // if ( (maxval < 1e-20*rest) || (rest < eps) )
       // { isok = false; break; }
 
-    if ( maxval < max( AbsZeroTol<TSCAL>() * rest, eps) )
+    if ( maxval <= max( AbsZeroTol<TSCAL>() * rest, eps) )
       { isok = false; break; }
 
     // exchange rows
-- 
2.43.0


From cbade84ed4397946a0469bdc0f3c4c3c00221715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 11/53] fix: heap for pseudo inverses of small blocks in the
 block smoother

---
 src/base/smoothers/block_gssmoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/block_gssmoother.cpp b/src/base/smoothers/block_gssmoother.cpp
index 2b4f7ac..1a57b99 100644
--- a/src/base/smoothers/block_gssmoother.cpp
+++ b/src/base/smoothers/block_gssmoother.cpp
@@ -72,7 +72,7 @@ BSmoother (shared_ptr<SparseMatrix<TM>> _spmat,
   ParallelJob([&] (const TaskInfo & ti)
   {
     constexpr int BS = ngbla::Height<TM>();
-    LocalHeap lh(3*sqr(sizeof(double)*maxbs*ngbla::Height<TM>()), "AAA", false);
+    LocalHeap lh(10*1024 + 3*sqr(sizeof(double)*maxbs*ngbla::Height<TM>()), "AAA", false);
     for (int block_nr : sl)
     {
       HeapReset hr(lh);
-- 
2.43.0


From 6b2ba3927b204f7d1a9a0dceb4166655a87b6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 12/53] fix: block smoother uses the system matrix for
 residuals if the blocks are no partition

---
 src/base/smoothers/loc_block_gssmoother.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index 811939a..8bf0564 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -113,6 +113,7 @@ namespace amg
 
     // cout << " maxbs " << endl << maxbs << endl;
 
+    bool all_in_blocks = false;
     Array<int> dof2block;
     if (blocks_no) {
       bool ok = true;
@@ -130,8 +131,15 @@ namespace amg
       }
       if (!ok)
 	{ throw Exception("Blocks do overlap, but are assumbed to be non-overlapping!!"); }
+
+      all_in_blocks = std::find(dof2block.begin(), dof2block.end(), -1) == dof2block.end();
     }
 
+
+    // if blocks overlap, or do not contain all rows, the blocks do not represent the system matrix
+    if (!all_in_blocks)
+      { this->SetSysMat(_spmat); }
+
     /** write data into blocks **/
     SharedLoop2 sl(n_blocks_tot);
     ParallelJob
@@ -317,6 +325,8 @@ namespace amg
   template<class TM>
   shared_ptr<BaseMatrix> BSmoother2<TM> :: GetAMatrix () const
   {
+    if (sysmat != nullptr)
+      { return sysmat; }
     return make_shared<BSmoother2SysMat<TM>>(const_pointer_cast<BSmoother2<TM>>(dynamic_pointer_cast<const BSmoother2<TM>>(shared_from_this())));
   } // BSmoother2::GetAMatrix
 
-- 
2.43.0


From 2806abcf706231f9cb03522a2607378fa2b1d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 13/53] fix: sweeps of the block smoother for non-overlapping
 blocks

---
 src/base/smoothers/loc_block_gssmoother.cpp   | 14 ++++++++------
 src/base/smoothers/loc_block_gssmoother.hpp   |  1 +
 .../smoothers/loc_block_gssmoother_impl.hpp   | 19 ++++++++++---------
 3 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index 8bf0564..0816eda 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -135,6 +135,8 @@ namespace amg
       all_in_blocks = std::find(dof2block.begin(), dof2block.end(), -1) == dof2block.end();
     }
 
+    // the optimized sweeps need every DOF in exactly one, regular, block
+    opt_no = blocks_no && all_in_blocks && (!pinv);
 
     // if blocks overlap, or do not contain all rows, the blocks do not represent the system matrix
     if (!all_in_blocks)
@@ -176,7 +178,7 @@ namespace amg
 				 bool update_res, bool x_zero) const
   {
     RegionTimer rt(S_thack());
-    if (blocks_no)
+    if (opt_no)
       { SmoothNO(allgroups, x, b, res, 1, res_updated, update_res, x_zero, false, false); }
     else
       { SmoothWO(allgroups, x, b, res, 1, res_updated, update_res, x_zero, false, false); }
@@ -190,7 +192,7 @@ namespace amg
 				  bool update_res, bool x_zero) const
   {
     RegionTimer rt(SK_thack());
-    if (blocks_no)
+    if (opt_no)
       { SmoothNO(allgroups, x, b, res, steps, res_updated, update_res, x_zero, false, false); }
     else
       { SmoothWO(allgroups, x, b, res, steps, res_updated, update_res, x_zero, false, false); }
@@ -204,7 +206,7 @@ namespace amg
 				      bool update_res, bool x_zero) const
   {
     RegionTimer rt(SSK_thack());
-    if (blocks_no)
+    if (opt_no)
       { SmoothNO(allgroups, x, b, res, steps, res_updated, update_res, x_zero, false, true); }
     else
       { SmoothWO(allgroups, x, b, res, steps, res_updated, update_res, x_zero, false, true); }
@@ -218,7 +220,7 @@ namespace amg
 				     bool update_res, bool x_zero) const
   {
     RegionTimer rt(SB_thack());
-    if (blocks_no)
+    if (opt_no)
       { SmoothNO(allgroups, x, b, res, 1, res_updated, update_res, x_zero, true, false); }
     else
       { SmoothWO(allgroups, x, b, res, 1, res_updated, update_res, x_zero, true, false); }
@@ -232,7 +234,7 @@ namespace amg
 				      bool update_res, bool x_zero) const
   {
     RegionTimer rt(SBK_thack());
-    if (blocks_no)
+    if (opt_no)
       { SmoothNO(allgroups, x, b, res, steps, res_updated, update_res, x_zero, true, false); }
     else
       { SmoothWO(allgroups, x, b, res, steps, res_updated, update_res, x_zero, true, false); }
@@ -246,7 +248,7 @@ namespace amg
 				       bool update_res, bool x_zero, bool reverse, bool symm) const
   {
     RegionTimer rt(SG_thack());
-    if (blocks_no)
+    if (opt_no)
       { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
     else
       { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
diff --git a/src/base/smoothers/loc_block_gssmoother.hpp b/src/base/smoothers/loc_block_gssmoother.hpp
index f65de5d..646dd01 100644
--- a/src/base/smoothers/loc_block_gssmoother.hpp
+++ b/src/base/smoothers/loc_block_gssmoother.hpp
@@ -93,6 +93,7 @@ namespace amg
     bool parallel = true;    // use shared memory parallelization
     bool use_sl2 = false;    // use SharedLoop2
     bool blocks_no = false;  // guaranteed no overlap in blocks (optimizations for zero initial guess, symmetric smooting)
+    bool opt_no = false;     // use the optimizations for non-overlapping blocks
     LocalHeap buffer_lh;
 
     // working vectors
diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 743f438..cd86144 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -326,7 +326,7 @@ namespace amg
     // res -= (D+L^T) x_new
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -371,10 +371,10 @@ namespace amg
     // so set res to 0, later blocks add -= U^T x_new
     for (auto dnr : dofnrs)
       { bigres(dnr) = 0.0; }
-    // res -= L x_new
+    // res -= U^T x_new
     for (auto k : Range(dofnrs)) {
-      for (auto l : Range(firsti[nds], firsti[nds+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+      for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -408,7 +408,7 @@ namespace amg
     // res -= L^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -442,7 +442,7 @@ namespace amg
     // res -= U^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -508,7 +508,7 @@ namespace amg
     // res -= U (x_new-x)
     for (auto k : Range(dofnrs))
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
   } // BSBlock::RichardsonUpdate_FW_zig
 
 
@@ -719,6 +719,7 @@ namespace amg
       if (update_res)
       { // writes res-A*update = b-Ax_new into "res" vector
         *myresb = res;
+        *update = 0;
         // for omega!=1, need to zero out update-vec
         //   even then, not really sure this works?
         if (symm)
@@ -763,9 +764,9 @@ namespace amg
 	  FlatVector<TV> hb = hymax.Range(0, n);
 	  if (zig) { // zero initial guess - save U/L part of residuum
 	    if (reverse)
-	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
-	    else
 	      { blocks[block_nr].RichardsonUpdate_BW_zig(1.0, hx, fx, hb, fb); }
+	    else
+	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
 	  }
 	  else
 	    { blocks[block_nr].RichardsonUpdate(1.0, hx, fx, hb, fb); }
-- 
2.43.0


From 5291f92d7b06179117e04304f4c67fafc051c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 14/53] fix: backward Hiptmair smoothing with zero initial
 guess

---
 src/base/smoothers/base_smoother.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/smoothers/base_smoother.cpp b/src/base/smoothers/base_smoother.cpp
index d7a0057..348d937 100644
--- a/src/base/smoothers/base_smoother.cpp
+++ b/src/base/smoothers/base_smoother.cpp
@@ -292,6 +292,8 @@ void HiptMairSmoother :: SmoothBack (BaseVector &x, const BaseVector &b, BaseVec
     RegionTimer rt(tr);
 
     smrange->SmoothBack(x, b, res, resUp, resUp, x_zero);
+
+    xZero = false;
   }
 
   resUp = CalcPotRhs(x, b, res, *rhspot, resUp, xZero, resUp);
-- 
2.43.0


From ff91d805decd8e21d3475ec12d1202e607994f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 15/53] fix: transposed of D in the Hiptmair smoother if none
 is given

---
 src/base/smoothers/python_smoothers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/python_smoothers.cpp b/src/base/smoothers/python_smoothers.cpp
index 29db025..3450182 100644
--- a/src/base/smoothers/python_smoothers.cpp
+++ b/src/base/smoothers/python_smoothers.cpp
@@ -130,7 +130,7 @@ void ExportSmoothers (py::module & m)
           shared_ptr<BaseMatrix> pot_mat, shared_ptr<BaseMatrix> range_mat,
           shared_ptr<BaseMatrix> D, shared_ptr<BaseMatrix> DT) {
           if (DT == nullptr)
-            { D = make_shared<Transpose>(D); }
+            { DT = make_shared<Transpose>(D); }
           return make_shared<HiptMairSmoother>(pot_smoother, range_smoother, pot_mat, range_mat, D, DT);
         }),
         py::arg("pot_smoother"),
-- 
2.43.0


From 80a2a0a3416b342505d90d10b324525b07673135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 16/53] fix: restriction with concatenated prolongations

---
 src/base/coarsening/dof_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/dof_map.cpp b/src/base/coarsening/dof_map.cpp
index 1f06873..c6b191a 100644
--- a/src/base/coarsening/dof_map.cpp
+++ b/src/base/coarsening/dof_map.cpp
@@ -648,7 +648,7 @@ TransferF2C (BaseVector const *x_fine,
 
   x_fine->Distribute();
 
-  _prolT->Mult(*x_fine, *x_coarse);
+  GetProlTrans()->Mult(*x_fine, *x_coarse);
 
   x_coarse->SetParallelStatus(DISTRIBUTED);
 } // ProlMap::TransferF2C
@@ -668,7 +668,7 @@ AddF2C (double fac, BaseVector const *x_fine, BaseVector *x_coarse) const
   x_fine->Distribute();
   x_coarse->Distribute();
 
-  _prolT->MultAdd(fac, *x_fine, *x_coarse);
+  GetProlTrans()->MultAdd(fac, *x_fine, *x_coarse);
 } // ProlMap::AddF2C
 
 
-- 
2.43.0


From 766c7aea5fb7a1aa230cee57fb8b02528f90ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:52 +0000
Subject: [PATCH 17/53] fix: work vectors for concatenated steps that cannot be
 merged

---
 src/base/coarsening/dof_map.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/dof_map.cpp b/src/base/coarsening/dof_map.cpp
index c6b191a..85dff29 100644
--- a/src/base/coarsening/dof_map.cpp
+++ b/src/base/coarsening/dof_map.cpp
@@ -36,7 +36,11 @@ MakeSingleStep2 (FlatArray<shared_ptr<BaseDOFMapStep>> init_steps)
   if (sub_steps.Size() == 1)
     { return sub_steps[0]; }
   else
-    { return make_shared<ConcDMS>(sub_steps); }
+    {
+      final_step = make_shared<ConcDMS>(sub_steps);
+      final_step->Finalize(); // work vectors
+      return final_step;
+    }
 } // MakeSingleStep2
 
 
-- 
2.43.0


From 37e601397a6d00c53d7b2ba9caab4901806983dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:43 +0000
Subject: [PATCH 18/53] fix: smoothed prolongation on level 0 with an embedding

The pre-embedded matrix has other rows than the mesh has vertices, so it
cannot be used for the classic smoothed prolongation (in serial, it was).
---
 src/base/factory/vertex_factory_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 5723141..c4bd59a 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -1888,6 +1888,9 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
   /** if "fmat" has no pardofs, it is not the original finest level matrix, so fine to use! !**/
   if ( have_fmat && (fmat->GetParallelDofs() != nullptr) )
     { have_fmat &= (fmat->GetParallelDofs() == fpds); }
+  /** without pardofs, the pre-embedded matrix can have other/more rows than there are vertices */
+  if ( have_fmat && (fmat->Height() != FM.template GetNN<NT_VERTEX>()) )
+    { have_fmat = false; }
 
   // cout << " have fmat " << have_fmat << " " << (fmat != nullptr) << endl; //" " << (fmat->GetParallelDofs() == fpds) << endl;
   // cout << " pds " << fmat->GetParallelDofs() << fpds << endl;
@@ -2352,7 +2355,7 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
     static Timer tImp("SemiAuxSProlMap 0 improve-its");
     auto const &CSP = *sprol;
 
-    fmat = actualFmat;
+    fmat = have_fmat ? actualFmat : nullptr;
 
     if ( fmat == nullptr )
     {
-- 
2.43.0


From 946c0f08be44fe6fcfd7bbce8f60e5fc50b64606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 19/53] fix: bounds of basis function queries

---
 src/base/solve/amg_matrix.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index dd6a353..80d287b 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -453,16 +453,16 @@ namespace amg
 
     { // Check if input is OK
       int input_notok = 0;
-      if ( (arank < 0) || (arank > gcomm.Size()) )
+      if ( (arank < 0) || (arank >= gcomm.Size()) )
       	{ input_notok = 1; }
-      if ( have_lev && (comp > lev_bs) )
+      if ( have_lev && ( (comp < 0) || (comp >= lev_bs) ) )
 	      { input_notok = 2; }
       if ( (gcomm.Rank() == arank) && (!have_lev) ) // e.g contracted out
 	      { input_notok = 3; }
       if (have_lev) {
-        if ( (gcomm.Rank() == arank) && (gcomm.Rank() > 0) && (dof > lev_uDofs.GetND()) )
+        if ( (gcomm.Rank() == arank) && (gcomm.Rank() > 0) && (dof >= lev_uDofs.GetND()) )
           { input_notok = 4; }
-        if ( (arank == 0) && (dof > lev_uDofs.GetNDGlob()) )
+        if ( (arank == 0) && (dof >= lev_uDofs.GetNDGlob()) )
           { input_notok = 5; }
       }
       input_notok = gcomm.AllReduce(input_notok, NG_MPI_MAX);
@@ -473,12 +473,12 @@ namespace amg
           case(1) : { cerr << "invalid rank " << arank << endl; break; }
           case(2) : { cerr << "component " << comp << " invalid on level " << level << endl; break; }
           case(3) : { cerr << "rank " << arank << " does not have DOFs on level " << level << endl; break; }
-          case(4) : { cerr << "rank " << arank << " DOFs on level " << level << " < " << dof << endl; break; }
-          case(5) : { cerr << "global DOFs on level " << level << " < " << dof << endl; break; }
+          case(4) : { cerr << "rank " << arank << " DOFs on level " << level << " <= " << dof << endl; break; }
+          case(5) : { cerr << "global DOFs on level " << level << " <= " << dof << endl; break; }
           default : { break; }
           }
-          return;
         }
+        return;
       }
     }
 
@@ -506,7 +506,9 @@ namespace amg
     }
 
     /** prolongate down to level 0 **/
-    map.TransferAtoB (min(level, nlev_loc), onLevel, x_level[level].get(), &vec);
+    // (ranks that do not have the level start from the last, empty, one)
+    int const startLevel = min(level, nlev_loc - 1);
+    map.TransferAtoB (startLevel, onLevel, x_level[startLevel].get(), &vec);
   } // AMGMatrix :: GetBF
 
 
-- 
2.43.0


From 321c92bf507edff4c7471d6e74c73715501445ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 20/53] fix: setting up levels a second time

---
 src/base/factory/base_factory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index aaa27f7..8f741dd 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -224,6 +224,9 @@ SetUpLevels (Array<shared_ptr<BaseAMGFactory::AMGLevel>> & amg_levels, shared_pt
 
   const auto & O(*options);
 
+  if ( logger == nullptr ) // it is reset below, so this is not the first set up
+    { logger = make_shared<Logger>(options->log_level); }
+
   if ( options->log_level > Options::LOG_LEVEL::BASIC)
   {
     if ( amg_levels[0]->cap->uDofs.GetCommunicator().Rank() == 0 )
-- 
2.43.0


From fdcec9913f8e9c8427a9714624d2bcf1b15a0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 21/53] fix: regularisation of 2d elasticity matrices relative
 to their size

---
 src/elasticity/elasticity_pc_impl.hpp | 30 +++++++++++++--------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index e35c700..8ce332a 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -711,22 +711,20 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
 template<> void VertexAMGPC<ElasticityAMGFactory<2>> :: RegularizeMatrix (shared_ptr<BaseSparseMatrix> mat, shared_ptr<ParallelDofs> & pardofs) const
 {
   auto& A = static_cast<ElasticityAMGFactory<2>::TSPM_TM&>(*mat);
-  if ( (pardofs != nullptr) && (pardofs->GetDistantProcs().Size() != 0) ) {
-    Array<int> is_zero(A.Height());
-    for(auto k : Range(A.Height()))
-{ is_zero[k] = (fabs(A(k,k)(2,2)) < 1e-10 ) ?  1 : 0; }
-    AllReduceDofData(is_zero, NG_MPI_SUM, pardofs);
-    for(auto k : Range(A.Height()))
-if ( (pardofs->IsMasterDof(k)) && (is_zero[k] != 0) )
-  { A(k,k)(2,2) = 1; }
-  }
-  else {
-    for(auto k : Range(A.Height())) {
-auto & diag_etr = A(k,k);
-if (fabs(diag_etr(2,2)) < 1e-8)
-  { diag_etr(2,2) = 1; }
-    }
-  }
+  bool const shared = (pardofs != nullptr) && (pardofs->GetDistantProcs().Size() != 0);
+  // rotation entries of the (cumulated) diagonal
+  Array<double> rots(A.Height());
+  for(auto k : Range(A.Height()))
+    { rots[k] = A(k,k)(2,2); }
+  if (shared)
+    { AllReduceDofData(rots, NG_MPI_SUM, pardofs); }
+  // "zero" is relative, how large the entries are depends on the material and on the size of the mesh
+  double maxRot = 0.0;
+  for(auto rot : rots)
+    { maxRot = max(maxRot, fabs(rot)); }
+  for(auto k : Range(A.Height()))
+    if ( (fabs(rots[k]) <= 1e-12 * maxRot) && ( (!shared) || pardofs->IsMasterDof(k) ) )
+      { A(k,k)(2,2) = (maxRot > 0.0) ? maxRot : 1.0; }
 } // ElasticityAMGFactory<DIM>::RegularizeMatrix
 #endif // FILE_AMG_ELAST_2D_CPP
 
-- 
2.43.0


From b5946a1132a844de651fcbd426e2c6c8dcb6f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 22/53] fix: weights of edges to constrained vertices relative
 to the others

---
 src/elasticity/elasticity_pc_impl.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index 8ce332a..d1f0ad3 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -376,10 +376,19 @@ VertexAMGPC<FCC> :: BuildAlgMesh_ALG_scal (shared_ptr<BlockTM> top_mesh,
   {
     const auto & ffds = *finest_freedofs;
     const auto & A(*spm_tm);
+    double sumFree = 0.0;
+    size_t numFree = 0;
+    for (auto & e : edges) {
+      auto di = V2D(e.v[0]); auto dj = V2D(e.v[1]);
+      if (ffds.Test(di) && ffds.Test(dj))
+        { sumFree += fabsum(A(di, dj)) / FCC::ENERGY::DPV; numFree++; }
+    }
+    // after BBDC, diri entries are compressed and mat has no entry, these edges are weak compared to the others
+    double const fcDiri = (sumFree > 0) ? 1e-4 * sumFree / numFree : 1e-4;
     for (auto & e : edges) {
       auto di = V2D(e.v[0]); auto dj = V2D(e.v[1]);
       // after BBDC, diri entries are compressed and mat has no entry (mult multidim BDDC doesnt work anyways)
-      double fc = (ffds.Test(di) && ffds.Test(dj)) ? fabsum(A(di, dj)) / FCC::ENERGY::DPV : 1e-4; // after BBDC, diri entries are compressed and mat has no entry
+      double fc = (ffds.Test(di) && ffds.Test(dj)) ? fabsum(A(di, dj)) / FCC::ENERGY::DPV : fcDiri;
       // double fc = (ffds.Test(di) && ffds.Test(dj)) ? fabsum(A(di, dj)) / sqrt(fabsum(A(di,di)) * fabsum(A(dj,dj))) / dofpv(C::DIM) : 1e-4;
       auto & emat = edata[e.id]; emat = 0;
       Iterate<FCC::ENERGY::DPV>([&](auto i) LAMBDA_INLINE { emat(i.value, i.value) = fc; });
-- 
2.43.0


From 65b1365346834af306bcfdab4206e4a61a0ed3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 23/53] fix: thresholds of the smoothed prolongation relative
 to the edge weights

---
 src/base/factory/vertex_factory_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index c4bd59a..2ca3282 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -2623,6 +2623,7 @@ for (auto l : Range(une))
       { maxtr = max2(maxtr, calc_trace(edata[une[l][1]])); }
   }
 maxtr /= ngbla::Height<TM>();
+double const scale = (maxtr > 0) ? maxtr : 1.0;
 for (auto l : Range(une)) {
   if (l != MEpos) {
     const auto & edge = all_fedges[une[l][1]];
@@ -2638,11 +2639,14 @@ for (auto l : Range(une)) {
   // if (vmap[une[l][0]] == CV)
   // { RegTM<0, ngbla::Height<TM>(), ngbla::Height<TM>()>(EMAT, maxtr); }
   if (vmap[une[l][0]] == CV) {
+    // "zero" is relative to the connections in the aggregate
+    EMAT *= 1.0 / scale;
     RegTM<0, ngbla::Height<TM>(), ngbla::Height<TM>()>(EMAT);
+    EMAT *= scale;
   }
       }
     else
-      { EMAT = max2(EMAT, 1e-8); }
+      { EMAT = max2(EMAT, 1e-8 * scale); }
     Q = Trans(Qij) * EMAT;
     rvs[l] = Q * Qji;
     rvs[MEpos] += Q * Qij;
-- 
2.43.0


From 29f32b9f013ba923c3ead37f5a568cf1cfee686e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:21 +0000
Subject: [PATCH 24/53] fix: regularisation refuses matrices of another entry
 size

---
 src/elasticity/elasticity_pc_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index d1f0ad3..541525e 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -719,7 +719,7 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
 #ifdef FILE_AMG_ELAST_2D_CPP
 template<> void VertexAMGPC<ElasticityAMGFactory<2>> :: RegularizeMatrix (shared_ptr<BaseSparseMatrix> mat, shared_ptr<ParallelDofs> & pardofs) const
 {
-  auto& A = static_cast<ElasticityAMGFactory<2>::TSPM_TM&>(*mat);
+  auto& A = *my_dynamic_pointer_cast<ElasticityAMGFactory<2>::TSPM_TM>(mat, "RegularizeMatrix - matrix");
   bool const shared = (pardofs != nullptr) && (pardofs->GetDistantProcs().Size() != 0);
   // rotation entries of the (cumulated) diagonal
   Array<double> rots(A.Height());
@@ -740,7 +740,7 @@ template<> void VertexAMGPC<ElasticityAMGFactory<2>> :: RegularizeMatrix (shared
 #ifdef FILE_AMG_ELAST_3D_CPP
 template<> void VertexAMGPC<ElasticityAMGFactory<3>> :: RegularizeMatrix (shared_ptr<BaseSparseMatrix> mat, shared_ptr<ParallelDofs> & pardofs) const
 {
-  auto& A = static_cast<ElasticityAMGFactory<3>::TSPM_TM&>(*mat);
+  auto& A = *my_dynamic_pointer_cast<ElasticityAMGFactory<3>::TSPM_TM>(mat, "RegularizeMatrix - matrix");
   typedef ElasticityAMGFactory<3>::TM TM;
   if ( (pardofs != nullptr) && (pardofs->GetDistantProcs().Size() != 0) ) {
     Array<TM> diags(A.Height());
-- 
2.43.0


From 117bbb5a971eb5cc45d119d12b27efa0d707273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 25/53] fix: default per-level option values survive when no
 flag is given

---
 src/base/utils/SpecOpt.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 5fe44ed..2f4a161 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -44,6 +44,13 @@ public:
     return *this;
   }
 
+  // special values we already have are only replaced if the flags say something about the option
+  static bool IsSetInFlags (const Flags & flags, string key)
+  {
+    return flags.StringFlagDefined(key) || flags.NumFlagDefined(key) || !flags.GetDefineFlagX(key).IsMaybe() ||
+           flags.StringListFlagDefined(key + "_spec") || flags.NumListFlagDefined(key + "_spec");
+  }
+
   void SetFromFlagsEnum (const Flags & flags, string defkey, FlatArray<string> optkeys, FlatArray<OC> enum_vals)
   {
     auto setoc = [&](auto & oc, string val) {
@@ -52,6 +59,8 @@ public:
         { oc = enum_vals[index]; }
     };
     setoc(default_opt, flags.GetStringFlag(defkey, ""));
+    if ( !IsSetInFlags(flags, defkey) )
+      { return; }
     auto & specfa = flags.GetStringListFlag(defkey + "_spec");
     spec_opt.SetSize(specfa.Size()); spec_opt = default_opt;
     for (auto k : Range(spec_opt))
@@ -90,6 +99,8 @@ INLINE void SpecOpt<bool> :: SetFromFlags (const Flags & flags, string key)
 {
   if (default_opt) { default_opt = !flags.GetDefineFlagX(key).IsFalse(); }
   else { default_opt = flags.GetDefineFlagX(key).IsTrue(); }
+  if ( !IsSetInFlags(flags, key) )
+    { return; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
@@ -100,6 +111,8 @@ template<>
 INLINE void SpecOpt<xbool> :: SetFromFlags (const Flags & flags, string key)
 {
   default_opt = flags.GetDefineFlagX(key);
+  if ( !IsSetInFlags(flags, key) )
+    { return; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
@@ -110,6 +123,8 @@ template<>
 INLINE void SpecOpt<double> :: SetFromFlags (const Flags & flags, string key)
 {
   default_opt = flags.GetNumFlag(key, default_opt);
+  if ( !IsSetInFlags(flags, key) )
+    { return; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
@@ -121,6 +136,8 @@ template<>
 INLINE void SpecOpt<int> :: SetFromFlags (const Flags & flags, string key)
 {
   default_opt = int(flags.GetNumFlag(key, double(default_opt)));
+  if ( !IsSetInFlags(flags, key) )
+    { return; }
   auto & arr = flags.GetNumListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
@@ -132,6 +149,8 @@ template<>
 INLINE void SpecOpt<string> :: SetFromFlags (const Flags & flags, string key)
 {
   default_opt = flags.GetStringFlag(key, default_opt);
+  if ( !IsSetInFlags(flags, key) )
+    { return; }
   auto & arr = flags.GetStringListFlag(key+"_spec");
   spec_opt.SetSize(arr.Size()); spec_opt = default_opt;
   for (auto k : Range(spec_opt))
-- 
2.43.0


From 9a06929ef2d94e9b8f5b756d9c36525d137942a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 26/53] fix: mis_neib_boost is taken from the options

---
 src/base/coarsening/mis_agg_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index 5df1e3c..1b1051b 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -53,6 +53,7 @@ MISAgglomerator<ENERGY, TMESH, ROBUST> :: MISAgglomerator (shared_ptr<TMESH> _me
 template<class ENERGY, class TMESH, bool ROBUST>
 void MISAgglomerator<ENERGY, TMESH, ROBUST> :: Initialize (const MISAggOptions & opts, int level)
 {
+  neib_boost      = opts.mis_neib_boost.GetOpt(level);
   lazy_neib_boost = opts.lazy_neib_boost.GetOpt(level);
   use_minmax_soc  = opts.ecw_minmax.GetOpt(level);
   dist2           = opts.mis_dist2.GetOpt(level);
-- 
2.43.0


From 57f08877e404cc6e03c26ca919ff95a524a28c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:18 +0000
Subject: [PATCH 27/53] fix: MIS agglomerates never contain constrained
 vertices

---
 src/base/coarsening/mis_agg_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index 1b1051b..99756fa 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -759,7 +759,7 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
         } else { // neib is not in an agg - force start a new one at neib and add this vertex (which must be OK!)
           auto N_eqc = M.template GetEQCOfNode<NT_VERTEX>(N);
           // if ( (eqc_h.IsMasterOfEQC(N_eqc)) && (eqa_to_eqb(eqc, N_eqc) ) ) { // only if it is OK eqc-wise
-          if ( is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active!
+          if ( is_mine(N) && (!marked.Test(N)) && eqa_to_eqb(eqc, N_eqc) ) { // neib must be active (not Dirichlet)
             init_agglomerate(N, N_eqc, true); // have to force new agg even if we dont really want to ...
             auto new_agg_id = v_to_agg[N];
             if (!marked.Test(v)) { // might already have been added by init_agg, but probably not
-- 
2.43.0


From 6e42541b1981651f222888001c45e45f9a7f00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 28/53] fix: setup without explicitly given free unknowns

---
 src/base/precond/amg_pc.cpp             | 4 ++++
 src/base/precond/amg_pc_vertex_impl.hpp | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/base/precond/amg_pc.cpp b/src/base/precond/amg_pc.cpp
index 6cc9a84..203ec63 100644
--- a/src/base/precond/amg_pc.cpp
+++ b/src/base/precond/amg_pc.cpp
@@ -384,6 +384,10 @@ void BaseAMGPC :: InitLevel (shared_ptr<BitArray> freedofs)
 
   const auto & O(*options);
 
+  // nothing given - all free DOFs of the space
+  if ( (freedofs == nullptr) && (!inStrictAlgMode()) )
+    { freedofs = bfa->GetFESpace()->GetFreeDofs(bfa->UsesEliminateInternal()); }
+
   if ( (!inStrictAlgMode()) && (bfa->UsesEliminateInternal() || O.smooth_lo_only) ) {
     auto fes = bfa->GetFESpace();
     auto lofes = fes->LowOrderFESpacePtr();
diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 6f085b9..29bcc8f 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -53,15 +53,18 @@ void VertexAMGPC<FACTORY> :: InitLevel (shared_ptr<BitArray> freedofs)
 
   auto & O(static_cast<Options&>(*options));
 
-  if (freedofs == nullptr) // postpone to FinalizeLevel
-    { return; }
-
   if (O.spec_ss == VertexAMGPCOptions::SPECIAL_SUBSET::SPECSS_FREE)
   {
     if (O.log_level_pc > Options::LOG_LEVEL_PC::BASIC)
       { cout << IM(3) << "taking subset for coarsening from freedofs" << endl; }
 
     O.ss_select = finest_freedofs;
+
+    if (O.ss_select == nullptr) // no information about free DOFs - all of them are
+    {
+      O.ss_select = make_shared<BitArray>(finest_mat->Height());
+      O.ss_select->Set();
+    }
     //cout << " freedofs (for coarsening) set " << options->ss_select->NumSet() << " of " << options->ss_select->Size() << endl;
     //cout << *options->ss_select << endl;
     //CheckBAConsistency("ss_select", O.ss_select, bfa->GetFESpace()->GetParallelDofs());
-- 
2.43.0


From 6bbe4c72b4a1bc624002a33090575027f5b288a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 29/53] fix: on_dofs=select without a selection is refused

---
 src/base/precond/amg_pc_vertex_impl.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 29bcc8f..feb561e 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -53,6 +53,7 @@ void VertexAMGPC<FACTORY> :: InitLevel (shared_ptr<BitArray> freedofs)
 
   auto & O(static_cast<Options&>(*options));
 
+
   if (O.spec_ss == VertexAMGPCOptions::SPECIAL_SUBSET::SPECSS_FREE)
   {
     if (O.log_level_pc > Options::LOG_LEVEL_PC::BASIC)
@@ -148,6 +149,11 @@ shared_ptr<TopologicMesh> VertexAMGPC<FACTORY> :: BuildInitialMesh ()
 {
   static Timer t("BuildInitialMesh"); RegionTimer rt(t);
 
+  auto & O = static_cast<Options&>(*options);
+
+  if ( (O.subset == Options::DOF_SUBSET::SELECTED_SUBSET) && (O.ss_select == nullptr) )
+    { throw Exception("on_dofs = select, but no DOFs are selected!"); }
+
   auto eqc_h = BuildEQCH();
 
   // TODO: it is kinda dumb that we have the subset being decided in SetFromFlags,
-- 
2.43.0


From 1b855bedd01b9c08d30382a384f1ed0c598d9ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 30/53] fix: element-matrix edge weights for higher-order
 spaces

---
 src/h1/h1_dim1.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/h1/h1_dim1.cpp b/src/h1/h1_dim1.cpp
index 9a013ca..867b03b 100644
--- a/src/h1/h1_dim1.cpp
+++ b/src/h1/h1_dim1.cpp
@@ -30,18 +30,20 @@ template<> shared_ptr<H1Mesh> ElmatVAMG<H1AMGFactory<1>, double, double> :: Buil
   auto a = new H1VData(Array<IVec<2,double>>(top_mesh->GetNN<NT_VERTEX>()), DISTRIBUTED);
   auto b = new H1EData(Array<double>(top_mesh->GetNN<NT_EDGE>()), DISTRIBUTED);
 
-  FlatArray<int> vsort = node_sort[NT_VERTEX];
-  Array<int> rvsort(vsort.Size());
-  for (auto k : Range(vsort.Size()))
-    rvsort[vsort[k]] = k;
+  // the weights are stored by DOF-numbers of the space, only some of which (not, e.g., high-order DOFs) belong to vertices
   auto ad = a->Data();
+  ad = IVec<2, double>(0.0, 1.0);
   for (auto key_val : *ht_vertex) {
-    ad[rvsort[get<0>(key_val)]] = IVec<2, double>(get<1>(key_val), 1.0);
+    int const dof = get<0>(key_val);
+    int const vnr = ( (dof >= 0) && (dof < d2v_array.Size()) ) ? d2v_array[dof] : -1;
+    if (vnr != -1)
+      { ad[vnr] = IVec<2, double>(get<1>(key_val), 1.0); }
   }
   auto bd = b->Data();
   auto edges = top_mesh->GetNodes<NT_EDGE>();
+  auto dof_of = [&](auto vnr) { return use_v2d_tab ? v2d_table[vnr][0] : v2d_array[vnr]; };
   for (auto & e : edges) {
-    bd[e.id] = (*ht_edge)[IVec<2,int>(rvsort[e.v[0]], rvsort[e.v[1]]).Sort()];
+    bd[e.id] = (*ht_edge)[IVec<2,int>(dof_of(e.v[0]), dof_of(e.v[1])).Sort()];
   }
 
   auto mesh = make_shared<H1Mesh>(std::move(*top_mesh), a, b);
-- 
2.43.0


From 200b968103c50b7926ec4f729d1bd83c20ac3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 31/53] fix: element-matrix energy of elasticity is refused
 instead of crashing

---
 src/elasticity/elasticity_2d.cpp | 1 +
 src/elasticity/elasticity_3d.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/elasticity/elasticity_2d.cpp b/src/elasticity/elasticity_2d.cpp
index e94ef8f..36e69c1 100644
--- a/src/elasticity/elasticity_2d.cpp
+++ b/src/elasticity/elasticity_2d.cpp
@@ -45,6 +45,7 @@ namespace amg
 template<> shared_ptr<ElasticityMesh<2>>
 ElmatVAMG<ElasticityAMGFactory<2>, double, double> :: BuildAlgMesh_ELMAT (shared_ptr<BlockTM> top_mesh)
 {
+  throw Exception("elmat-energy is not available for elasticity!");
   return nullptr;
 }
 
diff --git a/src/elasticity/elasticity_3d.cpp b/src/elasticity/elasticity_3d.cpp
index b99bf30..35d45db 100644
--- a/src/elasticity/elasticity_3d.cpp
+++ b/src/elasticity/elasticity_3d.cpp
@@ -48,6 +48,7 @@ namespace amg
 template<> shared_ptr<ElasticityMesh<3>>
 ElmatVAMG<ElasticityAMGFactory<3>, double, double> :: BuildAlgMesh_ELMAT (shared_ptr<BlockTM> top_mesh)
 {
+  throw Exception("elmat-energy is not available for elasticity!");
   return nullptr;
 }
 
-- 
2.43.0


From 5140e5a0878248a62e80849ff372d544d5085908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 32/53] fix: MIS agglomeration: compare vertex weights relative
 to the strength of the connection, not to an absolute number

---
 src/base/coarsening/mis_agg_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index 99756fa..f98eedf 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -358,6 +358,7 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
     SetQtMQ(Abb, Q, diagb);
     /** Calc edge matrix connecting agglomerates **/
     calc_emat(H_data, ca, memsa, cb, memsb, common_neib_boost);
+    double const conn = calc_trace(emat); // strength of the connection
     /** This is a bit ugly, but i want to avoid CalcSOC1/2, that compiles too long. Here, calc_soc_mats is only called ONCE!**/
     double mmev = 1;
     if (use_minmax_soc) {
@@ -403,7 +404,9 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
     double vw1 = get_vwt(cb);
     double maxw = max(vw0, vw1);
     double minw = min(vw0, vw1);
-    double fac = (fabs(maxw) < 1e-12) ? 1.0 : (0.1+minw)/(0.1+maxw);
+    /** relative to the connection, must not depend on how the problem is scaled **/
+    double refw = 0.1 * conn;
+    double fac = (maxw <= 1e-12 * refw) ? 1.0 : (refw+minw)/(refw+maxw);
     return fac * mmev;
   }; // CalcSOC
 
-- 
2.43.0


From 16034d47184a0596f9302d1b4bda56bccd0367fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 33/53] fix: do not check kernel vectors when there is no
 coarse level

---
 src/base/factory/base_factory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/factory/base_factory.cpp b/src/base/factory/base_factory.cpp
index 8f741dd..4090e05 100644
--- a/src/base/factory/base_factory.cpp
+++ b/src/base/factory/base_factory.cpp
@@ -260,7 +260,7 @@ SetUpLevels (Array<shared_ptr<BaseAMGFactory::AMGLevel>> & amg_levels, shared_pt
   // if (dof_map->GetNSteps() == 0)
   //   { throw Exception("Failed to construct any coarse levels!"); }
 
-  if (options->check_kvecs)
+  if ( options->check_kvecs && (dof_map->GetNSteps() > 0) )
     { CheckKVecs(amg_levels, dof_map); }
 
   Logger lg2(BaseAMGFactory::Options::LOG_LEVEL::DBG, 20);
-- 
2.43.0


From dbe81d812360006000b190fec632fa2787574fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 34/53] fix: smoothed prolongations keep at least one entry per
 row (sp_max_per_row < 1 read out of bounds)

---
 src/base/factory/vertex_factory_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 2ca3282..7804852 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -227,7 +227,7 @@ EmbeddedSProl (Options const &O,
    */
   const double MIN_PROL_FRAC = O.sp_min_frac.GetOpt(0);
   const double MIN_SUM_FRAC  = 1.0 - sqrt(MIN_PROL_FRAC); // MPF 0.15 -> 0.61
-  const int MAX_PER_ROW = O.sp_max_per_row.GetOpt(0);
+  const int MAX_PER_ROW = max2(1, int(O.sp_max_per_row.GetOpt(0)));
   const int MAX_PER_ROW_CLASSIC = O.sp_max_per_row_classic.GetOpt(0);
   int const improveIts = O.sp_improve_its.GetOpt(0);
 
@@ -1851,7 +1851,7 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
   const int baselevel = fcap->baselevel;
   const double MIN_PROL_FRAC = O.sp_min_frac.GetOpt(baselevel);
   const double MIN_SUM_FRAC  = 1.0 - sqrt(MIN_PROL_FRAC); // MPF 0.15 -> 0.61
-  const int MAX_PER_ROW = O.sp_max_per_row.GetOpt(baselevel);
+  const int MAX_PER_ROW = max2(1, int(O.sp_max_per_row.GetOpt(baselevel)));
   const int MAX_PER_ROW_CLASSIC = O.sp_max_per_row_classic.GetOpt(baselevel);
   const double omega = O.sp_omega.GetOpt(baselevel);
   const bool aux_only = O.prol_type.GetOpt(baselevel) == Options::PROL_TYPE::AUX_SMOOTHED;
@@ -2476,7 +2476,7 @@ AuxSProlMap (shared_ptr<BaseDOFMapStep> pw_step,
 
   Options &O (static_cast<Options&>(*options));
   const double MIN_PROL_FRAC = O.sp_min_frac.GetOpt(baselevel);
-  const int MAX_PER_ROW = O.sp_max_per_row.GetOpt(baselevel);
+  const int MAX_PER_ROW = max2(1, int(O.sp_max_per_row.GetOpt(baselevel)));
   const double omega = O.sp_omega.GetOpt(baselevel);
 
   const size_t NFV = FM.template GetNN<NT_VERTEX>(), NCV = CM.template GetNN<NT_VERTEX>();
-- 
2.43.0


From e212e17a116f7ef7b1a5f3668532b1bb08b278db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 35/53] fix: use_emb_sp: fall back to the ordinary prolongation
 and keep the embedding where the embedded one does not apply

---
 src/base/factory/vertex_factory_impl.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 7804852..1f9016d 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -699,9 +699,11 @@ MapLevel (FlatArray<shared_ptr<BaseDOFMapStep>> dofSteps,
   //   cout << endl << endl;
   // }
 
-  // With use_emb_sp, the first step (EmbeddedSProl) already includes the embedding so
-  // we don't need it here!
-  size_t off = (fLev->level == 0 && O.use_emb_sp) ? 1 : 0;
+  // With use_emb_sp, the first step (EmbeddedSProl) may already include the embedding,
+  // in which case we don't need it here! It then starts from the same space as the embedding.
+  size_t off = (fLev->level == 0 && O.use_emb_sp &&
+                fLev->embed_map != nullptr && dofSteps.Size() > 1 &&
+                dofSteps[1]->GetUDofs().GetBS() != fLev->embed_map->GetMappedUDofs().GetBS()) ? 1 : 0;
 
   return BaseAMGFactory::MapLevel(dofSteps.Range(off, dofSteps.Size()), fLev, cLev);
 } // VertexAMGFactory::MapLevel
@@ -844,7 +846,8 @@ BuildCoarseDOFMap (shared_ptr<BaseCoarseMap>                cmap,
       }
     });
   }
-  else
+
+  if (step == nullptr)
   {
     switch(prol_type)
     {
-- 
2.43.0


From 004299bb49d7ab56828a2dfb13d4d6a0c0b19f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 36/53] fix: smooth_after_emb without an embedding has nothing
 to do

---
 src/base/precond/amg_pc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/precond/amg_pc.cpp b/src/base/precond/amg_pc.cpp
index 203ec63..383e9fc 100644
--- a/src/base/precond/amg_pc.cpp
+++ b/src/base/precond/amg_pc.cpp
@@ -1012,6 +1012,8 @@ void BaseAMGPC :: InitFinestLevel (BaseAMGFactory::AMGLevel & finest_level)
     finest_level.cap->mat   = fineMat;
     finest_level.embed_map  = nullptr;
     finest_level.cap->uDofs = MatToUniversalDofs(*finest_mat, DOF_SPACE::ROWS);
+
+    options->smooth_after_emb = false; // nothing to smooth after
   }
   else if ( options->smooth_after_emb ) // smooth twice on level 0, once before, once after embed
   {
-- 
2.43.0


From c9a2c54e9f389d4681adfede07dfda32ee7b6fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 37/53] fix: nodalp2 subset in 2D has no selected DOFs to print

---
 src/base/precond/amg_pc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/precond/amg_pc.cpp b/src/base/precond/amg_pc.cpp
index 383e9fc..3c661d9 100644
--- a/src/base/precond/amg_pc.cpp
+++ b/src/base/precond/amg_pc.cpp
@@ -1551,7 +1551,7 @@ void VertexAMGPCOptions :: SetFromFlags (shared_ptr<FESpace> fes, shared_ptr<Bas
               //cout << *ss_select << endl;
             }
           }
-          if (log_level_pc > Options::LOG_LEVEL_PC::BASIC)
+          if ( (log_level_pc > Options::LOG_LEVEL_PC::BASIC) && (ss_select != nullptr) )
             { cout << IM(3) << "nodalp2 set: " << ss_select->NumSet() << " of " << ss_select->Size() << endl; }
         }
 
-- 
2.43.0


From 29bded2447336113d356a31df7d6376be9118a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 38/53] fix: refuse DOF ranges for coarsening that are invalid
 or split the DOFs of a vertex

---
 src/base/precond/amg_pc_vertex_impl.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index feb561e..0d736de 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -200,7 +200,11 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
 
     size_t in_ss = 0;
     for (auto range : O.ss_ranges)
-      { in_ss += range[1] - range[0]; }
+    {
+      if ( (range[0] > range[1]) || (range[1] > ndof) )
+        { throw Exception("Invalid DOF-range for coarsening!"); }
+      in_ss += range[1] - range[0];
+    }
 
     switch(O.dof_ordering)
     {
@@ -214,6 +218,9 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
         const size_t dpv = std::accumulate(O.block_s.begin(), O.block_s.end(), 0);
         n_verts = in_ss / dpv;
 
+        if (n_verts * dpv != in_ss)
+          { throw Exception("Number of DOFs for coarsening is not a multiple of the DOFs per vertex!"); }
+
         d2v_array.SetSize(ndof); d2v_array = -1;
 
         auto n_block_types = O.block_s.Size();
@@ -254,6 +261,8 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
               int blocks_in_range = (range[1] - range[0]) / block_s; // how many blocks can I fit in here ?
               int need_blocks = n_verts - cnt_block; // how many blocks of current size I still need.
               auto map_blocks = min2(blocks_in_range, need_blocks);
+              if (map_blocks == 0)
+                { throw Exception("DOF-range for coarsening splits the DOFs of a vertex!"); }
               for (auto l : Range(map_blocks)) {
                 for (auto j : Range(block_s)) {
                   d2v_array[range[0]] = cnt_block;
@@ -423,6 +432,9 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
         const size_t dpv = std::accumulate(O.block_s.begin(), O.block_s.end(), 0);
         n_verts = in_ss / dpv;
 
+        if (n_verts * dpv != in_ss)
+          { throw Exception("Number of DOFs for coarsening is not a multiple of the DOFs per vertex!"); }
+
         d2v_array.SetSize(ndof); d2v_array = -1;
 
         auto n_block_types = O.block_s.Size();
@@ -459,7 +471,7 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
           block_type++;
           cnt_block = 0;
           col_os += block_s;
-          if (block_type + 1 < blockss)
+          if (block_type < blockss)
             { block_s = O.block_s[block_type]; }
               }
             }
-- 
2.43.0


From c2b52da5b2c13e10030c553f55501e1cd52cb0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 39/53] fix: elasticity: refuse more than one vertex per mesh
 node, positions were uninitialized

---
 src/base/precond/amg_pc_vertex_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 0d736de..6401c2b 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -520,6 +520,10 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
       }
     }
 
+    // the remaining vertices would have no position
+    if (numset < n_verts)
+      { throw Exception("More than one AMG-vertex per mesh-node, cannot assign vertex positions!"); }
+
   }
 
   // cout << "    DOF <-> AMG-VERTEX mappings:" << endl;
-- 
2.43.0


From 8f9839b410e4f755351292bc522789ae922a4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 40/53] fix: refuse elmat energy in algebraic mode

---
 src/base/precond/amg_pc_vertex_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 6401c2b..35dd49f 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -1397,6 +1397,9 @@ void ElmatVAMG<FACTORY, HTVD, HTED> :: InitLevel (shared_ptr<BitArray> freedofs)
   elmat_evs = { std::numeric_limits<double>::max() , 0.0, 0.0 };
 
   if (O.energy == Options::ENERGY::ELMAT_ENERGY) {
+    if (this->strict_alg_mode)
+      { throw Exception("Cannot do elmat energy without element matrices!"); }
+
     //  - overestimates for compound spaces ?!
     //  - probably the entire thing does not work for multidim ?!
     //  - WHY do this at all, can't we just do sth like BTM_Fes
-- 
2.43.0


From ed0dcbe5cc48913eaed429a07260a1cf77c62cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 41/53] fix: SmoothK with zero steps must not loop forever

---
 src/base/smoothers/base_smoother.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/smoothers/base_smoother.hpp b/src/base/smoothers/base_smoother.hpp
index 63539dd..10875de 100644
--- a/src/base/smoothers/base_smoother.hpp
+++ b/src/base/smoothers/base_smoother.hpp
@@ -89,7 +89,7 @@ public:
           bool update_res = true, bool x_zero = false) const
   {
     Smooth(x, b, res, res_updated, update_res, x_zero);
-    for (auto j : Range(k-1))
+    for (int j = 1; j < k; j++)
       { Smooth(x, b, res, update_res, update_res, false); }
   }
 
@@ -98,7 +98,7 @@ public:
           bool update_res = true, bool x_zero = false) const
   {
     SmoothBack(x, b, res, res_updated, update_res, x_zero);
-    for (auto j : Range(k-1))
+    for (int j = 1; j < k; j++)
       { SmoothBack(x, b, res, update_res, update_res, false); }
   }
 
@@ -107,7 +107,7 @@ public:
           bool update_res = true, bool x_zero = false) const
   {
     SmoothSymm(x, b, res, res_updated, update_res, x_zero);
-    for (auto j : Range(k-1))
+    for (int j = 1; j < k; j++)
       { SmoothSymm(x, b, res, update_res, update_res, false); }
   }
 
-- 
2.43.0


From 86479770853c9ca539eca25567a217b365964b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 42/53] fix: elasticity: refuse elmat energy, not implemented

---
 src/elasticity/elasticity_pc_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index 541525e..ef68535 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -149,6 +149,8 @@ void VertexAMGPC<FCC> :: ModifyOptions (BaseAMGPC::Options & aO, const Flags & f
   if ( (O.sm_type.default_opt == Options::SM_TYPE::BGS) ||
         (O.sm_type.spec_opt.Pos(Options::SM_TYPE::BGS) != -1) )
     { O.keep_grid_maps = true; }
+  if ( O.energy == Options::ENERGY::ELMAT_ENERGY )
+    { throw Exception("elmat-energy is not available for elasticity!"); }
 } // VertexAMGPC::ModifyOptions
 
 
-- 
2.43.0


From b6fdba9de0bdde421b5852ef4a929b43c1399e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 43/53] fix: H1: refuse embedding with a wrong number of DOFs
 per vertex

---
 src/h1/h1_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/h1/h1_impl.hpp b/src/h1/h1_impl.hpp
index 9ea569b..0a87073 100644
--- a/src/h1/h1_impl.hpp
+++ b/src/h1/h1_impl.hpp
@@ -498,6 +498,8 @@ VertexAMGPC<FCC> :: BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
       { return nullptr; }
     else {
       if constexpr (BSA == 1) {
+          if (std::accumulate(O.block_s.begin(), O.block_s.end(), 0) != BS)
+            { throw Exception("Invalid number of DOFs per vertex for H1!"); }
           typedef Mat<1, BS, double> TM;
           auto NV = mesh->GetNN<NT_VERTEX>();
           Array<int> perow(height); perow = 1;
-- 
2.43.0


From eae4da03a827a76e6c7f799f8d333b55bc501458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 44/53] fix: dof_ordering = p2Emb: refuse spaces it is not
 implemented for

---
 src/base/precond/amg_pc_vertex_impl.hpp | 14 ++++++++++++--
 src/elasticity/elasticity_pc_impl.hpp   |  3 +++
 src/h1/h1_impl.hpp                      |  2 ++
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 35dd49f..869ebae 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -284,7 +284,8 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
       } // REGULAR_ORDERING
       case(Options::DOF_ORDERING::P2_ORDERING):
       {
-        assert(strict_alg_mode == false); // "P2_ORDERING with strict alg-mode!"
+        if (strict_alg_mode)
+          { throw Exception("dof_ordering = p2Emb needs a finite element space!"); }
 
         this->use_v2d_tab = false;
         this->use_p2_emb = true;
@@ -297,7 +298,6 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
         // cout << bfa->GetFESpace() << endl;
 
         // max. #v == fes-#DOFs
-        // TODO: throw an error if we get here in strict alg mode
         auto const &fes = *bfa->GetFESpace();
 
         d2v_array.SetSize(ndof); d2v_array = -1;
@@ -357,6 +357,16 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
         }
         // cout << "   # MID_SIDE_V = " << cntEdgeVs << endl;
         edgePointParents.SetSize(cntEdgeVs);
+
+        // rows of the embedding are numbered like the DOFs of the subset
+        size_t n_mapped = 0;
+        for (auto dof : v2d_array)
+          { n_mapped = max2(n_mapped, size_t(dof) + 1); }
+        for (auto const & epp : edgePointParents)
+          { n_mapped = max2(n_mapped, size_t(epp[0]) + 1); }
+
+        if ( (O.ss_ranges.Size() != 1) || (O.ss_ranges[0][0] != 0) || (O.ss_ranges[0][1] < n_mapped) )
+          { throw Exception("dof_ordering = p2Emb needs all vertex- and edge-DOFs to be in the DOF-range for coarsening!"); }
         break;
       } // P2_ORDERING
       case(Options::DOF_ORDERING::P2_ORDERING_ALG):
diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index ef68535..1c69a67 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -151,6 +151,9 @@ void VertexAMGPC<FCC> :: ModifyOptions (BaseAMGPC::Options & aO, const Flags & f
     { O.keep_grid_maps = true; }
   if ( O.energy == Options::ENERGY::ELMAT_ENERGY )
     { throw Exception("elmat-energy is not available for elasticity!"); }
+  if ( (O.dof_ordering == Options::DOF_ORDERING::P2_ORDERING) &&
+       ( O.with_rots || (O.block_s.Size() != 1) || (O.block_s[0] != 1) ) )
+    { throw Exception("dof_ordering = p2Emb is only available for displacements in one multidim space!"); }
 } // VertexAMGPC::ModifyOptions
 
 
diff --git a/src/h1/h1_impl.hpp b/src/h1/h1_impl.hpp
index 0a87073..4fabf99 100644
--- a/src/h1/h1_impl.hpp
+++ b/src/h1/h1_impl.hpp
@@ -377,6 +377,8 @@ void VertexAMGPC<FCC> :: ModifyOptions (BaseAMGPC::Options & aO, const Flags & f
   if ( (O.sm_type.default_opt == Options::SM_TYPE::BGS) ||
   (O.sm_type.spec_opt.Pos(Options::SM_TYPE::BGS) != -1) )
     { O.keep_grid_maps = true; }
+  if ( O.dof_ordering == Options::DOF_ORDERING::P2_ORDERING )
+    { throw Exception("dof_ordering = p2Emb is only available for elasticity!"); }
 } // VertexAMGPC::ModifyOptions
 
 
-- 
2.43.0


From 072ede39d467e76c004cdb1245b02cc0665f4b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:40 +0000
Subject: [PATCH 45/53] fix: SPW agglomeration: processes without shared
 vertices need cv_to_eqc too

---
 src/base/coarsening/spw_agg_impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index 5ead0f1..ad59d6e 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -72,13 +72,14 @@ public:
       // we are the first map - construct cv_to_eqc. for other maps, concatenate it!
       auto vMap = GetMap<NT_VERTEX>();
 
-      if ( eqc_h->GetNEQCS() > 1 )
+      // needed whenever there are multiple (mesh-having) ranks, even if this rank only has the local EQC
+      if ( eqc_h->IsTrulyParallel() )
       {
         cv_to_eqc.SetSize(GetMappedNN<NT_VERTEX>());
         cv_to_eqc = 0;
 
         // works as long as we only go up/down in hierarchy
-        pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, eqc_h->GetNEQCS()), [&](auto eqc, auto fVNr)
+        pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, max(size_t(1), size_t(eqc_h->GetNEQCS()))), [&](auto eqc, auto fVNr)
         {
           auto cVNr = vMap[fVNr];
 
-- 
2.43.0


From e3d985230f7d88630122b54b795c434c0fd6357b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:40 +0000
Subject: [PATCH 46/53] fix: NoCoH1 with dim > 1: flux evaluator wrapped the
 already blocked evaluator

---
 src/base/ngs_extension/ncfespace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/ngs_extension/ncfespace.cpp b/src/base/ngs_extension/ncfespace.cpp
index 6800c3c..d018624 100644
--- a/src/base/ngs_extension/ncfespace.cpp
+++ b/src/base/ngs_extension/ncfespace.cpp
@@ -35,7 +35,7 @@ NoCoH1FESpace :: NoCoH1FESpace (shared_ptr<MeshAccess> ama, const Flags & flags,
       if (evaluator[vb])
         { evaluator[vb] = make_shared<BlockDifferentialOperator> (evaluator[vb], dimension); }
       if (flux_evaluator[vb])
-        { flux_evaluator[vb] = make_shared<BlockDifferentialOperator> (evaluator[vb], dimension); }
+        { flux_evaluator[vb] = make_shared<BlockDifferentialOperator> (flux_evaluator[vb], dimension); }
     }
   }
 } // NoCoH1FESpace(..)
-- 
2.43.0


From 4c1f700d54da2e4b1c92f119747357204d967326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:41 +0000
Subject: [PATCH 47/53] fix: LOToHOFacetEmbedding: skip irregular DOFs of the
 original space

---
 src/base/linalg/utils_sparseLA.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index cc7316b..cfcd024 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -1117,7 +1117,9 @@ makeLOToHOFacetEmbedding(shared_ptr<FESpace> orig,
       {
         if ( ( destFree == nullptr ) || ( destFree->Test(loDOF) ) )
         {
-          perow[loDOF] = oFacetDOFs.Size();
+          // no DOFs on this facet where "orig" is not defined
+          for (auto oDOF : oFacetDOFs)
+            { if (IsRegularDof(oDOF)) { perow[loDOF]++; } }
         }
       }
     }
@@ -1140,10 +1142,14 @@ makeLOToHOFacetEmbedding(shared_ptr<FESpace> orig,
           auto ris = emb->GetRowIndices(loDOF);
           auto rvs = emb->GetRowValues(loDOF);
 
-          for (auto j : Range(ris))
+          int cnt = 0;
+          for (auto oDOF : oFacetDOFs)
           {
-            ris[j] = oFacetDOFs[j];
-            rvs[j] = 1;
+            if (IsRegularDof(oDOF))
+            {
+              ris[cnt] = oDOF;
+              rvs[cnt++] = 1;
+            }
           }
         }
       }
-- 
2.43.0


From 906c7f3533836a87aa8e8c8ff487e3aade3afc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:41 +0000
Subject: [PATCH 48/53] fix: block Gauss-Seidel: free DOFs in no block were
 never smoothed

---
 src/base/precond/amg_pc_vertex_impl.hpp | 35 ++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 869ebae..f14facb 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -1300,7 +1300,40 @@ Table<int> VertexAMGPC<FACTORY> :: GetGSBlocks (const BaseAMGFactory::AMGLevel &
 
   auto blocks = cblocks.MoveTable();
 
-  return std::move(blocks);
+  // free DOFs that are not in the block of any coarse vertex (high order DOFs before the embedding,
+  // DOFs of vertices without coarse image) still have to be smoothed, everyone of them gets a block of its own
+  auto freeDofs = GetFreeDofs(amg_level);
+
+  size_t const nDofs = (amg_level.level == 0 && (!O.smooth_after_emb)) ? GetLocalMat(finest_mat)->Height()
+                                                                       : amg_level.cap->mat->Height();
+
+  BitArray single(nDofs);
+  single.Set();
+
+  if (freeDofs != nullptr)
+    { single.And(*freeDofs); }
+
+  for (auto block : blocks)
+    for (auto dof : block)
+      { single.Clear(dof); }
+
+  if (single.NumSet() == 0)
+    { return blocks; }
+
+  TableCreator<int> allBlocks(n_blocks + single.NumSet());
+
+  for (; !allBlocks.Done(); allBlocks++)
+  {
+    for (auto k : Range(n_blocks))
+      { allBlocks.Add(k, blocks[k]); }
+
+    int c = n_blocks;
+    for (auto dof : Range(nDofs))
+      if (single.Test(dof))
+        { allBlocks.Add(c++, dof); }
+  }
+
+  return allBlocks.MoveTable();
 } // VertexAMGPC<FACTORY>::GetGSBlocks
 
 
-- 
2.43.0


From b9703ef0a5eaaa7a972424fad2551e4a01ad93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 49/53] fix: 2d elasticity: regularize coarse vertices whose
 displacement functions became dependent

---
 src/elasticity/elasticity_pc_impl.hpp | 51 ++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/elasticity/elasticity_pc_impl.hpp b/src/elasticity/elasticity_pc_impl.hpp
index 1c69a67..dac7af3 100644
--- a/src/elasticity/elasticity_pc_impl.hpp
+++ b/src/elasticity/elasticity_pc_impl.hpp
@@ -725,20 +725,53 @@ BuildED (size_t height, shared_ptr<TopologicMesh> mesh)
 template<> void VertexAMGPC<ElasticityAMGFactory<2>> :: RegularizeMatrix (shared_ptr<BaseSparseMatrix> mat, shared_ptr<ParallelDofs> & pardofs) const
 {
   auto& A = *my_dynamic_pointer_cast<ElasticityAMGFactory<2>::TSPM_TM>(mat, "RegularizeMatrix - matrix");
+  typedef ElasticityAMGFactory<2>::TM TM;
   bool const shared = (pardofs != nullptr) && (pardofs->GetDistantProcs().Size() != 0);
-  // rotation entries of the (cumulated) diagonal
-  Array<double> rots(A.Height());
+  // (cumulated) diagonal
+  Array<TM> diags(A.Height());
   for(auto k : Range(A.Height()))
-    { rots[k] = A(k,k)(2,2); }
+    { diags[k] = A(k,k); }
   if (shared)
-    { AllReduceDofData(rots, NG_MPI_SUM, pardofs); }
+    { MyAllReduceDofData(*pardofs, diags, [](auto & a, const auto & b) LAMBDA_INLINE { a+= b; }); }
   // "zero" is relative, how large the entries are depends on the material and on the size of the mesh
-  double maxRot = 0.0;
-  for(auto rot : rots)
-    { maxRot = max(maxRot, fabs(rot)); }
+  double maxDisp = 0.0, maxRot = 0.0;
+  for(auto const & dg : diags)
+  {
+    maxDisp = max(maxDisp, max(fabs(dg(0,0)), fabs(dg(1,1))));
+    maxRot  = max(maxRot, fabs(dg(2,2)));
+  }
+  // measure rotations in units of displacements
+  bool const haveBoth = (maxDisp > 0.0) && (maxRot > 0.0);
+  double const sc[3] = { 1.0, 1.0, haveBoth ? sqrt(maxDisp / maxRot) : 1.0 };
+  double const maxEtr = max(maxDisp, sc[2] * sc[2] * maxRot);
+  Matrix<double> M(3, 3), evecs(3, 3);
+  Vector<double> evals(3);
   for(auto k : Range(A.Height()))
-    if ( (fabs(rots[k]) <= 1e-12 * maxRot) && ( (!shared) || pardofs->IsMasterDof(k) ) )
-      { A(k,k)(2,2) = (maxRot > 0.0) ? maxRot : 1.0; }
+  {
+    if ( shared && (!pardofs->IsMasterDof(k)) )
+      { continue; }
+    for (auto i : Range(3))
+      for (auto j : Range(3))
+        { M(i,j) = sc[i] * diags[k](i,j) * sc[j]; }
+    TimedLapackEigenValuesSymmetric(M, evals, evecs);
+    bool const allZero = evals(2) <= 1e-12 * maxEtr;
+    double const eps   = allZero ? maxEtr : 1e-12 * evals(2);
+    double add = (maxEtr > 0.0) ? maxEtr : 1.0;
+    for (auto l : Range(3))
+      if ( evals(l) > eps )
+        { add = evals(l); break; }
+    for (auto l : Range(3))
+    {
+      if ( evals(l) > eps )
+        { continue; }
+      double kk = 0.0;
+      for (auto i : Range(3))
+        { kk += sqr(sc[i] * evecs(l,i)); }
+      for (auto i : Range(3))
+        for (auto j : Range(3))
+          { A(k,k)(i,j) += add / (kk * kk) * sc[i] * evecs(l,i) * sc[j] * evecs(l,j); }
+    }
+  }
 } // ElasticityAMGFactory<DIM>::RegularizeMatrix
 #endif // FILE_AMG_ELAST_2D_CPP
 
-- 
2.43.0


From 0c9c07da9dce507de25d92a5c2b3781a41a3d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:21 +0000
Subject: [PATCH 50/53] fix: smoothing blocks of the FESpace: leave out DOFs
 that are not free

---
 src/base/precond/amg_pc_vertex_impl.hpp | 27 +++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index f14facb..0e8cb80 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -1352,9 +1352,32 @@ GetFESpaceGSBlocks()
 
   auto fesBlocks = bfa->GetFESpace()->CreateSmoothingBlocks(flags);
 
-  Table<int> blocks(*fesBlocks);
+  // the blocks of the FESpace are those of the entire space, we only want to smooth our own free DOFs
+  auto const isFree = [&](auto dof) { return (finest_freedofs == nullptr) || finest_freedofs->Test(dof); };
 
-  return blocks;
+  TableCreator<int> createBlocks;
+
+  for (; !createBlocks.Done(); createBlocks++)
+  {
+    int cnt = 0;
+
+    for (auto block : *fesBlocks)
+    {
+      bool hasFree = false;
+
+      for (auto dof : block)
+        if (isFree(dof))
+        {
+          createBlocks.Add(cnt, dof);
+          hasFree = true;
+        }
+
+      if (hasFree)
+        { cnt++; }
+    }
+  }
+
+  return createBlocks.MoveTable();
 }
 
 template<class FACTORY>
-- 
2.43.0


From 4f77f6f76fff6b882f39a6329f570efc3109f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:21 +0000
Subject: [PATCH 51/53] fix: Stokes AMG: keep the grid maps for block smoothers
 in the potential space

---
 src/stokes/hdiv/hdiv_stokes_pc_impl.hpp | 7 +++++++
 src/stokes/ncfes/nc_stokes_pc_impl.hpp  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/stokes/hdiv/hdiv_stokes_pc_impl.hpp b/src/stokes/hdiv/hdiv_stokes_pc_impl.hpp
index 867d21d..5bc2639 100644
--- a/src/stokes/hdiv/hdiv_stokes_pc_impl.hpp
+++ b/src/stokes/hdiv/hdiv_stokes_pc_impl.hpp
@@ -114,6 +114,13 @@ template<class TFACTORY>
 void HDivStokesAMGPC<TFACTORY> :: ModifyOptions (BaseAMGPC::Options & aO, const Flags & flags, string prefix)
 {
   BaseStokesAMGPrecond::ModifyOptions(aO, flags, prefix);
+
+  auto & O = static_cast<Options&>(aO);
+
+  // the blocks for the potential space are computed from the grid maps
+  if ( (O.sm_type_pot.default_opt == Options::SM_TYPE::BGS) ||
+       (O.sm_type_pot.spec_opt.Pos(Options::SM_TYPE::BGS) != -1) )
+    { O.keep_grid_maps = true; }
   // aO.force_ass_flmat = true;
 } // HDivStokesAMGPC::ModifyOptions
 
diff --git a/src/stokes/ncfes/nc_stokes_pc_impl.hpp b/src/stokes/ncfes/nc_stokes_pc_impl.hpp
index 1e70858..bc0c410 100644
--- a/src/stokes/ncfes/nc_stokes_pc_impl.hpp
+++ b/src/stokes/ncfes/nc_stokes_pc_impl.hpp
@@ -65,6 +65,13 @@ template<class TFACTORY>
 void NCStokesAMGPC<TFACTORY> :: ModifyOptions (BaseAMGPC::Options & aO, const Flags & flags, string prefix)
 {
   BaseStokesAMGPrecond::ModifyOptions(aO, flags, prefix);
+
+  auto & O = static_cast<Options&>(aO);
+
+  // the blocks for the potential space are computed from the grid maps
+  if ( (O.sm_type_pot.default_opt == Options::SM_TYPE::BGS) ||
+       (O.sm_type_pot.spec_opt.Pos(Options::SM_TYPE::BGS) != -1) )
+    { O.keep_grid_maps = true; }
 } // NCStokesAMGPC::ModifyOptions
 
 
-- 
2.43.0


From 198b0210fa318d8a60cab1c6f1b61a7841760522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:21 +0000
Subject: [PATCH 52/53] fix: refuse DOF-ranges for coarsening that overlap or
 are not sorted

---
 src/base/precond/amg_pc_vertex_impl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base/precond/amg_pc_vertex_impl.hpp b/src/base/precond/amg_pc_vertex_impl.hpp
index 0e8cb80..fbfc737 100644
--- a/src/base/precond/amg_pc_vertex_impl.hpp
+++ b/src/base/precond/amg_pc_vertex_impl.hpp
@@ -198,11 +198,16 @@ void VertexAMGPC<FACTORY> :: SetUpMaps ()
   switch(O.subset) {
   case(Options::DOF_SUBSET::RANGE_SUBSET): {
 
-    size_t in_ss = 0;
+    size_t in_ss = 0, last = 0;
     for (auto range : O.ss_ranges)
     {
       if ( (range[0] > range[1]) || (range[1] > ndof) )
         { throw Exception("Invalid DOF-range for coarsening!"); }
+      if (range[0] == range[1])
+        { continue; }
+      if (range[0] < last)
+        { throw Exception("DOF-ranges for coarsening must be non-overlapping and increasing!"); }
+      last = range[1];
       in_ss += range[1] - range[0];
     }
 
-- 
2.43.0


From cb1ff8cae36f73a484ec77d3dbaef1159e23603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:21 +0000
Subject: [PATCH 53/53] fix: FacetAuxiliaryInformation: mark the relevant
 facets, not the first ones

---
 src/base/ngs_extension/facet_aux_info.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/ngs_extension/facet_aux_info.cpp b/src/base/ngs_extension/facet_aux_info.cpp
index a847fcd..df0a97d 100644
--- a/src/base/ngs_extension/facet_aux_info.cpp
+++ b/src/base/ngs_extension/facet_aux_info.cpp
@@ -134,7 +134,7 @@ void FacetAuxiliaryInformation :: setup()
 
   // update BitArray w. reduced data
   for (auto k : Range(n_facet_rel))
-    { rel_facets->SetBit(k); }
+    { rel_facets->SetBit(r2a_facet[k]); }
 
 
   /** free facets MOVED OUT! **/
-- 
2.43.0

