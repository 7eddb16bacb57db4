From 4e87287fea94e75ebd550a716833ecc5222eb955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 01/33] fix: zero initial guess of the scalar ILU factorisation
 is not overwritten by the matrix

The INIT_F_ZERO case fell through into INIT_F_ORIGINAL.
---
 src/async_ilu_factor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index e7b218f..ca7a3a7 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -49,6 +49,7 @@ PrecInfo scalar_ilu0_factorize(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 		fact_init_original(mat, scale, iluvals);
 		break;
@@ -250,6 +251,7 @@ void scalar_ilu0_factorize_noscale(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
-- 
2.43.0


From 2d3cdc823d975e5dc2a819dafb1cb19a572a422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 02/33] fix: index the scaling vector by column in the SGS
 initial guess of the scalar ILU factorisation

It was indexed by the position of the diagonal entry, which reads past the end of the vector.
---
 src/async_ilu_factor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index ca7a3a7..d9f94ed 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -119,8 +119,8 @@ static void fact_init_sgs(const CRawBSRMatrix<scalar,index> *const mat, const sc
 				iluvals[j] = scale[i]*mat->vals[j]*scale[mat->bcolind[j]];
 			for(index j = mat->browptr[i]; j < mat->diagind[i]; j++)
 				iluvals[j] *= 1.0/(mat->vals[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]);
+				                   * scale[mat->bcolind[j]]
+				                   * scale[mat->bcolind[j]]);
 		}
 	else
 #pragma omp parallel for default (shared)
-- 
2.43.0


From e67f3965bbb7cabd3ef844c5324c2a379fc88afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 03/33] fix: pass the threading flags of the reordered ILU
 preconditioner to the right base class parameters

---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 432de49..bcf6f55 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -403,7 +403,7 @@ ReorderedAsyncILU0_SRPreconditioner<scalar,index>
                                       const FactInit finit, const ApplyInit ainit,
                                       const bool threadedfactor, const bool threadedapply)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix),nbuildsweeps,napplysweeps,true, tcs,
-	                                           finit, ainit, threadedfactor,threadedapply),
+	                                           finit, ainit, false, threadedfactor,threadedapply),
 	  reord{reorderscale}
 { }
 
-- 
2.43.0


From dee7431cf6d1fd4b7e0934e6797ecfc04cf343c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 04/33] fix: honour compute_remainder and threadedfactor in the
 scalar level-scheduled ILU preconditioner

---
 src/solverops_levels_ilu0.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index 1d43d6a..b4e5e3e 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -127,7 +127,8 @@ Async_Level_ILU0<scalar,index>
                    const FactInit fact_inittype, const bool threadedfactor,
                    const bool compute_remainder)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), nbuildsweeps,1,use_scaling,thread_chunk_size,
-	                                           fact_inittype, INIT_A_NONE, threadedfactor, true)
+	                                           fact_inittype, INIT_A_NONE, compute_remainder,
+	                                           threadedfactor, true)
 { }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 88eb89d5c5a9c246f4b4fd975b0759540270aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 05/33] fix: run the forward sweeps of the asynchronous SGS
 preconditioners in a parallel region

The forward sweep's work-sharing loop was orphaned outside any parallel region,
so one thread did the whole forward half of the application.
---
 src/solverops_sgs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solverops_sgs.cpp b/src/solverops_sgs.cpp
index e54e2ef..82a2158 100644
--- a/src/solverops_sgs.cpp
+++ b/src/solverops_sgs.cpp
@@ -59,6 +59,7 @@ void AsyncBlockSGS_SRPreconditioner<scalar,index,bs,stor>::apply(const scalar *c
 		for(index i = 0; i < mat.nbrows*bs; i++)
 			ytemp[i] = 0;
 
+#pragma omp parallel default(shared)
 	for(int isweep = 0; isweep < napplysweeps; isweep++)
 	{
 		// forward sweep ytemp := D^(-1) (r - L ytemp)
@@ -153,6 +154,7 @@ void AsyncSGS_SRPreconditioner<scalar,index>::apply(const scalar *const rr,
 		for(index i = 0; i < mat.nbrows; i++)
 			ytemp[i] = 0;
 
+#pragma omp parallel default(shared)
 	for(int isweep = 0; isweep < napplysweeps; isweep++)
 	{
 		// forward sweep ytemp := D^(-1) (r - L ytemp)
-- 
2.43.0


From 980ebf88768a6af009cde2b80f2c83ce8b0603e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 06/33] fix: finish each sweep of the CSC backward Gauss-Seidel
 before the next one resets its scratch vector

---
 src/solverops_sgs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_sgs.cpp b/src/solverops_sgs.cpp
index 82a2158..077d155 100644
--- a/src/solverops_sgs.cpp
+++ b/src/solverops_sgs.cpp
@@ -249,7 +249,7 @@ void CSC_BGS_Preconditioner<scalar,index>::apply(const scalar *const rr,
 				temp[j] = rr[j]*dblocks[j];
 			}
 
-#pragma omp for schedule(dynamic, thread_chunk_size) nowait
+#pragma omp for schedule(dynamic, thread_chunk_size)
 			for(index j = cmat.nbcols-1; j >= 0; j--)
 			{
 				zz[j] = temp[j];
-- 
2.43.0


From cb4b58d46fe88e396818256d527978d6b444c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 07/33] fix: start the chaotic relaxation preconditioner from
 zero instead of the old contents of the output

---
 src/relaxation_chaotic.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/relaxation_chaotic.cpp b/src/relaxation_chaotic.cpp
index 68de53e..97f3f31 100644
--- a/src/relaxation_chaotic.cpp
+++ b/src/relaxation_chaotic.cpp
@@ -29,6 +29,13 @@ void ChaoticBlockRelaxation<scalar,index,bs,stor>::apply(const scalar *const bb,
 	const Seg *x = reinterpret_cast<const Seg*>(xx);
 	Seg *xmut = reinterpret_cast<Seg*>(xx);
 
+	// a preconditioner does not depend on what the output vector held before
+#pragma omp parallel for simd default(shared)
+	for(index i = 0; i < mat.nbrows*bs; i++)
+	{
+		xx[i] = 0;
+	}
+
 #pragma omp parallel default(shared)
 	{
 		for(int step = 0; step < napplysweeps; step++)
@@ -92,6 +99,13 @@ template<typename scalar, typename index>
 void ChaoticRelaxation<scalar,index>::apply(const scalar *const bb,
 		scalar *const __restrict xx) const
 {
+	// a preconditioner does not depend on what the output vector held before
+#pragma omp parallel for simd default(shared)
+	for(index i = 0; i < mat.nbrows; i++)
+	{
+		xx[i] = 0;
+	}
+
 #pragma omp parallel default(shared)
 	for(int step = 0; step < napplysweeps; step++)
 	{
-- 
2.43.0


From 78287c40b6380cda536420d0662e22b15d804f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 08/33] fix: recompute diagonal positions and row ends when a
 matrix is reordered

---
 src/reorderingscaling.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reorderingscaling.cpp b/src/reorderingscaling.cpp
index 6bd8d90..086db79 100644
--- a/src/reorderingscaling.cpp
+++ b/src/reorderingscaling.cpp
@@ -195,6 +195,19 @@ void Reordering<scalar,index,bs>::applyOrdering(RawBSRMatrix<scalar,index>& mat,
 			}
 		}
 	}
+
+	// the positions of the diagonal entries (and the row ends) have changed
+	for(index i = 0; i < mat.nbrows; i++)
+	{
+		if(mat.browendptr)
+			mat.browendptr[i] = mat.browptr[i+1];
+		if(mat.diagind) {
+			mat.diagind[i] = -1;
+			for(index jj = mat.browptr[i]; jj < mat.browptr[i+1]; jj++)
+				if(mat.bcolind[jj] == i)
+					mat.diagind[i] = jj;
+		}
+	}
 }
 
 /** This is most likely not the best way to do it. The vector is first copied into a local
-- 
2.43.0


From 5c37b62e10d77f6961b9aca97f1daec9cce9fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 09/33] fix: map the solution of the reordered ILU
 preconditioner back with the inverse column ordering

---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index bcf6f55..5429f89 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -463,7 +463,7 @@ void ReorderedAsyncILU0_SRPreconditioner<scalar,index>::apply(const scalar *cons
 	}
 
 	// reorder solution
-	reord->applyOrdering(za, FORWARD, COLUMN);
+	reord->applyOrdering(za, INVERSE, COLUMN);
 }
 
 template <typename scalar, typename index>
-- 
2.43.0


From a613863513b83d590fe02868127cf883a70cadd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 10/33] fix: set the dimensions of a block matrix constructed
 from a sparsity pattern

---
 src/blockmatrices.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 61ae16e..6e8761e 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -176,6 +176,9 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	constexpr int bs2 = bs*bs;
+	mat.nbrows = n_brows;
+	mat.nbstored = brptrs[n_brows];
+	mat.nnzb = mat.nbstored;
 	mat.browptr.resize(mat.nbrows+1);
 	mat.bcolind.resize(brptrs[mat.nbrows]);
 	mat.diagind.resize(mat.nbrows);
-- 
2.43.0


From 0e45528d774b949c74d0905e8c602da8eda7d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 11/33] fix: a block matrix taking over raw storage has one
 more row pointer than block-rows

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 6e8761e..540a4fe 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -216,7 +216,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	// Make sure to pass aligned memory!
-	mat.browptr.take_control(rmat.browptr, rmat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
 	mat.bcolind.take_control(rmat.bcolind, rmat.nbstored);
 	mat.vals.take_control(rmat.vals, rmat.nbstored*bs*bs);
 	mat.nbrows = rmat.nbrows;
-- 
2.43.0


From b1f85f2527d79f60924547c2da78bb42d619f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 12/33] fix: read the number of non-zeros of a wrapped CSR
 matrix from the last row pointer

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 540a4fe..672ad2e 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -497,7 +497,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 	: AbstractMatrix<scalar,index>(CSR)
 {
 	mat.nbrows = nrows;
-	mat.nnzb = brptrs[nrows+1];
+	mat.nnzb = brptrs[nrows];
 	mat.nbstored = mat.nnzb;
 	mat.browptr.wrap(brptrs, nrows+1);
 	mat.bcolind.wrap(bcinds, mat.nnzb);
-- 
2.43.0


From 311e730c703e75c82c87825c044c1b7216bf7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 13/33] fix: a CSR matrix constructed from raw storage takes
 ownership of it, as documented

---
 src/blockmatrices.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 672ad2e..e572d33 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -516,10 +516,10 @@ BSRMatrix<scalar,index,1>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	mat.nbrows = rmat.nbrows;
 	mat.nnzb = rmat.nnzb;
 	mat.nbstored = rmat.nbstored;
-	mat.browptr.wrap(rmat.browptr, rmat.nbrows+1);
-	mat.bcolind.wrap(rmat.bcolind, mat.nbstored);
-	mat.vals.wrap(rmat.vals, mat.nbstored);
-	mat.diagind.wrap(rmat.diagind, mat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
+	mat.bcolind.take_control(rmat.bcolind, mat.nbstored);
+	mat.vals.take_control(rmat.vals, mat.nbstored);
+	mat.diagind.take_control(rmat.diagind, mat.nbrows);
 	mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
 
 	rmat.nbrows=0;
-- 
2.43.0


From d654522254e27a923aeae0332494434ae5cb2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 14/33] fix: row stride of the buffer added to a CSR matrix is
 its number of columns

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index e572d33..c9f3e61 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -681,7 +681,7 @@ void BSRMatrix<scalar,index,1>::updateBlock(const index starti, const index star
 				std::cout << "!  BSRMatrix<1>: updateBlock: Invalid block!!\n";
 #endif
 #pragma omp atomic update
-			mat.vals[jj] += buffer[locrow*bsi+k];
+			mat.vals[jj] += buffer[locrow*bsj+k];
 			k++;
 		}
 	}
-- 
2.43.0


From c22946d4b46aa123e072a40a858e86346e422d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 15/33] fix: initialise the number of stored blocks of a
 default raw matrix

---
 include/srmatrixdefs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/srmatrixdefs.hpp b/include/srmatrixdefs.hpp
index c8d60f2..0037a12 100644
--- a/include/srmatrixdefs.hpp
+++ b/include/srmatrixdefs.hpp
@@ -146,7 +146,7 @@ struct RawBSRMatrix
 	/// Default constructor
 	RawBSRMatrix()
 		: browptr{nullptr}, bcolind{nullptr}, vals{nullptr}, diagind{nullptr}, browendptr{nullptr},
-		  nbrows{0}, nnzb{0}
+		  nbrows{0}, nnzb{0}, nbstored{0}
 	{ }
 
 	/// Set data pointers
-- 
2.43.0


From 4763e6f9ba56ff8aebef3cd473d7904c72e4964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 16/33] fix: give access to the storage of a block matrix as
 what it is, as for scalar matrices

---
 include/blockmatrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockmatrices.hpp b/include/blockmatrices.hpp
index a201c5a..7b33116 100644
--- a/include/blockmatrices.hpp
+++ b/include/blockmatrices.hpp
@@ -208,8 +208,8 @@ public:
 	virtual ~BSRMatrix();
 
 	/// Allows immutable access to the underlying matrix storage
-	const CRawBSRMatrix<scalar,index> *getRawSRMatrix() const {
-		return reinterpret_cast<const CRawBSRMatrix<scalar,index>*>(&mat);
+	const SRMatrixStorage<scalar,index>& getRawSRMatrix() const {
+		return mat;
 	}
 
 	/// Set the storage structure of the matrix
-- 
2.43.0


From 2810c715ef04610703d6ea111c5ed2e4ce2cd09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 17/33] fix: copying a raw matrix without row ends throws
 before it allocates anything

---
 src/rawsrmatrixutils.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/rawsrmatrixutils.cpp b/src/rawsrmatrixutils.cpp
index 51e738a..79c476b 100644
--- a/src/rawsrmatrixutils.cpp
+++ b/src/rawsrmatrixutils.cpp
@@ -122,6 +122,9 @@ RawBSRMatrix<scalar,index> copyRawBSRMatrix(const CRawBSRMatrix<scalar,index>& m
 {
 	constexpr int bs2 = bs*bs;
 
+	if(!mat.browendptr)
+		throw std::runtime_error("CRawBSRMatrix does not have row end pointers!");
+
 	RawBSRMatrix<scalar,index> nmat;
 	nmat.nbrows = mat.nbrows;
 	nmat.browptr = (index*)aligned_alloc(CACHE_LINE_LEN,(mat.nbrows+1)*sizeof(index));
@@ -147,13 +150,8 @@ RawBSRMatrix<scalar,index> copyRawBSRMatrix(const CRawBSRMatrix<scalar,index>& m
 	for(index i = 0; i < mat.nbrows; i++)
 		nmat.diagind[i] = mat.diagind[i];
 
-	if(mat.browendptr) {
-		if(mat.nbrows > 0)
-			nmat.browendptr = &nmat.browptr[1];
-	}
-	else {
-		throw std::runtime_error("CRawBSRMatrix does not have row end pointers!");
-	}
+	if(mat.nbrows > 0)
+		nmat.browendptr = &nmat.browptr[1];
 
 	return nmat;
 }
-- 
2.43.0


From 0dee2c4c96ad82e249b579c703c8287136966948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 18/33] fix: parsePetscCmd_string leaked its buffer when the
 option was not given

---
 src/utils/cmdoptions.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index f03d193..618cbb9 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -106,13 +106,12 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 {
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
-	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set); petsc_throw(ierr);
+	std::vector<char> tt(p_strlen+1);
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt.data(), p_strlen, &set); petsc_throw(ierr);
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
 	}
-	const std::string stropt = tt;
-	delete [] tt;
+	const std::string stropt = tt.data();
 	return stropt;
 }
 
-- 
2.43.0


From ab36c8303dc90529cf60b9a4678386ae1c965351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 19/33] fix: optional array option threw when it was not given,
 instead of returning an empty array

---
 src/utils/cmdoptions.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index 618cbb9..6b341ce 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -144,11 +144,7 @@ std::vector<int> parseOptionalPetscCmd_intArray(const std::string optionname, co
 
 	ierr = PetscOptionsGetIntArray(NULL, NULL, optionname.c_str(), &arr[0], &len, &set);
 	petsc_throw(ierr);
-	arr.resize(len);
-
-	if(!set) {
-		throw InputNotGivenError(std::string("Array ") + optionname + std::string(" not set"));
-	}
+	arr.resize(set ? len : 0);
 	return arr;
 }
 
-- 
2.43.0


From cddde60dbed9ab6e3787e1ce1d9a673d817edb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 20/33] fix: setup_blasted_stack_ext is usable with the
 caller's factory; the default one is made once per list

---
 src/blasted_petsc.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index bf7df99..0d371c6 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -575,7 +575,11 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 	return ierr;
 }
 
-int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
+}
+
+namespace blasted {
+
+int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int>& factory,
                             Blasted_data_list *const bctv)
 {
 	PetscErrorCode ierr = 0;
@@ -605,7 +609,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE,
 					"Only one subdomain per rank is supported.");
 
-		ierr = setup_blasted_stack(subksp[0], bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp[0], factory, bctv); CHKERRQ(ierr);
 	}
 	else if(ismg || isgamg) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
@@ -616,7 +620,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		for(int ilvl = 1; ilvl < nlevels; ilvl++) {
 			KSP smootherctx;
 			ierr = PCMGGetSmoother(pc, ilvl , &smootherctx); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherctx, bctv); CHKERRQ(ierr);
+			ierr = setup_blasted_stack_ext(smootherctx, factory, bctv); CHKERRQ(ierr);
 			/*
 			KSP smootherup, smootherdown;
 			ierr = PCMGGetSmootherDown(pc, ilvl , &smootherdown); CHKERRQ(ierr);
@@ -626,14 +630,14 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		}
 		KSP coarsesolver;
 		ierr = PCMGGetCoarseSolve(pc, &coarsesolver); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(coarsesolver, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(coarsesolver, factory, bctv); CHKERRQ(ierr);
 	}
 	else if(isksp) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
 		ierr = PCSetUp(pc); CHKERRQ(ierr);
 		KSP subksp;
 		ierr = PCKSPGetKSP(pc, &subksp); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(subksp, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp, factory, bctv); CHKERRQ(ierr);
 	}
 	else if(isshell) {
 		// if the PC is shell, this is the relevant KSP to pass to BLASTed for setup
@@ -644,7 +648,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		// so we setup the BLASTed preconditioner using the context at the head of the list
 
 		// set the factory to use - same for each solver context in the tree
-		bctv->ctxlist->bfactory = bctv->bfactory;
+		bctv->ctxlist->bfactory = const_cast<FactoryBase<double,int>*>(&factory);
 
 		ierr = setup_localpreconditioner_blasted(ksp, bctv->ctxlist); CHKERRQ(ierr);
 	}
@@ -652,12 +656,19 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 	return ierr;
 }
 
+}
+
+extern "C" {
+
 PetscErrorCode setup_blasted_stack(KSP ksp, Blasted_data_list *const bctx)
 {
-	FactoryBase<double,int> *factory = new SRFactory<double,int>();
-	bctx->bfactory = (void*)factory;
-	bctx->_defaultfactory = 1;
-	return setup_blasted_stack_ext(ksp, factory, bctx);
+	// The list owns one default factory for all its contexts
+	if(bctx->_defaultfactory != 1) {
+		FactoryBase<double,int> *const factory = new SRFactory<double,int>();
+		bctx->bfactory = (void*)factory;
+		bctx->_defaultfactory = 1;
+	}
+	return setup_blasted_stack_ext(ksp, *(const FactoryBase<double,int>*)bctx->bfactory, bctx);
 }
 
 PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bctx)
-- 
2.43.0


From 0e14eee75ca360088f8f224572c5a1e3356616b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 21/33] fix: decide on Richardson relaxation from the created
 preconditioner, not from an unset context field

---
 src/blasted_petsc.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 0d371c6..62c87a9 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -300,6 +300,11 @@ PetscErrorCode createNewPreconditioner(PC pc)
 
 	ctx->bprec = reinterpret_cast<void*>(precop);
 
+	// set a relaxation application only for supported preconditioners
+	if(precop->relaxationAvailable()) {
+		ierr = PCShellSetApplyRichardson(pc, &relax_local_blasted); CHKERRQ(ierr);
+	}
+
 	ctx->infolist = NULL;
 	if(ctx->compute_precinfo) {
 		PrecInfoList *bpinfo = new PrecInfoList;
@@ -369,6 +374,17 @@ Blasted_data newBlastedDataContext()
 {
 	Blasted_data ctx;
 	ctx.bprec = NULL;
+	ctx.bfactory = NULL;
+	ctx.bs = 1;
+	ctx.prectypestr[0] = '\0';
+	ctx.prectype = BLASTED_NO_PREC;
+	ctx.scale = false;
+	ctx.threadchunksize = 1;
+	ctx.nbuildsweeps = 1;
+	ctx.napplysweeps = 1;
+	ctx.factinittype[0] = '\0';
+	ctx.applyinittype[0] = '\0';
+	ctx.compute_precinfo = false;
 	ctx.infolist = NULL;
 	ctx.first_setup_done = false;
 	ctx.cputime = ctx.walltime = ctx.factorcputime = ctx.factorwalltime
@@ -719,15 +735,6 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
-	// set a relaxation application only for supported preconditioners
-	if(bctx->prectype != BLASTED_ILU0 &&
-	   bctx->prectype != BLASTED_CSC_BGS &&
-	   bctx->prectype != BLASTED_NO_PREC)
-	{
-		ierr = PCShellSetApplyRichardson(subpc, &relax_local_blasted);
-		CHKERRQ(ierr);
-	}
-
 	return ierr;
 }
 
-- 
2.43.0


From 8f79faf7e3894aeab1d7e046602888601c73bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 22/33] fix: report the error codes of all PETSc and MPI calls
 of the interface

An option that PETSc cannot parse (-blasted_thread_chunk_size abc,
-blasted_async_sweeps 3,abc) was used all the same and crashed; an error
of MatSetValues for all but the last row was dropped.
---
 src/blasted_petsc.cpp          | 27 +++++++++++++++++----------
 src/utils/blasted_petsc_io.cpp | 11 +++++------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 62c87a9..541128a 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -32,7 +32,10 @@ static int get_int_petscoptions(const char *const option_tag)
 {
 	PetscBool set = PETSC_FALSE;
 	int val = 0;
-	PetscOptionsGetInt(NULL, NULL, option_tag, &val, &set);
+	const int ierr = PetscOptionsGetInt(NULL, NULL, option_tag, &val, &set);
+	if(ierr) {
+		throw std::runtime_error("Petsc could not get int option!");
+	}
 	if(!set) {
 		printf("BLASTed: %s not set!\n", option_tag);
 		abort();
@@ -77,7 +80,10 @@ static void get_string_petscoptions(const char *const option_tag, char outstr[BL
 {
 	// Prec type
 	PetscBool flag = PETSC_FALSE;
-	PetscOptionsGetString(NULL, NULL, option_tag, outstr, BLASTED_OPT_STRLEN, &flag);
+	const int ierr = PetscOptionsGetString(NULL, NULL, option_tag, outstr, BLASTED_OPT_STRLEN, &flag);
+	if(ierr) {
+		throw std::runtime_error("Petsc could not get string option!");
+	}
 	if(flag == PETSC_FALSE) {
 		printf("BLASTed: %s not set!\n", option_tag); fflush(stdout);
 		abort();
@@ -155,7 +161,8 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 		// sweeps
 		PetscBool flag = PETSC_FALSE;
 		PetscInt nmax = 2;
-		PetscOptionsGetIntArray(NULL, NULL, "-blasted_async_sweeps", sweeps, &nmax, &flag);
+		ierr = PetscOptionsGetIntArray(NULL, NULL, "-blasted_async_sweeps", sweeps, &nmax, &flag);
+		CHKERRQ(ierr);
 
 		if(flag == PETSC_FALSE || nmax < 2) {
 			printf("BLASTed: Number of async sweeps not set properly!\n"); fflush(stdout);
@@ -525,8 +532,8 @@ PetscErrorCode apply_local_blasted(PC pc, Vec r, Vec z)
 		double finalctime = (double)clock() / (double)CLOCKS_PER_SEC;
 		ctx->applycputime += (finalctime - initialctime);
 
-		VecRestoreArrayRead(r, &ra);
-		VecRestoreArray(z, &za);
+		ierr = VecRestoreArrayRead(r, &ra); CHKERRQ(ierr);
+		ierr = VecRestoreArray(z, &za); CHKERRQ(ierr);
 	}
 
 	return ierr;
@@ -581,8 +588,8 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 		double finalctime = (double)clock() / (double)CLOCKS_PER_SEC;
 		ctx->applycputime += (finalctime - initialctime);
 
-		VecRestoreArrayRead(rhs, &ra);
-		VecRestoreArray(x, &za);
+		ierr = VecRestoreArrayRead(rhs, &ra); CHKERRQ(ierr);
+		ierr = VecRestoreArray(x, &za); CHKERRQ(ierr);
 	}
 
 	*reason = PCRICHARDSON_CONVERGED_ITS;
@@ -692,8 +699,8 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	PetscErrorCode ierr = 0;
 	int mpisize, mpirank;
 	MPI_Comm comm = PETSC_COMM_WORLD;
-	MPI_Comm_size(comm,&mpisize);
-	MPI_Comm_rank(comm,&mpirank);
+	ierr = MPI_Comm_size(comm,&mpisize); CHKERRQ(ierr);
+	ierr = MPI_Comm_rank(comm,&mpirank); CHKERRQ(ierr);
 
 	Mat A;
 	ierr = KSPGetOperators(ksp, NULL, &A); CHKERRQ(ierr);
@@ -712,7 +719,7 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 
 	PC pc, subpc;
 
-	KSPGetPC(ksp, &pc);
+	ierr = KSPGetPC(ksp, &pc); CHKERRQ(ierr);
 	PetscBool isshell;
 	ierr = PetscObjectTypeCompare((PetscObject)pc,PCSHELL,&isshell); CHKERRQ(ierr);
 
diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 8c46996..a680586 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -47,8 +47,8 @@ PetscErrorCode readMatFromCOOFile(const char *const file, MPI_Comm comm, Mat *co
 {
 	PetscErrorCode ierr = 0;
 	PetscMPIInt rank, mpisize;
-	MPI_Comm_rank(comm, &rank);
-	MPI_Comm_size(comm, &mpisize);
+	ierr = MPI_Comm_rank(comm, &rank); CHKERRQ(ierr);
+	ierr = MPI_Comm_size(comm, &mpisize); CHKERRQ(ierr);
 	if(rank == 0)
 		printf("  Num procs = %d\n", mpisize);
 
@@ -94,11 +94,10 @@ PetscErrorCode readMatFromCOOFile(const char *const file, MPI_Comm comm, Mat *co
 		//#pragma omp critical
 		{
 			ierr = MatSetValues(*A, 1, &irow, ncols, &colinds[0], &values[0], INSERT_VALUES);
+			CHKERRQ(ierr);
 		}
 	}
 
-	CHKERRQ(ierr);
-
 	std::cout << "  Beginning assembly of matrix..\n" << std::endl;
 	ierr = MatAssemblyBegin(*A, MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
 	ierr = MatAssemblyEnd(*A, MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
@@ -111,8 +110,8 @@ PetscErrorCode readMatFromCOOFile_viaSR(const char *const file, MPI_Comm comm, M
 {
 	PetscErrorCode ierr = 0;
 	PetscMPIInt rank, mpisize;
-	MPI_Comm_rank(comm, &rank);
-	MPI_Comm_size(comm, &mpisize);
+	ierr = MPI_Comm_rank(comm, &rank); CHKERRQ(ierr);
+	ierr = MPI_Comm_size(comm, &mpisize); CHKERRQ(ierr);
 	if(rank == 0)
 		printf(" Num procs = %d\n", mpisize);
 	if(mpisize > 1) {
-- 
2.43.0


From 9360f63a95da3041c25420a76c862db88739a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 23/33] fix: reject malformed Matrix Market files with an
 exception

---
 src/coomatrix.cpp | 51 +++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 4f6916b..83a63a4 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -44,6 +44,9 @@ MMDescription getMMDescription(std::ifstream& fin)
 	if(typeofmatrix[0] != "%%MatrixMarket")
 		throw MatrixReadException("! Not a matrix market file!");
 
+	if(typeofmatrix[1] != "matrix")
+		throw MatrixReadException("! Not a matrix!");
+
 	if(typeofmatrix[2] == "coordinate") {
 		descr.storagetype = COORDINATE;
 	}
@@ -51,8 +54,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.storagetype = ARRAY;
 	}
 	else {
-		std::cout << "! Invalid storage type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid storage type!");
 	}
 
 	if(typeofmatrix[3] == "real")
@@ -61,24 +63,22 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.scalartype = COMPLEX;
 	else if(typeofmatrix[3] == "integer")
 		descr.scalartype = INTEGER;
-	else if(typeofmatrix[3] == "patter")
+	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
 	else {
-		std::cout << "! Invalid scalar type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid scalar type!");
 	}
 
 	if(typeofmatrix[4] == "general")
 		descr.matrixtype = GENERAL;
 	else if(typeofmatrix[4] == "symmetric")
 		descr.matrixtype = SYMMETRIC;
-	else if(typeofmatrix[4] == "skewsymmetric")
+	else if(typeofmatrix[4] == "skew-symmetric")
 		descr.matrixtype = SKEWSYMMETRIC;
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
 	else {
-		std::cout << "! Invalid matrix type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid matrix type!");
 	}
 
 	return descr;
@@ -100,14 +100,12 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 
 	if(descr.storagetype == COORDINATE) {
 		if(sizestr.size() < 3) {
-			std::cout << "! getSizeFromMatrixMarket: Not enough size information!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Not enough size information!");
 		}
 	}
 	else {
 		if(sizestr.size() < 2) {
-			std::cout << "! getSizeFromMatrixMarket: Not enough size information!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Not enough size information!");
 		}
 	}
 
@@ -118,13 +116,13 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 			sizes[i] = std::stoi(sizestr[i]);
 		}
 		catch(const std::invalid_argument& e) {
-			std::cout << "! getSizeFromMatrixMarket: Invalid size!!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Invalid size!!");
 		}
 		catch(const std::out_of_range& e) {
-			std::cout << "! getSizeFromMatrixMarket: Size is too large for the type of index!!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Size is too large for the type of index!!");
 		}
+		if(sizes[i] < 0)
+			throw MatrixReadException("! getSizeFromMatrixMarket: Negative size!");
 	}
 
 	return sizes;
@@ -135,8 +133,7 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 {
 	std::ifstream fin(file);
 	if(!fin) {
-		std::cout << " readDenseMatrixMarket: File could not be opened to read!\n";
-		std::abort();
+		throw MatrixReadException("! readDenseMatrixMarket: File could not be opened to read!");
 	}
 
 	const MMDescription descr = getMMDescription(fin);
@@ -148,6 +145,10 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 		fin.close();
 		throw "Matrix should be stored as dense!";
 	}
+	if(descr.scalartype == PATTERN || descr.scalartype == COMPLEX) {
+		fin.close();
+		throw MatrixReadException("! readDenseMatrixMarket: Can only read real matrices.");
+	}
 
 	const std::vector<int> sizes = getSizeFromMatrixMarket<int>(fin,descr);
 	if(sizes.size() < 2) {
@@ -157,7 +158,8 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 
 	device_vector<scalar> vals(sizes[0]*sizes[1]);
 	for(int i = 0; i < sizes[0]*sizes[1]; i++)
-		fin >> vals[i];
+		if(!(fin >> vals[i]))
+			throw MatrixReadException("! readDenseMatrixMarket: Entry missing or invalid!");
 
 	fin.close();
 	return vals;
@@ -191,8 +193,7 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	std::cout << " Attempting to read file " << file << std::endl;
 	std::ifstream fin(file);
 	if(!fin) {
-		std::cout << " COOMatrix: File could not be opened to read!\n";
-		std::abort();
+		throw MatrixReadException("! COOMatrix: File could not be opened to read!");
 	}
 
 	const MMDescription descr = getMMDescription(fin);
@@ -202,6 +203,9 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	if(descr.scalartype == PATTERN) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read pattern matrices.");
 	}
+	if(descr.scalartype == COMPLEX) {
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read complex matrices.");
+	}
 	if(descr.matrixtype != GENERAL) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read general matrices.");
 	}
@@ -216,7 +220,10 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	// read the entries
 	for(index i = 0; i < nnz; i++) {
 		index ri, ci;
-		fin >> ri >> ci >> entries[i].value;
+		if(!(fin >> ri >> ci >> entries[i].value))
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Entry missing or invalid!");
+		if(ri < 1 || ri > nrows || ci < 1 || ci > ncols)
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Entry outside the matrix!");
  		entries[i].rowind = ri-1;
 		entries[i].colind = ci-1;
 	}
-- 
2.43.0


From 6a218125fc0de971b4dc2adaa46536c2a87a30c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 24/33] fix: read and convert coordinate matrices with empty
 rows or missing diagonal entries

---
 src/coomatrix.cpp | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 83a63a4..f4e3c01 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -234,33 +234,17 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	std::sort(entries.begin(), entries.end(), 
 			[](Entry<scalar,index> a, Entry<scalar,index> b) { return a.rowind < b.rowind; } );
 
-	// get row pointers- note that we assume there's at least one element in each row
-	rowptr.resize(nrows+1);
-	std::vector <typename std::vector<Entry<scalar,index>>::iterator> rowits(nrows+1);
-	rowptr[0] = 0;
-	rowits[0] = entries.begin();
-	
-	index k = 1;                 //< Keeps track of current entry
-	index nextrow = 1;           //< Keeps track of the number of rows detected
-	for(auto it = entries.begin()+1; it != entries.end(); ++it)
-	{
-		if( (*it).rowind != (*(it-1)).rowind ) {
-			rowits[nextrow] = it;
-			rowptr[nextrow] = k;
-			nextrow++;
-		}
-
-		k++;
-	}
-	
-	assert(nextrow == nrows);       //< The previous row should have been the last, ie. nrows-1
-	rowits[nrows] = entries.end();
-	rowptr[nrows] = nnz;
+	// get row pointers
+	rowptr.assign(nrows+1, 0);
+	for(index i = 0; i < nnz; i++)
+		rowptr[entries[i].rowind+1]++;
+	for(index i = 0; i < nrows; i++)
+		rowptr[i+1] += rowptr[i];
 
 	// Sort each row by columns
 	for(index i = 0; i < nrows; i++)
 	{
-		std::sort(rowits[i],rowits[i+1], 
+		std::sort(entries.begin()+rowptr[i], entries.begin()+rowptr[i+1],
 				[](Entry<scalar,index> a, Entry<scalar,index> b) { return a.colind < b.colind; } );
 	}
 }
@@ -285,6 +269,7 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToCSR() const
 
 	for(index i=0; i < nrows; i++)
 	{
+		cmat.diagind[i] = -1;
 		for(index j = rowptr[i]; j < rowptr[i+1]; j++)
 		{
 			if(entries[j].colind == entries[j].rowind)
@@ -364,7 +349,7 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 
 	// fix browptr for empty block rows
 	for(index i = bmat.nbrows-1; i > 0; i--)
-		if(bmat.browptr[i] == 0)
+		if(!tallybrows[i])
 			bmat.browptr[i] = bmat.browptr[i+1];
 
 	bmat.bcolind.resize(bnnz);
-- 
2.43.0


From 59994312a0bfd3b293a43c337779794d703dba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 25/33] fix: a Matrix Market file without a size line is
 refused instead of read for ever

---
 src/coomatrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index f4e3c01..f69e4a9 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -90,8 +90,10 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 {
 	// read and discard lines until the first line that does not begin with '%'
 	std::string line = "%";
-	while(line[0] == '%')
-		std::getline(fin, line);
+	while(line[0] == '%') {
+		if(!std::getline(fin, line))
+			throw MatrixReadException("! getSizeFromMatrixMarket: No size information!");
+	}
 
 	// parse matrix size line
 	std::istringstream iss(line);
-- 
2.43.0


From 79b6f8c5275faa75196f46a32e59e1ae22e3a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:18 +0000
Subject: [PATCH 26/33] fix: block rows built from coordinate matrices are
 sorted by block column

---
 src/coomatrix.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index f69e4a9..0b753d5 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -316,8 +316,8 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 	bcolidxs.reserve(nnz/bs);
 	std::vector<bool> tallybrows(bmat.nbrows, false);
 
-	/** If nonzeros in each row were sorted by column initially, 
-	 * blocks in each block-row would end up sorted by block-column.
+	/** Even if nonzeros in each row are sorted by column, the blocks of each block-row are found in
+	 * the order in which the rows of the block-row refer to them; they are sorted below.
 	 */
 
 	for(index irow = 0; irow < nrows; irow++)
@@ -339,8 +339,6 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 			// if it does not exist, add the current block col index
 			if(it == bcolidxs.end()) {
 				bcolidxs.push_back(curbcol);
-				if(curbcol == curbrow)
-					bmat.diagind[curbrow] = bnnz;
 				bnnz++;
 			}
 		}
@@ -354,6 +352,15 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 		if(!tallybrows[i])
 			bmat.browptr[i] = bmat.browptr[i+1];
 
+	// sort each block-row by block-column and find the diagonal blocks
+	for(index i = 0; i < bmat.nbrows; i++)
+	{
+		std::sort(bcolidxs.begin()+bmat.browptr[i], bcolidxs.begin()+bmat.browptr[i+1]);
+		for(index j = bmat.browptr[i]; j < bmat.browptr[i+1]; j++)
+			if(bcolidxs[j] == i)
+				bmat.diagind[i] = j;
+	}
+
 	bmat.bcolind.resize(bnnz);
 	bmat.vals.resize(bnnz*bs*bs);
 
-- 
2.43.0


From bd82c23f25865a243842705e2b1dbcb0dfabaaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:00 +0000
Subject: [PATCH 27/33] fix: mark rows without a diagonal entry when a matrix
 is built from a pattern

The diagonal position of such rows was left uninitialised.
---
 src/blockmatrices.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index c9f3e61..e08fd69 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -191,6 +191,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) 
 	{
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -292,6 +293,7 @@ void BSRMatrix<scalar,index,bs>::setStructure(const index n_brows,
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) 
 	{
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -477,6 +479,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index n_brows,
 
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) {
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -582,6 +585,7 @@ void BSRMatrix<scalar,index,1>::setStructure(const index n_brows,
 
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) {
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
-- 
2.43.0


From b480f2990f487cd30250e7e2bff2750fbce1f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:37 +0000
Subject: [PATCH 28/33] fix: reset the row ends when a matrix without rows is
 set up over an older one

They kept referring to the row pointers freed by the resize.
---
 src/blockmatrices.ipp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index e08fd69..2b4bb52 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -301,8 +301,7 @@ void BSRMatrix<scalar,index,bs>::setStructure(const index n_brows,
 			}
 	}
 
-	if(mat.nbrows > 0)
-		mat.browendptr.wrap(&mat.browptr[1], n_brows);
+	mat.browendptr.wrap(n_brows > 0 ? &mat.browptr[1] : nullptr, n_brows);
 	std::cout << "BSRMatrix:  Allocated storage for matrix with " << mat.nbrows << " block-rows.\n";
 }
 
@@ -593,8 +592,7 @@ void BSRMatrix<scalar,index,1>::setStructure(const index n_brows,
 			}
 	}
 
-	if(mat.nbrows > 0)
-		mat.browendptr.wrap(&mat.browptr[1], n_brows);
+	mat.browendptr.wrap(n_brows > 0 ? &mat.browptr[1] : nullptr, n_brows);
 	std::cout << "BSRMatrix<1>: Set up CSR matrix with " << mat.nbrows << " rows.\n";
 }
 
-- 
2.43.0


From d20fe94e654fa78f84b5c92386523a1675ca2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 29/33] fix: provide every method and container for an
 additional block size

With BUILD_BLOCK_SIZE the factory did not compile, sizes 3 and 7 were
instantiated twice, and the row-major factorisation and views, products,
scaling vectors and diagonal dominance were not instantiated for it.
---
 src/async_blockilu_factor.cpp | 6 ++++++
 src/blas/matvecs.cpp          | 7 +++++++
 src/bsrmatrix.cpp             | 3 ++-
 src/coomatrix.cpp             | 4 +++-
 src/matrix_properties.cpp     | 6 ++++++
 src/rawsrmatrixutils.cpp      | 4 ++++
 src/solverfactory.cpp         | 3 +--
 7 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/async_blockilu_factor.cpp b/src/async_blockilu_factor.cpp
index 5c7003f..0a388eb 100644
--- a/src/async_blockilu_factor.cpp
+++ b/src/async_blockilu_factor.cpp
@@ -177,6 +177,12 @@ block_ilu0_factorize<double,int,4,RowMajor> (const CRawBSRMatrix<double,int> *co
 
 template PrecInfo block_ilu0_factorize<double,int,BUILD_BLOCK_SIZE,ColMajor>
 
+(const CRawBSRMatrix<double,int> *const mat, const ILUPositions<int>& plist,
+ const int nbuildsweeps, const int thread_chunk_size, const bool usethreads, const FactInit inittype,
+ const bool compute_residuals, double *const __restrict iluvals, double *const __restrict scale);
+
+template PrecInfo block_ilu0_factorize<double,int,BUILD_BLOCK_SIZE,RowMajor>
+
 (const CRawBSRMatrix<double,int> *const mat, const ILUPositions<int>& plist,
  const int nbuildsweeps, const int thread_chunk_size, const bool usethreads, const FactInit inittype,
  const bool compute_residuals, double *const __restrict iluvals, double *const __restrict scale);
diff --git a/src/blas/matvecs.cpp b/src/blas/matvecs.cpp
index dac4fdb..470b038 100644
--- a/src/blas/matvecs.cpp
+++ b/src/blas/matvecs.cpp
@@ -161,6 +161,13 @@ template struct BLAS_BSR<const double,const int,3,RowMajor>;
 template struct BLAS_BSR<const double,const int,4,RowMajor>;
 template struct BLAS_BSR<const double,const int,7,RowMajor>;
 
+#if defined(BUILD_BLOCK_SIZE) && BUILD_BLOCK_SIZE != 3 && BUILD_BLOCK_SIZE != 7
+template struct BLAS_BSR<double,int,BUILD_BLOCK_SIZE,ColMajor>;
+template struct BLAS_BSR<double,int,BUILD_BLOCK_SIZE,RowMajor>;
+template struct BLAS_BSR<const double,const int,BUILD_BLOCK_SIZE,ColMajor>;
+template struct BLAS_BSR<const double,const int,BUILD_BLOCK_SIZE,RowMajor>;
+#endif
+
 template struct BLAS_CSR<double,int>;
 template struct BLAS_CSR<const double,const int>;
 
diff --git a/src/bsrmatrix.cpp b/src/bsrmatrix.cpp
index 191d5e4..7c9ab8a 100644
--- a/src/bsrmatrix.cpp
+++ b/src/bsrmatrix.cpp
@@ -34,8 +34,9 @@ template class BSRMatrixView<double,int,4,ColMajor>;
 template class BSRMatrixView<double,int,5,ColMajor>;
 template class BSRMatrixView<double,int,7,ColMajor>;
 
-#ifdef BUILD_BLOCK_SIZE
+#if defined(BUILD_BLOCK_SIZE) && BUILD_BLOCK_SIZE != 3 && BUILD_BLOCK_SIZE != 7
 template class BSRMatrix<double,int,BUILD_BLOCK_SIZE>;
+template class BSRMatrixView<double,int,BUILD_BLOCK_SIZE,RowMajor>;
 template class BSRMatrixView<double,int,BUILD_BLOCK_SIZE,ColMajor>;
 #endif
 
diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 0b753d5..758b716 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -462,10 +462,12 @@ template SRMatrixStorage<double,int>
 getSRMatrixFromCOO<double,int,7>(const COOMatrix<double,int>& coom,
                                  const std::string storageorder);
 
-#ifdef BUILD_BLOCK_SIZE
+#if defined(BUILD_BLOCK_SIZE) && BUILD_BLOCK_SIZE != 7
 template 
 BSRMatrix<double,int,BUILD_BLOCK_SIZE>
 constructBSRMatrixFromMatrixMarketFile(const std::string file);
+#endif
+#if defined(BUILD_BLOCK_SIZE) && BUILD_BLOCK_SIZE != 3 && BUILD_BLOCK_SIZE != 7
 template SRMatrixStorage<double,int>
 getSRMatrixFromCOO<double,int,BUILD_BLOCK_SIZE>(const COOMatrix<double,int>& coom,
                                                 const std::string storageorder);
diff --git a/src/matrix_properties.cpp b/src/matrix_properties.cpp
index b9a31a9..0fd80a7 100644
--- a/src/matrix_properties.cpp
+++ b/src/matrix_properties.cpp
@@ -84,5 +84,11 @@ template std::array<double,4>
 diagonal_dominance<double,int,5,ColMajor>(const SRMatrixStorage<const double,const int>&& mat);
 template std::array<double,4>
 diagonal_dominance<double,int,4,RowMajor>(const SRMatrixStorage<const double,const int>&& mat);
+#ifdef BUILD_BLOCK_SIZE
+template std::array<double,4>
+diagonal_dominance<double,int,BUILD_BLOCK_SIZE,ColMajor>(const SRMatrixStorage<const double,const int>&& mat);
+template std::array<double,4>
+diagonal_dominance<double,int,BUILD_BLOCK_SIZE,RowMajor>(const SRMatrixStorage<const double,const int>&& mat);
+#endif
 
 }
diff --git a/src/rawsrmatrixutils.cpp b/src/rawsrmatrixutils.cpp
index 79c476b..43fb25b 100644
--- a/src/rawsrmatrixutils.cpp
+++ b/src/rawsrmatrixutils.cpp
@@ -353,5 +353,9 @@ template void getScalingVector<double,int,4>(const CRawBSRMatrix<double,int> *co
                                              double *const __restrict scale);
 template void getScalingVector<double,int,5>(const CRawBSRMatrix<double,int> *const mat,
                                              double *const __restrict scale);
+#ifdef BUILD_BLOCK_SIZE
+template void getScalingVector<double,int,BUILD_BLOCK_SIZE>(const CRawBSRMatrix<double,int> *const mat,
+                                                            double *const __restrict scale);
+#endif
 
 }
diff --git a/src/solverfactory.cpp b/src/solverfactory.cpp
index f2a7e32..34179e4 100644
--- a/src/solverfactory.cpp
+++ b/src/solverfactory.cpp
@@ -196,8 +196,7 @@ SRFactory<scalar,index>::create_preconditioner(SRMatrixStorage<const scalar, con
 		}
 #ifdef BUILD_BLOCK_SIZE
 		else if(opts.bs == BUILD_BLOCK_SIZE) {
-			p = create_srpreconditioner_of_type<scalar,index,BUILD_BLOCK_SIZE,RowMajor>(std::move(mat),
-			                                                                            opts);
+			p = create_srpreconditioner_of_type<BUILD_BLOCK_SIZE,RowMajor>(std::move(mat),opts);
 		}
 #endif
 		else {
-- 
2.43.0


From cad5bb19ee38c237bef86bea29a52b8de9b2b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 30/33] fix: make the MC64 ordering and preconditioner compile

A function that does not exist was called, and the preconditioner did not
hand the matrix to its base class.
---
 include/solverops_ilu0.hpp | 4 +++-
 src/reorderingscaling.cpp  | 4 ++--
 src/solverops_ilu0.cpp     | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/solverops_ilu0.hpp b/include/solverops_ilu0.hpp
index 148c63d..e669fc4 100644
--- a/include/solverops_ilu0.hpp
+++ b/include/solverops_ilu0.hpp
@@ -234,12 +234,14 @@ class MC64_AsyncILU0_SRPreconditioner : public ReorderedAsyncILU0_SRPrecondition
 {
 public:
 	/** Sets options
+	 * \param matrix The preconditioning matrix
 	 * \param job The MC64 job ID. Must be 1,2,3,4 or 5. See \cite mc64_manual for details.
 	 * \warning For job 5, we don't apply the scaling. However, for all jobs, symmetric scaling is
 	 *   applied after reordering.
 	 * \sa AsyncILU0_SRPreconditioner
 	 */
-	MC64_AsyncILU0_SRPreconditioner(const int job, const int nbuildsweeps, const int napplysweeps,
+	MC64_AsyncILU0_SRPreconditioner(SRMatrixStorage<const scalar, const index>&& matrix,
+	                                const int job, const int nbuildsweeps, const int napplysweeps,
 	                                const int thread_chunk_size,
 	                                const FactInit fact_init_type, const ApplyInit apply_init_type,
 	                                const bool threadedfactor=true, const bool threadedapply=true);
diff --git a/src/reorderingscaling.cpp b/src/reorderingscaling.cpp
index 086db79..67da246 100644
--- a/src/reorderingscaling.cpp
+++ b/src/reorderingscaling.cpp
@@ -452,7 +452,7 @@ std::tuple<int,int> getWorkSizes(const int job, const int nrows, const int nnz)
 
 void MC64::compute(const CRawBSRMatrix<double,int>& mat)
 {
-	const CRawBSCMatrix<double,int> scmat = convert_BSR_to_BSC_1based<double,int,1>(&mat);
+	CRawBSCMatrix<double,int> scmat = convert_BSR_to_BSC_1based<double,int,1>(&mat);
 	assert(mat.nbrows == scmat.nbcols);
 	assert(mat.browptr[mat.nbrows]+1 == scmat.bcolptr[scmat.nbcols]);
 	const int nnz = mat.browptr[mat.nbrows];
@@ -493,7 +493,7 @@ void MC64::compute(const CRawBSRMatrix<double,int>& mat)
 		fflush(stdout);
 	}
 
-	destroyRawBSCMatrix<double,int>(scmat);
+	alignedDestroyCRawBSCMatrix<double,int>(scmat);
 
 	const double *const colscalevec = (job == 5) ? &scalevec[mat.nbrows] : nullptr;
 
diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 5429f89..057a562 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -479,10 +479,12 @@ template class ReorderedAsyncILU0_SRPreconditioner<double,int>;
 
 template <typename scalar, typename index>
 MC64_AsyncILU0_SRPreconditioner<scalar,index>::
-MC64_AsyncILU0_SRPreconditioner(const int jb, const int nbuildsweeps, const int napplysweeps,
+MC64_AsyncILU0_SRPreconditioner(SRMatrixStorage<const scalar, const index>&& matrix,
+                                const int jb, const int nbuildsweeps, const int napplysweeps,
                                 const int tcs, const FactInit finit, const ApplyInit ainit,
                                 const bool threadedfactor, const bool threadedapply)
-	: ReorderedAsyncILU0_SRPreconditioner<scalar,index>(new MC64(jb), nbuildsweeps,napplysweeps, tcs,
+	: ReorderedAsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), new MC64(jb),
+	                                                    nbuildsweeps,napplysweeps, tcs,
 	                                                    finit, ainit,
 	                                                    threadedfactor,threadedapply),
 	job{jb}
-- 
2.43.0


From d824c276b3f0ec3355e394707b1f29d453cd5b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 31/33] fix: build without OpenMP does not need the OpenMP
 runtime

---
 src/blasted_petsc.cpp    |  6 ++++++
 src/utils/prefix_sum.cpp | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 541128a..b589c40 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -9,7 +9,9 @@
 #include <ctime>
 #include <iostream>
 #include <sys/time.h>
+#ifdef _OPENMP
 #include <omp.h>
+#endif
 
 #include <../src/mat/impls/aij/mpi/mpiaij.h>
 #include <../src/mat/impls/baij/mpi/mpibaij.h>
@@ -106,7 +108,11 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 	   || (ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && settings.prectype == BLASTED_SFILU0)
 	   || (ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL && settings.prectype == BLASTED_SAPILU0))
 	{
+#ifdef _OPENMP
 		const int nthreads = omp_get_max_threads();
+#else
+		const int nthreads = 1;
+#endif
 		if(nthreads != 1) {
 			std::cout << "WARNING: Both sequential build and apply are requested, but " << nthreads
 			          << " threads are being used!" << std::endl;
diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index e94dbc9..b2246f7 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -1,5 +1,7 @@
 
+#ifdef _OPENMP
 #include <omp.h>
+#endif
 #include <algorithm>
 #include <cmath>
 
@@ -26,12 +28,20 @@ void prefix_sum(IndexType *const counts, const int num_entries)
         return;
     }
 
+#ifdef _OPENMP
     const int nthreads = omp_get_max_threads();
+#else
+    const int nthreads = 1;
+#endif
     const IndexType def_num_witems = (num_entries - 1) / nthreads + 1;
 
 #pragma omp parallel
     {
+#ifdef _OPENMP
         const int thread_id = omp_get_thread_num();
+#else
+        const int thread_id = 0;
+#endif
         const IndexType startidx = thread_id * def_num_witems;
         const IndexType endidx =
             std::min(num_entries, (thread_id + 1) * def_num_witems);
-- 
2.43.0


From f580761bdf83eec7b60bce2f3bc83fffe297240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 32/33] fix: prefix sum of fewer entries than threads, and for
 any number of threads

Threads without entries read and wrote beyond the array, and too few
combination steps were made for thread counts such as 5 or 16.
---
 src/utils/prefix_sum.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index b2246f7..4029f69 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -42,10 +42,10 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 #else
         const int thread_id = 0;
 #endif
-        const IndexType startidx = thread_id * def_num_witems;
+        const IndexType startidx = std::min(num_entries, thread_id * def_num_witems);
         const IndexType endidx =
             std::min(num_entries, (thread_id + 1) * def_num_witems);
-        const IndexType startval = counts[startidx];
+        const IndexType startval = startidx < num_entries ? counts[startidx] : 0;
 
 #pragma omp barrier
 
@@ -55,14 +55,14 @@ void prefix_sum(IndexType *const counts, const int num_entries)
             counts[i] = partial_sum;
             partial_sum += nnz;
         }
-        if (thread_id != nthreads - 1) {
+        if (endidx < num_entries) {
             counts[endidx] = partial_sum;
         }
     }
 
     counts[0] = 0;
 
-    const auto levels = static_cast<int>(std::ceil(std::log(nthreads)));
+    const auto levels = static_cast<int>(std::ceil(std::log2(nthreads)));
     for (int ilvl = 0; ilvl < levels; ilvl++) {
         const IndexType factor = power(2, (ilvl + 1));
         const IndexType lvl_num_witems = factor * def_num_witems;
-- 
2.43.0


From 284e087686ffaf35478992497ed6f1fb6391d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:36 +0000
Subject: [PATCH 33/33] fix: matrices without rows or entries are handled

Taking the address of entry 0 of an empty array view aborts, and the
assertion about the last row's end reads entry -1 of a matrix without
rows. Use the view's begin pointer and skip the assertion.
---
 include/arrayview.hpp          |  6 ++++++
 src/blas/matvecs.cpp           |  4 ++--
 src/blockmatrices.ipp          | 36 +++++++++++++++++-----------------
 src/coomatrix.cpp              |  8 ++++----
 src/matrix_properties.cpp      |  2 +-
 src/rawsrmatrixutils.cpp       | 26 ++++++++++++------------
 src/sai.cpp                    |  4 ++--
 src/solverops_base.cpp         |  2 +-
 src/utils/blasted_petsc_io.cpp |  2 +-
 9 files changed, 48 insertions(+), 42 deletions(-)

diff --git a/include/arrayview.hpp b/include/arrayview.hpp
index c560d65..b2c9e56 100644
--- a/include/arrayview.hpp
+++ b/include/arrayview.hpp
@@ -123,6 +123,12 @@ public:
 		owner = true;
 	}
 
+	/// Pointer to the underlying storage; unlike the address of the first entry, usable for empty arrays
+	const T *begin() const { return data; }
+
+	/// Pointer to the underlying storage
+	T *begin() { return data; }
+
 	/// Const accessor
 	const T& operator[](const int i) const {
 		assert(i < len);
diff --git a/src/blas/matvecs.cpp b/src/blas/matvecs.cpp
index 470b038..b6ad2d8 100644
--- a/src/blas/matvecs.cpp
+++ b/src/blas/matvecs.cpp
@@ -28,7 +28,7 @@ void BLAS_BSR<mscalar,mindex,bs,stor>
 {
 	using Blk = Block_t<scalar,bs,stor>;
 	using Seg = Segment_t<scalar,bs>;
-	const Blk *data = reinterpret_cast<const Blk*>(&mat.vals[0]);
+	const Blk *data = reinterpret_cast<const Blk*>(mat.vals.begin());
 	const Seg *x = reinterpret_cast<const Seg*>(xx);
 	Seg *y = reinterpret_cast<Seg*>(yy);
 
@@ -55,7 +55,7 @@ void BLAS_BSR<mscalar,mindex,bs,stor>
 {
 	using Blk = Block_t<scalar,bs,stor>;
 	using Seg = Segment_t<scalar,bs>;
-	const Blk *data = reinterpret_cast<const Blk*>(&mat.vals[0]);
+	const Blk *data = reinterpret_cast<const Blk*>(mat.vals.begin());
 	const Seg *x = reinterpret_cast<const Seg*>(xx);
 	const Seg *y = reinterpret_cast<const Seg*>(yy);
 	Seg *z = reinterpret_cast<Seg*>(zz);
diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 2b4bb52..4f45a37 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -410,8 +410,8 @@ void BSRMatrix<scalar,index,bs>::gemv3(const scalar a, const scalar *const __res
 template <typename scalar, typename index, int bs>
 void BSRMatrix<scalar,index,bs>::computeOrderingScaling(ReorderingScaling<scalar,index,bs>& rs) const
 {
-	const CRawBSRMatrix<scalar,index> cmat{&mat.browptr[0], &mat.bcolind[0], &mat.vals[0],
-	                                       &mat.diagind[0], &mat.browendptr[0], mat.nbrows,
+	const CRawBSRMatrix<scalar,index> cmat{mat.browptr.begin(), mat.bcolind.begin(), mat.vals.begin(),
+	                                       mat.diagind.begin(), mat.browendptr.begin(), mat.nbrows,
 	                                       mat.nnzb, mat.nbstored};
 	rs.compute(cmat);
 }
@@ -420,8 +420,8 @@ template <typename scalar, typename index, int bs>
 void BSRMatrix<scalar,index,bs>::reorderScale(const ReorderingScaling<scalar,index,bs>& rs,
                                               const RSApplyMode mode)
 {
-	RawBSRMatrix<scalar,index> rmat{&mat.browptr[0], &mat.bcolind[0], &mat.vals[0],
-	                                &mat.diagind[0], &mat.browendptr[0], mat.nbrows,
+	RawBSRMatrix<scalar,index> rmat{mat.browptr.begin(), mat.bcolind.begin(), mat.vals.begin(),
+	                                mat.diagind.begin(), mat.browendptr.begin(), mat.nbrows,
 	                                mat.nnzb, mat.nbstored};
 	if(mode == FORWARD) {
 		rs.applyScaling(rmat,mode);
@@ -437,12 +437,12 @@ template <typename scalar, typename index, int bs>
 std::array<bool,5> BSRMatrix<scalar,index,bs>::isEqual(const BSRMatrix<scalar,index,bs>& other,
                                                        const scalar tol) const
 {
-	const CRawBSRMatrix<scalar,index> cmat{&mat.browptr[0], &mat.bcolind[0], &mat.vals[0],
-	                                       &mat.diagind[0], &mat.browendptr[0], mat.nbrows,
+	const CRawBSRMatrix<scalar,index> cmat{mat.browptr.begin(), mat.bcolind.begin(), mat.vals.begin(),
+	                                       mat.diagind.begin(), mat.browendptr.begin(), mat.nbrows,
 	                                       mat.nnzb, mat.nbstored};
-	const CRawBSRMatrix<scalar,index> othermat{&other.mat.browptr[0], &other.mat.bcolind[0],
-	                                           &other.mat.vals[0], &other.mat.diagind[0],
-	                                           &other.mat.browendptr[0], other.mat.nbrows,
+	const CRawBSRMatrix<scalar,index> othermat{other.mat.browptr.begin(), other.mat.bcolind.begin(),
+	                                           other.mat.vals.begin(), other.mat.diagind.begin(),
+	                                           other.mat.browendptr.begin(), other.mat.nbrows,
 	                                           other.mat.nnzb, other.mat.nbstored};
 	
 	return areEqual<scalar,index,bs>(&cmat, &othermat, tol);
@@ -716,8 +716,8 @@ void BSRMatrix<scalar,index,1>::gemv3(const scalar a, const scalar *const __rest
 template <typename scalar, typename index>
 void BSRMatrix<scalar,index,1>::computeOrderingScaling(ReorderingScaling<scalar,index,1>& rs) const
 {
-	const CRawBSRMatrix<scalar,index> cmat{&mat.browptr[0], &mat.bcolind[0], &mat.vals[0],
-	                                       &mat.diagind[0], &mat.browendptr[0], mat.nbrows,
+	const CRawBSRMatrix<scalar,index> cmat{mat.browptr.begin(), mat.bcolind.begin(), mat.vals.begin(),
+	                                       mat.diagind.begin(), mat.browendptr.begin(), mat.nbrows,
 	                                       mat.nnzb, mat.nbstored};
 	rs.compute(cmat);
 }
@@ -726,8 +726,8 @@ template <typename scalar, typename index>
 void BSRMatrix<scalar,index,1>::reorderScale(const ReorderingScaling<scalar,index,1>& rs,
                                              const RSApplyMode mode)
 {
-	RawBSRMatrix<scalar,index> rmat{&mat.browptr[0], &mat.bcolind[0], &mat.vals[0],
-	                                &mat.diagind[0], &mat.browendptr[0], mat.nbrows,
+	RawBSRMatrix<scalar,index> rmat{mat.browptr.begin(), mat.bcolind.begin(), mat.vals.begin(),
+	                                mat.diagind.begin(), mat.browendptr.begin(), mat.nbrows,
 	                                mat.nnzb, mat.nbstored};
 
 	if(mode == FORWARD) {
@@ -744,12 +744,12 @@ template <typename scalar, typename index>
 std::array<bool,5> BSRMatrix<scalar,index,1>::isEqual(const BSRMatrix<scalar,index,1>& other,
                                                       const scalar tol) const
 {
-	const CRawBSRMatrix<scalar,index> cmat{&mat.browptr[0], &mat.bcolind[0], &mat.vals[0],
-	                                       &mat.diagind[0], &mat.browendptr[0], mat.nbrows,
+	const CRawBSRMatrix<scalar,index> cmat{mat.browptr.begin(), mat.bcolind.begin(), mat.vals.begin(),
+	                                       mat.diagind.begin(), mat.browendptr.begin(), mat.nbrows,
 	                                       mat.nnzb, mat.nbstored};
-	const CRawBSRMatrix<scalar,index> othermat{&other.mat.browptr[0], &other.mat.bcolind[0],
-	                                           &other.mat.vals[0], &other.mat.diagind[0],
-	                                           &other.mat.browendptr[0], other.mat.nbrows,
+	const CRawBSRMatrix<scalar,index> othermat{other.mat.browptr.begin(), other.mat.bcolind.begin(),
+	                                           other.mat.vals.begin(), other.mat.diagind.begin(),
+	                                           other.mat.browendptr.begin(), other.mat.nbrows,
 	                                           other.mat.nnzb, other.mat.nbstored};
 	
 	return areEqual<scalar,index,1>(&cmat, &othermat, tol);
diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 758b716..779b374 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -381,17 +381,17 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 			const index offset = stor==RowMajor ?
 				(irow-curbrow*bs)*bs + curcol-curbcol*bs : (curcol-curbcol*bs)*bs + irow-curbrow*bs;
 
-			index *const bcptr = std::find(&bmat.bcolind[0] + bmat.browptr[curbrow],
-			                               &bmat.bcolind[0] + bmat.browptr[curbrow+1],
+			index *const bcptr = std::find(bmat.bcolind.begin() + bmat.browptr[curbrow],
+			                               bmat.bcolind.begin() + bmat.browptr[curbrow+1],
 			                               curbcol);
 
-			if(bcptr == &bmat.bcolind[0] + bmat.browptr[curbrow+1]) {
+			if(bcptr == bmat.bcolind.begin() + bmat.browptr[curbrow+1]) {
 				std::cout << "! convertToBSR: Error: Location not found for " << irow << ", "
 				          << curcol << std::endl;
 				std::abort();
 			}
 
-			*(&bmat.vals[0] + (ptrdiff_t)(bcptr-&bmat.bcolind[0])*bs*bs + offset) = entries[j].value;
+			*(bmat.vals.begin() + (ptrdiff_t)(bcptr-bmat.bcolind.begin())*bs*bs + offset) = entries[j].value;
 		}
 	}
 
diff --git a/src/matrix_properties.cpp b/src/matrix_properties.cpp
index 0fd80a7..074b82a 100644
--- a/src/matrix_properties.cpp
+++ b/src/matrix_properties.cpp
@@ -11,7 +11,7 @@ template <typename scalar, typename index, int bs, StorageOptions stor>
 std::array<scalar,4> diagonal_dominance(const SRMatrixStorage<const scalar,const index>&& mat)
 {
 	using Blk = Block_t<scalar,bs,stor>;
-	const Blk *data = reinterpret_cast<const Blk*>(&mat.vals[0]);
+	const Blk *data = reinterpret_cast<const Blk*>(mat.vals.begin());
 
 	scalar uddavg = 0, uddmin = 1e30, lddavg = 0, lddmin = 1e30;
 
diff --git a/src/rawsrmatrixutils.cpp b/src/rawsrmatrixutils.cpp
index 43fb25b..8874de1 100644
--- a/src/rawsrmatrixutils.cpp
+++ b/src/rawsrmatrixutils.cpp
@@ -89,7 +89,7 @@ share_with_const(const SRMatrixStorage<scalar,index>& smat, const int bs)
 {
 	return
 		SRMatrixStorage<typename std::add_const<scalar>::type, typename std::add_const<index>::type>
-		(&smat.browptr[0], &smat.bcolind[0], &smat.vals[0], &smat.diagind[0], &smat.browendptr[0],
+		(smat.browptr.begin(), smat.bcolind.begin(), smat.vals.begin(), smat.diagind.begin(), smat.browendptr.begin(),
 		 smat.nbrows, smat.nnzb, smat.nbstored, bs);
 }
 
@@ -206,7 +206,7 @@ template CRawBSRMatrix<double,int> getLowerTriangularView(const CRawBSRMatrix<do
 template <typename scalar, typename index>
 CRawBSRMatrix<scalar,index> getUpperTriangularView(const CRawBSRMatrix<scalar,index>& mat)
 {
-	assert(mat.browendptr[mat.nbrows-1] == mat.diagind[mat.nbrows-1]+1);
+	assert(mat.nbrows == 0 || mat.browendptr[mat.nbrows-1] == mat.diagind[mat.nbrows-1]+1);
 
 	CRawBSRMatrix<scalar,index> upper;
 	upper.nbrows = mat.nbrows;
@@ -231,7 +231,7 @@ CRawBSRMatrix<scalar,index> getUpperTriangularView(const CRawBSRMatrix<scalar,in
 	upper.browptr = urowptr;
 	upper.browendptr = urowendptr;
 
-	assert(upper.browendptr[upper.nbrows-1] == upper.diagind[upper.nbrows-1]+1);
+	assert(upper.nbrows == 0 || upper.browendptr[upper.nbrows-1] == upper.diagind[upper.nbrows-1]+1);
 
 #ifdef DEBUG
 	for(index irow = 0; irow < upper.nbrows; irow++)
@@ -249,9 +249,9 @@ template <typename scalar, typename index>
 SRMatrixStorage<const scalar,const index>
 getLowerTriangularView(const SRMatrixStorage<const scalar,const index>&& mat)
 {
-	ArrayView<const index> lbcolind(&mat.bcolind[0], mat.bcolind.size());
-	ArrayView<const index> ldiagind(&mat.diagind[0], mat.diagind.size());
-	ArrayView<const scalar> lvals(&mat.vals[0], mat.vals.size());
+	ArrayView<const index> lbcolind(mat.bcolind.begin(), mat.bcolind.size());
+	ArrayView<const index> ldiagind(mat.diagind.begin(), mat.diagind.size());
+	ArrayView<const scalar> lvals(mat.vals.begin(), mat.vals.size());
 
 	ArrayView<index> lrowptr(mat.nbrows);
 	ArrayView<index> lrowendptr(mat.nbrows);
@@ -279,11 +279,11 @@ template <typename scalar, typename index>
 SRMatrixStorage<const scalar,const index>
 getUpperTriangularView(const SRMatrixStorage<const scalar,const index>&& mat)
 {
-	assert(mat.browendptr[mat.nbrows-1] == mat.diagind[mat.nbrows-1]+1);
+	assert(mat.nbrows == 0 || mat.browendptr[mat.nbrows-1] == mat.diagind[mat.nbrows-1]+1);
 
-	ArrayView<const index> ubcolind(&mat.bcolind[0], mat.bcolind.size());
-	ArrayView<const index> udiagind(&mat.diagind[0], mat.diagind.size());
-	ArrayView<const scalar> uvals(&mat.vals[0], mat.vals.size());
+	ArrayView<const index> ubcolind(mat.bcolind.begin(), mat.bcolind.size());
+	ArrayView<const index> udiagind(mat.diagind.begin(), mat.diagind.size());
+	ArrayView<const scalar> uvals(mat.vals.begin(), mat.vals.size());
 
 	ArrayView<index> urowptr(mat.nbrows);
 	ArrayView<index> urowendptr(mat.nbrows);
@@ -302,7 +302,7 @@ getUpperTriangularView(const SRMatrixStorage<const scalar,const index>&& mat)
 		      mat.nbrows, nnz, mat.nbstored);
 
 #ifdef DEBUG
-	assert(upper.browendptr[upper.nbrows-1] == upper.diagind[upper.nbrows-1]+1);
+	assert(upper.nbrows == 0 || upper.browendptr[upper.nbrows-1] == upper.diagind[upper.nbrows-1]+1);
 
 	for(index irow = 0; irow < upper.nbrows; irow++)
 	{
@@ -330,8 +330,8 @@ CRawBSRMatrix<scalar,index> createRawView(const SRMatrixStorage<const scalar, co
 {
 	CRawBSRMatrix<scalar,index> cmat;
 	cmat.nbrows = smat.nbrows; cmat.nnzb = smat.nnzb; cmat.nbstored = smat.nbstored;
-	cmat.browptr = &smat.browptr[0]; cmat.browendptr = &smat.browendptr[0];
-	cmat.bcolind = &smat.bcolind[0]; cmat.diagind = &smat.diagind[0]; cmat.vals = &smat.vals[0];
+	cmat.browptr = smat.browptr.begin(); cmat.browendptr = smat.browendptr.begin();
+	cmat.bcolind = smat.bcolind.begin(); cmat.diagind = smat.diagind.begin(); cmat.vals = smat.vals.begin();
 
 	return cmat;
 }
diff --git a/src/sai.cpp b/src/sai.cpp
index e427b7e..34cb9b1 100644
--- a/src/sai.cpp
+++ b/src/sai.cpp
@@ -340,7 +340,7 @@ LMatrix<scalar> gather_lhs_matrix(const SRMatrixStorage<const scalar,const index
                                   const index row)
 {
 	using Blk = Block_t<scalar,bs,stor>;
-	const Blk *const valb = reinterpret_cast<const Blk*>(&mat.vals[0]);
+	const Blk *const valb = reinterpret_cast<const Blk*>(mat.vals.begin());
 
 	LMatrix<scalar> lhs = LMatrix<scalar>::Zero(sp.nEqns[row]*bs, sp.nVars[row]*bs);
 
@@ -372,7 +372,7 @@ void scatter_solution(const LMatrix<scalar>& sol, const LeftSAIPattern<index>& s
                       const index row, SRMatrixStorage<scalar,index>& saimat)
 {
 	using Blk = Block_t<scalar,bs,stor>;
-	Blk *const saivalb = reinterpret_cast<Blk*>(&saimat.vals[0]);
+	Blk *const saivalb = reinterpret_cast<Blk*>(saimat.vals.begin());
 
 	assert(sp.nVars[row] == saimat.browendptr[row] - saimat.browptr[row]);
 
diff --git a/src/solverops_base.cpp b/src/solverops_base.cpp
index c86004d..796c17b 100644
--- a/src/solverops_base.cpp
+++ b/src/solverops_base.cpp
@@ -19,7 +19,7 @@ Preconditioner<scalar,index>::~Preconditioner()
 template <typename scalar, typename index>
 SRPreconditioner<scalar,index>::SRPreconditioner(SRMatrixStorage<const scalar, const index>&& matrix)
 	: Preconditioner<scalar,index>(SPARSEROW), pmat(std::move(matrix)),
-	  mat(&pmat.browptr[0], &pmat.bcolind[0], &pmat.vals[0], &pmat.diagind[0], &pmat.browendptr[0],
+	  mat(pmat.browptr.begin(), pmat.bcolind.begin(), pmat.vals.begin(), pmat.diagind.begin(), pmat.browendptr.begin(),
 	      pmat.nbrows, pmat.nnzb, pmat.nbstored)
 { }
 
diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index a680586..b03dea6 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -159,7 +159,7 @@ PetscErrorCode readMatFromCOOFile_viaSR(const char *const file, MPI_Comm comm, M
 
 	if(bs == 1) {
 		ierr = MatCreateMPIAIJWithArrays(PETSC_COMM_SELF, rmat->nbrows, rmat->nbrows,rmat->nbrows,
-		                                 rmat->nbrows, &rmat->browptr[0], &rmat->bcolind[0], &rmat->vals[0], A);
+		                                 rmat->nbrows, rmat->browptr.begin(), rmat->bcolind.begin(), rmat->vals.begin(), A);
 		CHKERRQ(ierr);
 	}
 	else {
-- 
2.43.0

