From 50aacdc12c604e86d070938d8f511878148d6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 01/49] fix: relax the primal iterate of boxADMM from its
 previous value

m_x was overwritten by alpha * x_tilde before (1 - alpha) * m_x was added,
so over-relaxation (alpha != 1) scaled the new point instead of blending
it with the previous iterate.
---
 src/solvers/box_admm.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index c31106a..1cfe078 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -126,8 +126,7 @@ public:
             m_z_tilde = m_z_prev + m_rho_inv_vec.cwiseProduct(x_tilde_nu.template tail<M>() - this->m_y.template head<M>());
 
             /** update x */
-            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde;
-            this->m_x.noalias() += (1 - this->m_settings.alpha) * this->m_x;
+            this->m_x.noalias() = this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * this->m_x;
 
             /** update z */
             m_z.noalias() = this->m_settings.alpha * m_z_tilde;
-- 
2.43.0


From 392f5433a32188555a0c48d91564376c48f7504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 02/49] fix: update the sparse KKT matrix correctly when the
 pattern is reused

The A^T block was inserted (not set) at the offset of A, so full-triangle
linear solvers aborted or used a stale matrix, and a Hessian without a
stored diagonal entry shifted the copied column by one nonzero.
---
 src/solvers/admm.hpp     | 20 ++++++++++++++++----
 src/solvers/box_admm.hpp | 20 ++++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a849d6f..a1a203a 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -325,12 +325,24 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            if(m_K.innerNonZeroPtr()[k] == H.innerNonZeroPtr()[k] + A.innerNonZeroPtr()[k])
+            {
+                std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            }
+            else
+            {
+                // the diagonal entry of this column is not stored in H: K has one more nonzero than the two blocks
+                m_K.coeffRef(k, k) = scalar_t(0);
+                for (typename Eigen::Ref<const qp_hessian_t>::InnerIterator it(H, k); it; ++it)
+                    m_K.coeffRef(it.row(), k) = it.value();
+                for (typename Eigen::Ref<const qp_constraint_t>::InnerIterator it(A, k); it; ++it)
+                    m_K.coeffRef(N + it.row(), k) = it.value();
+            }
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -357,7 +369,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
     /** workaround function to estimate number of nonzeros */
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index 1cfe078..cc9d64b 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -294,12 +294,24 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-            std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            if(m_K.innerNonZeroPtr()[k] == H.innerNonZeroPtr()[k] + A.innerNonZeroPtr()[k])
+            {
+                std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+            }
+            else
+            {
+                // the diagonal entry of this column is not stored in H: K has one more nonzero than the two blocks
+                m_K.coeffRef(k, k) = scalar_t(0);
+                for (typename Eigen::Ref<const qp_hessian_t>::InnerIterator it(H, k); it; ++it)
+                    m_K.coeffRef(it.row(), k) = it.value();
+                for (typename Eigen::Ref<const qp_constraint_t>::InnerIterator it(A, k); it; ++it)
+                    m_K.coeffRef(N + it.row(), k) = it.value();
+            }
         }
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
-            block_set_sparse(m_K, N, 0, A.transpose());
+            block_set_sparse(m_K, 0, N, A.transpose());
 
 
         // add diagonal blocks*/
@@ -327,7 +339,7 @@ public:
         // assumes enough spase is allocated in the dst matrix
         for(Eigen::Index k = 0; k < src.outerSize(); ++k)
             for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(src, k); it; ++it)
-                dst.insert(row_offset + it.row(), col_offset + it.col()) = it.value();
+                dst.coeffRef(row_offset + it.row(), col_offset + it.col()) = it.value();
     }
 
 
-- 
2.43.0


From 7a6c835ca60e6c67df5b8305521c78cafd2c92d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 03/49] fix: over-relax the box copy of boxADMM from its
 previous value

With alpha != 1 the copy q of x was updated from the relaxed primal iterate
instead of alpha * x_tilde + (1 - alpha) * q_prev, and the iteration diverged
on simple strictly convex problems.
---
 src/solvers/box_admm.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index cc9d64b..f311d4b 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -42,7 +42,7 @@ public:
     ~boxADMM() = default;
     /** ADMM specific */
     qp_var_t m_x_tilde;
-    qp_var_t m_q;
+    qp_var_t m_q, m_q_prev;
     qp_dual_a_t m_z, m_z_tilde, m_z_prev;
     qp_dual_a_t m_rho_vec, m_rho_inv_vec;
     qp_var_t  m_rho_vec_box, m_rho_vec_box_inv, m_rho_vec_box_prev;
@@ -134,7 +134,9 @@ public:
             m_z = m_z.cwiseMax(Alb).cwiseMin(Aub); //box projection
 
             /** update q */
-            m_q.noalias() = this->m_x + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
+            m_q_prev = m_q;
+            m_q.noalias() = this->m_settings.alpha * m_x_tilde;
+            m_q.noalias() += (1 - this->m_settings.alpha) * m_q_prev + m_rho_vec_box_inv.cwiseProduct(this->m_y.template tail<N>());
             m_q = m_q.cwiseMax(xlb).cwiseMin(xub); // box projection
 
             /** update y (dual) */
@@ -142,8 +144,8 @@ public:
                                                                              (1 - this->m_settings.alpha) * m_z_prev - m_z);
 
             /** update y_box (dual) */
-            //m_y_box.noalias() += m_rho_vec_box.cwiseProduct(this->m_settings.alpha * m_x_tilde + (1 - this->m_settings.alpha) * m_q_prev - m_q);
-            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(this->m_x - m_q);
+            this->m_y.template tail<N>().noalias() += m_rho_vec_box.cwiseProduct(this->m_settings.alpha * m_x_tilde +
+                                                                                 (1 - this->m_settings.alpha) * m_q_prev - m_q);
 
             if (this->m_settings.check_termination != 0 && iter % this->m_settings.check_termination == 0)
                 check_termination = true;
-- 
2.43.0


From 25ec187c4f329627996fa20d58101042b4b8ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:13 +0000
Subject: [PATCH 04/49] fix: accept compressed sparse matrices in the ADMM
 solvers

innerNonZeroPtr() of a compressed matrix is null, so passing H or A in the
usual compressed form (setFromTriplets, sparseView, makeCompressed) crashed.
---
 src/solvers/admm.hpp     | 14 +++++++-------
 src/solvers/box_admm.hpp | 10 +++++-----
 src/utils/helpers.hpp    |  7 +++++++
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/solvers/admm.hpp b/src/solvers/admm.hpp
index a1a203a..4d13b0d 100644
--- a/src/solvers/admm.hpp
+++ b/src/solvers/admm.hpp
@@ -229,13 +229,13 @@ public:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], polympc::inner_nonzeros(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k) _A_mat_nnz(k) += polympc::inner_nonzeros(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
@@ -287,9 +287,9 @@ public:
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
         // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k) _kkt_mat_nnz(k) += polympc::inner_nonzeros(H, k);
         // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k) _kkt_mat_nnz(k) += polympc::inner_nonzeros(A, k);
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
@@ -325,10 +325,10 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            if(m_K.innerNonZeroPtr()[k] == H.innerNonZeroPtr()[k] + A.innerNonZeroPtr()[k])
+            if(m_K.innerNonZeroPtr()[k] == polympc::inner_nonzeros(H, k) + polympc::inner_nonzeros(A, k))
             {
-                std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+                std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], polympc::inner_nonzeros(H, k), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], polympc::inner_nonzeros(A, k), m_K.valuePtr() + m_K.outerIndexPtr()[k] + polympc::inner_nonzeros(H, k));
             }
             else
             {
diff --git a/src/solvers/box_admm.hpp b/src/solvers/box_admm.hpp
index f311d4b..9641164 100644
--- a/src/solvers/box_admm.hpp
+++ b/src/solvers/box_admm.hpp
@@ -247,9 +247,9 @@ public:
         /** estimate number of nonzeros */
         _kkt_mat_nnz = Eigen::VectorXi::Constant(kkt_size, 1);
         // add nonzeros from H
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, H.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k) _kkt_mat_nnz(k) += polympc::inner_nonzeros(H, k);
         // add nonzeros from A
-        std::transform(_kkt_mat_nnz.data(), _kkt_mat_nnz.data() + N, A.innerNonZeroPtr(), _kkt_mat_nnz.data(), std::plus<scalar_t>());
+        for(Eigen::Index k = 0; k < N; ++k) _kkt_mat_nnz(k) += polympc::inner_nonzeros(A, k);
 
         // reserve the space and insert values from H and A
         if(LinearSolver_UpLo == (Eigen::Upper|Eigen::Lower))
@@ -296,10 +296,10 @@ public:
         // copy H and A blocks
         for(Eigen::Index k = 0; k < N; ++k)
         {
-            if(m_K.innerNonZeroPtr()[k] == H.innerNonZeroPtr()[k] + A.innerNonZeroPtr()[k])
+            if(m_K.innerNonZeroPtr()[k] == polympc::inner_nonzeros(H, k) + polympc::inner_nonzeros(A, k))
             {
-                std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], H.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k]);
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_K.valuePtr() + m_K.outerIndexPtr()[k] + H.innerNonZeroPtr()[k]);
+                std::copy_n(H.valuePtr() + H.outerIndexPtr()[k], polympc::inner_nonzeros(H, k), m_K.valuePtr() + m_K.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], polympc::inner_nonzeros(A, k), m_K.valuePtr() + m_K.outerIndexPtr()[k] + polympc::inner_nonzeros(H, k));
             }
             else
             {
diff --git a/src/utils/helpers.hpp b/src/utils/helpers.hpp
index 05c6426..d9bba89 100644
--- a/src/utils/helpers.hpp
+++ b/src/utils/helpers.hpp
@@ -57,6 +57,13 @@ namespace polympc
     template<typename T>
     EIGEN_STRONG_INLINE void ignore_unused_var(const T& ) noexcept {}
 
+    // number of nonzeros stored in an inner vector of a sparse matrix, in compressed or uncompressed form
+    template<typename SparseMat>
+    EIGEN_STRONG_INLINE int inner_nonzeros(const SparseMat& mat, const Eigen::Index& k) noexcept
+    {
+        return mat.isCompressed() ? int(mat.outerIndexPtr()[k + 1] - mat.outerIndexPtr()[k]) : int(mat.innerNonZeroPtr()[k]);
+    }
+
     typedef std::chrono::time_point<std::chrono::system_clock> time_point;
     static EIGEN_STRONG_INLINE time_point get_time()
     {
-- 
2.43.0


From d48619f9da122846fbad4a5a3dda6d8c3c11a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 05/49] fix: accumulate the coefficients of a polynomial
 product

---
 src/polynomials/polynomial_math.hpp | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/polynomials/polynomial_math.hpp b/src/polynomials/polynomial_math.hpp
index d787c09..02c8033 100644
--- a/src/polynomials/polynomial_math.hpp
+++ b/src/polynomials/polynomial_math.hpp
@@ -48,28 +48,11 @@ typename Derived::PlainObject poly_mul(const Eigen::MatrixBase<Derived> &p1, con
     const int p2_size = Derived::RowsAtCompileTime;
     static_assert(p1_size == p2_size, "poly_mul: polynomials should be of the same order!");
 
-    using Scalar = typename Derived::Scalar;
-    Scalar eps = std::numeric_limits<Scalar>::epsilon();
-
-    /** detect nonzeros */
-    int nnz_p1, nnz_p2;
-    for(int i = 0; i < p1_size; ++i)
-    {
-        if(std::fabs(p1[i]) >= eps)
-            nnz_p1 = i;
-        if(std::fabs(p2[i]) >= eps)
-            nnz_p2 = i;
-    }
-
-    for(int i = 0; i <= nnz_p2; ++i)
+    for(int i = 0; i < p2_size; ++i)
     {
-        for(int j = 0; j <= nnz_p1; ++j)
-        {
-            /** truncate higher orders if neccessary */
-            if( (i+j) == p1_size )
-                break;
-            product[i+j] = p1[j] * p2[i];
-        }
+        /** truncate higher orders if neccessary */
+        for(int j = 0; j < p1_size - i; ++j)
+            product[i+j] += p1[j] * p2[i];
     }
 
     return product;
-- 
2.43.0


From abd1c0fea8cd3e85e7dd47c2da48f1560934de0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 06/49] fix: signs of the corner entries of the Legendre
 differentiation matrix

---
 src/polynomials/legendre.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomials/legendre.hpp b/src/polynomials/legendre.hpp
index 4ac4bdb..fa01517 100644
--- a/src/polynomials/legendre.hpp
+++ b/src/polynomials/legendre.hpp
@@ -162,8 +162,8 @@ Legendre<PolyOrder, Qtype, Scalar>::compute_diff_matrix() noexcept
     nodes_t nodes = compute_nodes();
     basis_t Ln    = compute_basis();
 
-    /** use formula from Canuto-Quarteroni */
-    D(0,0) = (POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
+    /** use formula from Canuto-Quarteroni (the nodes are in the ascending order) */
+    D(0,0) = -(POLY_ORDER + 1) * POLY_ORDER / static_cast<scalar_t>(4);
     D(POLY_ORDER, POLY_ORDER) = -D(0,0);
 
     for(Eigen::Index i = 0; i < NUM_NODES; ++i)
-- 
2.43.0


From 119f80469e94a66443c19b3d18b1af380278c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 07/49] fix: normalisation factor of the highest Chebyshev
 polynomial

---
 src/polynomials/ebyshev.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index e010e75..faf37e0 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -175,6 +175,7 @@ Chebyshev<PolyOrder, Qtype, Scalar>::compute_norm_factors() noexcept
 {
     q_weights_t w = q_weights_t::Constant(static_cast<Scalar>(Scalar(2) / M_PI));
     w[0] *= Scalar(0.5);
+    w[PolyOrder] *= Scalar(0.5); // the discrete norm of the highest polynomial on the Gauss-Lobatto grid
     return w;
 }
 
-- 
2.43.0


From 0d977d1006418a109f6c552a09e9d243c07287ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 08/49] fix: evaluate Chebyshev polynomials at and beyond the
 interval ends

---
 src/polynomials/ebyshev.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/polynomials/ebyshev.hpp b/src/polynomials/ebyshev.hpp
index faf37e0..24335ba 100644
--- a/src/polynomials/ebyshev.hpp
+++ b/src/polynomials/ebyshev.hpp
@@ -59,7 +59,7 @@ public:
 
     /** Evaluate Chebyshev polynomial of order n*/
     scalar_t eval(const scalar_t &arg, const int &n){return Tn(arg, n);}
-    static scalar_t eval(const scalar_t &arg){return std::cos(PolyOrder * std::acos(arg));}
+    static scalar_t eval(const scalar_t &arg){return Tn(arg, PolyOrder);}
 
     /** Evaluate density function associated with Chebyshev basis */
     static scalar_t weight(const scalar_t &arg){return 1.0 / std::sqrt(1 - std::pow(arg, 2));}
@@ -89,8 +89,20 @@ private:
     /** Normalisation factors */
     q_weights_t _NormFactors;
 
-    /** Evaluate Chebyshev polynomial of order n*/
-    inline scalar_t Tn(const scalar_t &arg, const int &n){return std::cos(n * std::acos(arg));}
+    /** Evaluate Chebyshev polynomial of order n (by recurrence: the argument may leave [-1, 1], e.g. by rounding)*/
+    static scalar_t Tn(const scalar_t &arg, const int &n)
+    {
+        if(n == 0)
+            return scalar_t(1);
+        scalar_t t_prev = scalar_t(1), t = arg;
+        for(int k = 1; k < n; ++k)
+        {
+            const scalar_t t_next = 2 * arg * t - t_prev;
+            t_prev = t;
+            t = t_next;
+        }
+        return t;
+    }
 };
 
 /** @brief constructor */
-- 
2.43.0


From 05af788902219db14ec6e9b8b738d5aac71e6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:30 +0000
Subject: [PATCH 09/49] fix: keep the cubic spline segment index within the
 coefficients

---
 src/polynomials/splines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomials/splines.hpp b/src/polynomials/splines.hpp
index 6f193c6..d582938 100644
--- a/src/polynomials/splines.hpp
+++ b/src/polynomials/splines.hpp
@@ -80,7 +80,7 @@ public:
         #undef min
         #undef max
 #endif
-        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols())); // clip idx stay within the spline bounds
+        idx = std::max(Eigen::Index(0), std::min(idx, m_coeffs.cols() - 1)); // clip idx stay within the spline bounds
 
         // evaluate polynomial using Horner's method
         return m_coeffs.col(idx)(0) + x * (m_coeffs.col(idx)(1) + x * (m_coeffs.col(idx)(2) + x * m_coeffs.col(idx)(3)));
-- 
2.43.0


From 25cf2b5eb339f331e2c7f159b996d8f2cecbde5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:02 +0000
Subject: [PATCH 10/49] fix: call equalities_linearised in the short
 lagrangian_gradient overload (did not compile)

---
 src/solvers/nlproblem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index ce877e7..2c5e12c 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -560,7 +560,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_impl(const Eigen::R
     nlp_eq_jacobian_t jac_c;
     nlp_ineq_jacobian_t jac_g;
     this->cost_gradient(var, p, _lagrangian, _lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
-- 
2.43.0


From 97b65c27ae3be9a5a1d502b4765a623f5ff2bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:38 +0000
Subject: [PATCH 11/49] fix: start derivative evaluations of user constraints
 and cost from zero derivatives

---
 src/solvers/nlproblem.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solvers/nlproblem.hpp b/src/solvers/nlproblem.hpp
index 2c5e12c..8557646 100644
--- a/src/solvers/nlproblem.hpp
+++ b/src/solvers/nlproblem.hpp
@@ -314,6 +314,7 @@ public:
         equalities = nlp_eq_constraints_t::Zero(NUM_EQ);
 
         m_ad_var = var;
+        m_ad_eq.setConstant(ad_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         equality_constraints<ad_scalar_t>(m_ad_var, p, m_ad_eq);
 
         /** compute value and first derivatives */
@@ -357,6 +358,7 @@ public:
         //inequalities = nlp_ineq_constraints_t::Zero(NUM_INEQ);
 
         m_ad_var = var;
+        m_ad_ineq.setConstant(ad_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         inequality_constraints<ad_scalar_t>(m_ad_var, p, m_ad_ineq);
 
         // compute value and first derivatives
@@ -519,7 +521,7 @@ void ProblemBase<Derived, MatrixFormat>::cost_gradient_hessian_impl(const Eigen:
     _cost = scalar_t(0);
     _cost_gradient = nlp_variable_t::Zero(VAR_SIZE);
     hessian  = nlp_hessian_t::Zero(VAR_SIZE, VAR_SIZE);
-    m_ad2_cost.value().value() = 0;
+    m_ad2_cost = ad2_scalar_t(scalar_t(0));
 
     // set variable values
     for(int i = 0; i < VAR_SIZE; i++)
@@ -645,6 +647,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_hessian_impl(const
         m_ad2_var(i).value().value() = var(i);
 
     //process equalities
+    ad2_eq.setConstant(ad2_scalar_t(scalar_t(0)));
     equality_constraints<ad2_scalar_t>(m_ad2_var, p, ad2_eq);
 
     for(int n = 0; n < NUM_EQ; ++n)
@@ -660,6 +663,7 @@ void ProblemBase<Derived, MatrixFormat>::lagrangian_gradient_hessian_impl(const
     }
 
     //process inequalities
+    ad2_ineq.setConstant(ad2_scalar_t(scalar_t(0)));
     inequality_constraints<ad2_scalar_t>(m_ad2_var, p, ad2_ineq);
 
     //for(int n = NUM_EQ; n < NUM_EQ + NUM_INEQ; ++n)
-- 
2.43.0


From 0830563e7fcdd62fb7cffc8c779620a25bc876e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:26 +0000
Subject: [PATCH 12/49] fix: short lagrangian_gradient and
 lagrangian_gradient_hessian of ContinuousOCP (did not compile)

---
 src/control/continuous_ocp.hpp | 114 ++++++++-------------------------
 1 file changed, 28 insertions(+), 86 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 3e33c58..05e0f3c 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -630,9 +630,29 @@ public:
                         Eigen::Ref<nlp_constraints_t> g, nlp_jacobian_t& jac_g) noexcept;
 
     /** lagrangian hessian */
-    void lagrangian_gradient_hessian(const Eigen::Ref<const nlp_variable_t>& var, const Eigen::Ref<const static_parameter_t>& p,
-                                     const Eigen::Ref<const nlp_dual_t>& lam, scalar_t &_lagrangian, Eigen::Ref<nlp_variable_t> lag_gradient,
-                                     Eigen::Ref<nlp_hessian_t> lag_hessian) noexcept;
+    template<int T = MatrixFormat>
+    typename std::enable_if<T == DENSE>::type
+    lagrangian_gradient_hessian(const Eigen::Ref<const nlp_variable_t>& var, const Eigen::Ref<const static_parameter_t>& p,
+                                const Eigen::Ref<const nlp_dual_t>& lam, scalar_t &_lagrangian, Eigen::Ref<nlp_variable_t> lag_gradient,
+                                Eigen::Ref<nlp_hessian_t> lag_hessian) noexcept
+    {
+        nlp_variable_t cost_gradient(static_cast<int>(VAR_SIZE));
+        nlp_constraints_t g(static_cast<int>(NUM_EQ + NUM_INEQ));
+        nlp_jacobian_t jac_g(static_cast<int>(NUM_EQ + NUM_INEQ), static_cast<int>(VAR_SIZE));
+        lagrangian_gradient_hessian(var, p, lam, _lagrangian, lag_gradient, lag_hessian, cost_gradient, g, jac_g);
+    }
+
+    template<int T = MatrixFormat>
+    typename std::enable_if<T == SPARSE>::type
+    lagrangian_gradient_hessian(const Eigen::Ref<const nlp_variable_t>& var, const Eigen::Ref<const static_parameter_t>& p,
+                                const Eigen::Ref<const nlp_dual_t>& lam, scalar_t &_lagrangian, Eigen::Ref<nlp_variable_t> lag_gradient,
+                                nlp_hessian_t& lag_hessian) noexcept
+    {
+        nlp_variable_t cost_gradient(static_cast<int>(VAR_SIZE));
+        nlp_constraints_t g(static_cast<int>(NUM_EQ + NUM_INEQ));
+        nlp_jacobian_t jac_g(static_cast<int>(NUM_EQ + NUM_INEQ), static_cast<int>(VAR_SIZE));
+        lagrangian_gradient_hessian(var, p, lam, _lagrangian, lag_gradient, lag_hessian, cost_gradient, g, jac_g);
+    }
 
 
     /** dense implementation */
@@ -1940,12 +1960,12 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const
                                                                           const Eigen::Ref<const nlp_dual_t> &lam, scalar_t &_lagrangian,
                                                                           Eigen::Ref<nlp_variable_t> lag_gradient) noexcept
 {
-    nlp_eq_constraints_t c;
-    nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
+    nlp_eq_constraints_t c(static_cast<int>(NUM_EQ));
+    nlp_ineq_constraints_t g(static_cast<int>(NUM_INEQ));
+    nlp_eq_jacobian_t jac_c(static_cast<int>(NUM_EQ), static_cast<int>(VAR_SIZE));
+    nlp_ineq_jacobian_t jac_g(static_cast<int>(NUM_INEQ), static_cast<int>(VAR_SIZE));
     this->cost_gradient(var, p, _lagrangian, lag_gradient);
-    this->equalities_linerised(var, p, c, jac_c);
+    this->equalities_linearised(var, p, c, jac_c);
     this->inequalities_linearised(var, p, g, jac_g);
     //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
     /** @badcode: replace with block products ???*/
@@ -2016,84 +2036,6 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient(const Eigen
     lag_gradient += lam.template tail<NUM_BOX>();
 }
 
-template<typename OCP, typename Approximation, int MatrixFormat>
-void ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(const Eigen::Ref<const nlp_variable_t>& var,
-                                                                    const Eigen::Ref<const static_parameter_t>& p,
-                                                                    const Eigen::Ref<const nlp_dual_t>& lam,
-                                                                    scalar_t &_lagrangian, Eigen::Ref<nlp_variable_t> lag_gradient,
-                                                                    Eigen::Ref<nlp_hessian_t> lag_hessian) noexcept
-{
-    nlp_eq_constraints_t c;
-    nlp_ineq_constraints_t g;
-    nlp_eq_jacobian_t jac_c;
-    nlp_ineq_jacobian_t jac_g;
-    this->cost_gradient_hessian(var, p, _lagrangian, lag_gradient, lag_hessian);
-    this->equalities_linerised(var, p, c, jac_c);
-    this->inequalities_linearised(var, p, g, jac_g);
-    //_lagrangian += c.dot(lam.template head<NUM_EQ>()); // do not compute at all??
-    /** @badcode: replace with block products ???*/
-    lag_gradient.noalias() += jac_c.transpose() * lam.template head<NUM_EQ>();
-    lag_gradient.noalias() += jac_g.transpose() * lam.template segment<NUM_INEQ>(NUM_EQ);
-    lag_gradient += lam.template tail<VAR_SIZE>();
-
-    /** hessian part */
-    Eigen::Matrix<scalar_t, NX + NU + NP, NX + NU + NP> hes = Eigen::Matrix<scalar_t, NX + NU + NP, NX + NU + NP>::Zero();
-    const scalar_t t_scale = (t_stop - t_start) / (2 * NUM_SEGMENTS);
-    Eigen::Matrix<ad2_scalar_t, NX, 1> ad2_xdot;
-    Eigen::Matrix<ad2_scalar_t, NG, 1> ad2_g;
-
-    for(int i = 0; i < NP; i++)
-        m_ad2_p(i).value().value() = var.template tail<NP>()(i);
-
-    for(int k = 0; k < NUM_NODES; k++)
-    {
-        for(int i = 0; i < NX; i++)
-            m_ad2_x(i).value().value() = var.template segment<NX>(k * NX)(i);
-        for(int i = 0; i < NU; i++)
-            m_ad2_u(i).value().value() = var.template segment<NU>(k * NU + VARX_SIZE)(i);
-
-        // hessian accumulator
-        hes = Eigen::Matrix<scalar_t, NX + NU + NP, NX + NU + NP>::Zero();
-
-        //dynamics contribution
-        dynamics<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_xdot);
-
-        for(int n = 0; n < NX; n++)
-        {
-            scalar_t coeff = -lam(n + k * NX) * t_scale;
-            for(int i = 0; i < NX + NU + NP; ++i)
-            {
-                hes.col(i).noalias() += coeff * ad2_xdot(n).derivatives()(i).derivatives();
-            }
-        }
-
-        // constraints contribution
-        inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_g);
-        for(int n = 0; n < NG; n++)
-        {
-            scalar_t coeff = lam(n + k * NG + NUM_EQ);
-            for(int i = 0; i < NX + NU + NP; ++i)
-                hes.col(i).noalias() += coeff * ad2_g(n).derivatives()(i).derivatives();
-        }
-        //hes.transposeInPlace(); // if 2nd derivative is not continuous
-
-        /** append Lagrangian Hessian */
-        lag_hessian.template block<NX, NX>(k * NX, k * NX) += hes.template topLeftCorner<NX, NX>();
-        lag_hessian.template block<NU, NU>(k * NU + VARX_SIZE, k * NU + VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-        lag_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
-
-        lag_hessian.template block<NX, NU>(k * NX, k * NU + VARX_SIZE) += hes. template block<NX, NU>(0, NX);
-        lag_hessian.template block<NU, NX>(k * NU + VARX_SIZE, k * NX) += hes.template block<NU, NX>(NX, 0);
-
-        lag_hessian.template block<NX, NP>(k * NX, VARX_SIZE + VARU_SIZE) += hes.template block<NX, NP>(0, NX + NU);
-        lag_hessian.template block<NP, NX>(VARX_SIZE + VARU_SIZE, k * NX) += hes.template block<NP, NX>(NX + NU, 0);
-
-        lag_hessian.template block<NU, NP>(k * NU + VARX_SIZE, VARX_SIZE + VARU_SIZE) += hes.template block<NU, NP>(NX, NX + NU);
-        lag_hessian.template block<NP, NU>(VARX_SIZE + VARU_SIZE, k * NU + VARX_SIZE) += hes.template block<NP, NU>(NX + NU, NX);
-    }
-}
-
-
 template<typename OCP, typename Approximation, int MatrixFormat>
 template<int T>
 typename std::enable_if<T == DENSE>::type
-- 
2.43.0


From 0e69c9695cb5a496cafd8cf7b1fc5e98cef7b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 13/49] fix: read the terminal control with NU entries in the
 Mayer Hessian

---
 src/control/continuous_ocp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 05e0f3c..15b31e1 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1352,7 +1352,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1612,7 +1612,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
@@ -1869,7 +1869,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NX; i++)
         m_ad2_x(i).value().value() = var.template head<NX>()(i);
     for(int i = 0; i < NU; i++)
-        m_ad2_u(i).value().value() = var.template segment<NX>(VARX_SIZE)(i);
+        m_ad2_u(i).value().value() = var.template segment<NU>(VARX_SIZE)(i);
 
     mayer_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(0), mayer_cost);
     cost += mayer_cost.value().value();
-- 
2.43.0


From e974455b9eec377db4037f642084ef2e533459fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 14/49] fix: add the parameter block of the Mayer Hessian to
 the parameter block

---
 src/control/continuous_ocp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 15b31e1..95ff04b 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1371,7 +1371,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     /** diagonal  */
     cost_hessian.template topLeftCorner<NX, NX>() += hes.template topLeftCorner<NX, NX>();
     cost_hessian.template block<NU, NU>(VARX_SIZE, VARX_SIZE) += hes.template block<NU, NU>(NX, NX);
-    cost_hessian.template bottomLeftCorner<NP, NP>() += hes.template bottomLeftCorner<NP, NP>();
+    cost_hessian.template bottomRightCorner<NP, NP>() += hes.template bottomRightCorner<NP, NP>();
 
     /** dxdu */
     cost_hessian.template block<NX, NU>(0, VARX_SIZE) += hes.template block<NX, NU>(0, NX);
-- 
2.43.0


From 95b46a72685bb231d1fb86f8767fad4aa001dc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:27 +0000
Subject: [PATCH 15/49] fix: parameter columns of the sparse cost Hessian on
 first evaluation

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 95ff04b..03e829f 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1557,7 +1557,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
                     for(Eigen::Index r = 0; r < NX; ++r)
-                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NP);
+                        cost_hessian.insert((k + shift) * NX + r, VARX_SIZE + VARU_SIZE + j) = hes(r, j + NX + NU);
                 }
 
                 /** du^2 */
@@ -1592,7 +1592,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 for(Eigen::Index j = 0; j < NU; ++j)
                 {
                     for(Eigen::Index r = 0; r < NP; ++r)
-                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NU);
+                        cost_hessian.insert(VARX_SIZE + VARU_SIZE + r, (k + shift) * NU + VARX_SIZE + j) = hes(r + NX + NU, j + NX);
                 }
 
             }
-- 
2.43.0


From 1f6b16c2880947540bf01526687cad41c7243592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:59 +0000
Subject: [PATCH 16/49] fix: control-parameter entries of junction nodes in the
 first sparse cost Hessian

---
 src/control/continuous_ocp.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 03e829f..e8c234c 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1501,11 +1501,9 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
                 /** dudp */
                 for(Eigen::Index j = 0; j < NP; ++j)
                 {
-                    std::transform(cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU + NU,
-                                   hes.col(j + NX + NU).data() + NX,
-                                   cost_hessian.valuePtr() + cost_hessian.outerIndexPtr()[VARX_SIZE + VARU_SIZE + j] + VARX_SIZE + (k + shift) * NU,
-                                   std::plus<scalar_t>());
+                    // the states of the later nodes are not inserted yet: address the entries by row
+                    for(Eigen::Index r = 0; r < NU; ++r)
+                        cost_hessian.coeffRef((k + shift) * NU + VARX_SIZE + r, VARX_SIZE + VARU_SIZE + j) += hes(r + NX, j + NX + NU);
                 }
                 /** dp^2 */
                 /**
-- 
2.43.0


From 32edc847291d94a59035f9e4f10d662e54e05c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:59 +0000
Subject: [PATCH 17/49] fix: start derivative evaluations of optimal control
 functions from zero derivatives

---
 src/control/continuous_ocp.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index e8c234c..633b752 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -558,6 +558,7 @@ public:
             m_ad_x = var.template segment<NX>(k * NX);
             m_ad_u = var.template segment<NU>(k * NU + VARX_SIZE);
 
+            m_ad_g.setConstant(ad_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
             inequality_constraints<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(k), m_ad_g);
 
             // compute value and first derivatives
@@ -874,6 +875,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::equalities_linearised(const Eig
         m_ad_x = var.template segment<NX>(k);
         m_ad_u = var.template segment<NU>(n + VARX_SIZE);
 
+        m_ad_y.setConstant(ad_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         dynamics<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(t), m_ad_y);
 
         /** compute value and first derivatives */
@@ -940,6 +942,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_equalities_linearised_spa
         m_ad_x = var.template segment<NX>(k);
         m_ad_u = var.template segment<NU>(n + VARX_SIZE);
 
+        m_ad_y.setConstant(ad_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         dynamics<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(t), m_ad_y);
 
         /** compute value and first derivatives */
@@ -1002,6 +1005,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_equalities_linearised_spa
         m_ad_x = var.template segment<NX>(k);
         m_ad_u = var.template segment<NU>(n + VARX_SIZE);
 
+        m_ad_y.setConstant(ad_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         dynamics<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(t), m_ad_y);
 
         /** compute value and first derivatives */
@@ -1086,6 +1090,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
         m_ad_x = var.template segment<NX>(k * NX);
         m_ad_u = var.template segment<NU>(k * NU + VARX_SIZE);
 
+        m_ad_g.setConstant(ad_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         inequality_constraints<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(k), m_ad_g);
 
         /** compute value and first derivatives */
@@ -1128,6 +1133,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
         m_ad_x = var.template segment<NX>(k * NX);
         m_ad_u = var.template segment<NU>(k * NU + VARX_SIZE);
 
+        m_ad_g.setConstant(ad_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         inequality_constraints<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(k), m_ad_g);
 
         /** compute value and first derivatives */
@@ -1237,7 +1243,6 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient(const Eigen:
     int t = 0;
     /** not generic for other collocation schemes : redo*/
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-    m_ad_cost.value() = 0;
     for (int s = 0; s < NUM_SEGMENTS; s++)
     {
         int shift = s * POLY_ORDER;
@@ -1246,6 +1251,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient(const Eigen:
         {
             m_ad_x = var.template segment<NX>((k + shift) * NX);
             m_ad_u = var.template segment<NU>((k + shift) * NU + VARX_SIZE);
+            m_ad_cost = ad_scalar_t(scalar_t(0)); // assigning a plain number keeps derivatives
             lagrange_term<ad_scalar_t>(m_ad_x, m_ad_u, m_ad_p, p, time_nodes(t + shift), m_ad_cost);
             cost += t_scale * m_quad_weights(k) * m_ad_cost.value();
             cost_gradient. template segment<NX>((k + shift) * NX).noalias() +=
@@ -1290,7 +1296,6 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
     for(int i = 0; i < NP; i++)
         m_ad2_p(i).value().value() = var.template tail<NP>()(i);
 
-    m_ad2_cost.value().value() = 0;
 
     for (int s = 0; s < NUM_SEGMENTS; s++)
     {
@@ -1305,6 +1310,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::cost_gradient_hessian(const Eig
             for(int i = 0; i < NU; i++)
                 m_ad2_u(i).value().value() = var.template segment<NU>((k + shift) * NU + VARX_SIZE)(i);
 
+            m_ad2_cost = ad2_scalar_t(scalar_t(0)); // assigning a plain number keeps derivatives
             lagrange_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(t + shift), m_ad2_cost);
             cost += t_scale * m_quad_weights(k) * m_ad2_cost.value().value();
 
@@ -1420,7 +1426,6 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
     for(int i = 0; i < NP; i++)
         m_ad2_p(i).value().value() = var.template tail<NP>()(i);
 
-    m_ad2_cost.value().value() = 0;
     for (int s = 0; s < NUM_SEGMENTS; s++)
     {
         int shift = s * POLY_ORDER;
@@ -1434,6 +1439,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse(con
             for(int i = 0; i < NU; i++)
                 m_ad2_u(i).value().value() = var.template segment<NU>((k + shift) * NU + VARX_SIZE)(i);
 
+            m_ad2_cost = ad2_scalar_t(scalar_t(0)); // assigning a plain number keeps derivatives
             lagrange_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(t + shift), m_ad2_cost);
             cost += t_scale * m_quad_weights(k) * m_ad2_cost.value().value();
 
@@ -1719,7 +1725,6 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
     for(int i = 0; i < NP; i++)
         m_ad2_p(i).value().value() = var.template tail<NP>()(i);
 
-    m_ad2_cost.value().value() = 0;
     for (int s = 0; s < NUM_SEGMENTS; s++)
     {
         int shift = s * POLY_ORDER;
@@ -1733,6 +1738,7 @@ void ContinuousOCP<OCP, Approximation, MatrixFormat>::_cost_grad_hess_sparse_upd
             for(int i = 0; i < NU; i++)
                 m_ad2_u(i).value().value() = var.template segment<NU>((k + shift) * NU + VARX_SIZE)(i);
 
+            m_ad2_cost = ad2_scalar_t(scalar_t(0)); // assigning a plain number keeps derivatives
             lagrange_term<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(t + shift), m_ad2_cost);
             cost += t_scale * m_quad_weights(k) * m_ad2_cost.value().value();
 
@@ -2076,6 +2082,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         hes = Eigen::Matrix<scalar_t, NX + NU + NP, NX + NU + NP>::Zero();
 
         //dynamics contribution
+        ad2_xdot.setConstant(ad2_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         dynamics<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_xdot);
 
         for(int n = 0; n < NX; n++)
@@ -2088,6 +2095,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         }
 
         // constraints contribution
+        ad2_g.setConstant(ad2_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
@@ -2177,6 +2185,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         hes = Eigen::Matrix<scalar_t, NX + NU + NP, NX + NU + NP>::Zero();
 
         //dynamics contribution
+        ad2_xdot.setConstant(ad2_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         dynamics<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, static_cast<ad2_scalar_t>(time_nodes(k)), ad2_xdot);
 
         for(int n = 0; n < NX; n++)
@@ -2189,6 +2198,7 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::lagrangian_gradient_hessian(con
         }
 
         // constraints contribution
+        ad2_g.setConstant(ad2_scalar_t(scalar_t(0))); // assigning a plain number keeps derivatives
         inequality_constraints<ad2_scalar_t>(m_ad2_x, m_ad2_u, m_ad2_p, p, time_nodes(k), ad2_g);
         for(int n = 0; n < NG; n++)
         {
-- 
2.43.0


From 0e394fb6198fc32b429eeb116dec3ba7e4797748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:47 +0000
Subject: [PATCH 18/49] fix: size the inequality Jacobian block of the sparse
 update by NG

---
 src/control/continuous_ocp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index 633b752..abb3cc5 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -1123,8 +1123,8 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::_inequalities_linearised_sparse
                                                                                         nlp_ineq_jacobian_t &jacobian) noexcept
 {
     eigen_assert(jacobian.outerSize() == VAR_SIZE);
-    /** compute jacoabian of dynamics */
-    Eigen::Matrix<scalar_t, NX, NX + NU + NP> jac;
+    /** compute jacoabian of inequality constraints */
+    Eigen::Matrix<scalar_t, NG, NX + NU + NP> jac;
 
     /** initialize AD veriables */
     m_ad_p = var.template segment<NP>(VARX_SIZE + VARU_SIZE);
-- 
2.43.0


From 6bcd0b6e7510ae6161645d5d0de05cbc88b8c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 19/49] fix: leave the sparse Hessian unchanged when the step
 is too small to define an update

---
 src/control/continuous_ocp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index abb3cc5..e07b170 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2267,6 +2267,10 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
+    // skip the update if the step is too small to define it (see BFGS_update)
+    if(std::max(sy, scalar_t(0.2) * scaling) < std::numeric_limits<scalar_t>::epsilon())
+        return;
+
     // create temporaries to store
     Eigen::Matrix<scalar_t, NX, NX> hes_xx;
     Eigen::Matrix<scalar_t, NU, NU> hes_uu;
-- 
2.43.0


From fb15da84daf989ff92561bcd45b883f3ec4c5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 20/49] fix: quasi-Newton updates divided by zero when the
 Hessian has no curvature along the step

With B = 0 (for instance a linear cost) s'Bs vanishes and the damped update
produced NaN Hessians and iterates.
---
 src/control/continuous_ocp.hpp | 4 ++--
 src/solvers/bfgs.hpp           | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/control/continuous_ocp.hpp b/src/control/continuous_ocp.hpp
index e07b170..e971608 100644
--- a/src/control/continuous_ocp.hpp
+++ b/src/control/continuous_ocp.hpp
@@ -2267,8 +2267,8 @@ ContinuousOCP<OCP, Approximation, MatrixFormat>::hessian_update_impl(Eigen::Ref<
     const scalar_t sy_inv = scalar_t(1) / sy;
     nlp_variable_t r;
 
-    // skip the update if the step is too small to define it (see BFGS_update)
-    if(std::max(sy, scalar_t(0.2) * scaling) < std::numeric_limits<scalar_t>::epsilon())
+    // skip the update if the step is too small or the curvature along it vanishes (see BFGS_update)
+    if(std::max(sy, scalar_t(0.2) * scaling) < std::numeric_limits<scalar_t>::epsilon() || scaling == scalar_t(0))
         return;
 
     // create temporaries to store
diff --git a/src/solvers/bfgs.hpp b/src/solvers/bfgs.hpp
index ac9e475..bd8d1ce 100644
--- a/src/solvers/bfgs.hpp
+++ b/src/solvers/bfgs.hpp
@@ -43,7 +43,8 @@ void BFGS_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, con
         sr = sy;
     }
 
-    if (sr < std::numeric_limits<Scalar>::epsilon()) {
+    // the update is not defined without curvature along the step (for instance B = 0)
+    if (sr < std::numeric_limits<Scalar>::epsilon() || sBs == Scalar(0)) {
         return;
     }
 
-- 
2.43.0


From 8339a376bccbfcff95be54bd7e552e0c08aa257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 21/49] fix: SQP reported the cost of another point when the
 line search was exhausted

---
 src/solvers/sqp_base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solvers/sqp_base.hpp b/src/solvers/sqp_base.hpp
index d1b5ff9..01251dc 100644
--- a/src/solvers/sqp_base.hpp
+++ b/src/solvers/sqp_base.hpp
@@ -415,6 +415,11 @@ SQPBase<Derived, Problem, QPSolver, Preconditioner>::step_size_selection_impl(co
             alpha = tau * alpha;
     }
 
+    // all trials were rejected: the step is taken with the last step length
+    x_step.noalias() = alpha * p;
+    x_step += this->m_x;
+    this->problem.cost(x_step, this->m_p, m_cost); //log cost
+
     return alpha;
 }
 
-- 
2.43.0


From 6f089d34acf3548a3d9fd4081c996716653df667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 22/49] fix: SR1_update divided by zero for a null step or a
 matching secant

---
 src/solvers/sr1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index 3dd289b..c18192d 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -29,7 +29,7 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
     const Scalar scaling = v.dot(s);
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
     // safeguard
-    if(std::abs(scaling) >= eps * s.template lpNorm<2>() * v.template lpNorm<2>())
+    if(std::abs(scaling) > eps * s.template lpNorm<2>() * v.template lpNorm<2>())
         B.noalias() += v * v.transpose() / scaling;
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
-- 
2.43.0


From dab33c82ba4198a8e4c5bbfd592f4323f8abee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 23/49] fix: sparse Ruiz equilibration divided by zero for a
 vanishing cost

---
 src/solvers/qp_preconditioners.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 8cd4eef..7f92533 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -286,7 +286,9 @@ public:
 
             // update gamma factor
             for(int i = 0; i < N; ++i) m_D(i) = maxxCoeff(H.col(i).cwiseAbs());
-            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h.template lpNorm<Eigen::Infinity>());
+            scalar_t h_inf = h.template lpNorm<Eigen::Infinity>();
+            h_inf = h_inf > std::numeric_limits<scalar_t>::epsilon() ? h_inf : scalar_t(1.0);
+            gamma_scaling = scalar_t(1) / std::max(m_D.mean(), h_inf);
             H *= gamma_scaling;
             h *= gamma_scaling;
             m_c *= gamma_scaling;
-- 
2.43.0


From 895b4b77ea4ede798c583279dc11940ca70ad464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 24/49] fix: Ruiz equilibration took the maximum of an empty
 vector without constraints

---
 src/solvers/qp_preconditioners.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index 7f92533..e068076 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -176,13 +176,13 @@ public:
             gradient_t x = A.colwise().template lpNorm<Eigen::Infinity>();
             m_D = m_D.cwiseMax(x);
 
-            scaling_norm = std::max(m_D.maxCoeff(), m_E.maxCoeff());
+            scaling_norm = (M > 0) ? std::max(m_D.maxCoeff(), m_E.maxCoeff()) : m_D.maxCoeff();
 
             // avoid singularities
             if (m_D.minCoeff() < _approx_zero)
                 for (int k = 0; k < N; ++k) {if (m_D(k) < _approx_zero) m_D(k) = scalar_t(1.0);}
 
-            if (m_E.minCoeff() < _approx_zero)
+            if ((M > 0) && m_E.minCoeff() < _approx_zero)
                 for (int k = 0; k < M; ++k) {if (m_E(k) < _approx_zero) m_E(k) = scalar_t(1.0);}
 
             // compute diagonal scaling factors
@@ -263,13 +263,13 @@ public:
 
             m_D = m_D.cwiseMax(x);
 
-            scaling_norm = std::max(m_D.maxCoeff(), m_E.maxCoeff());
+            scaling_norm = (M > 0) ? std::max(m_D.maxCoeff(), m_E.maxCoeff()) : m_D.maxCoeff();
 
             // avoid singularities
             if (m_D.minCoeff() < _approx_zero)
                 for (int k = 0; k < N; ++k) {if (m_D(k) < _approx_zero) m_D(k) = scalar_t(1.0);}
 
-            if (m_E.minCoeff() < _approx_zero)
+            if ((M > 0) && m_E.minCoeff() < _approx_zero)
                 for (int k = 0; k < M; ++k) {if (m_E(k) < _approx_zero) m_E(k) = scalar_t(1.0);}
 
             // compute diagonal scaling factors
-- 
2.43.0


From cb352c3c29ab86dfe5fc94c31c619aecc15c900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 25/49] fix: a full line search filter kept entries dominated
 by the added one

---
 src/solvers/line_search.hpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/solvers/line_search.hpp b/src/solvers/line_search.hpp
index 647eedc..d7557da 100644
--- a/src/solvers/line_search.hpp
+++ b/src/solvers/line_search.hpp
@@ -76,19 +76,15 @@ public:
     //
     inline void add(const scalar_t& cost, const scalar_t& constraint) noexcept
     {
-        if(m_filter.size() < max_depth)
-        {   // remove the points if the candidate point dominates them
-            //m_filter.remove_if([cost, constraint](const filter_pair_t& candidate){return (candidate.first <= cost && candidate.second <= constraint);});
-            m_filter.remove_if(dominated_by<scalar_t>(cost, constraint));
-            m_filter.emplace_front(cost, constraint);
-        }
-        else
-        {
-            // clear the last element and push front
-            //m_filter.sort();
+        // remove the points if the candidate point dominates them
+        //m_filter.remove_if([cost, constraint](const filter_pair_t& candidate){return (candidate.first <= cost && candidate.second <= constraint);});
+        m_filter.remove_if(dominated_by<scalar_t>(cost, constraint));
+
+        // clear the last element if the filter is full
+        if(m_filter.size() >= max_depth)
             m_filter.pop_back();
-            m_filter.emplace_front(cost, constraint);
-        }
+
+        m_filter.emplace_front(cost, constraint);
     }
     //
     inline void remove_one() noexcept
-- 
2.43.0


From 692253f013fe7a87b138b4f51dcb941fd70fcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 26/49] fix: sparse Ruiz unscale lost entries of a single-row
 constraint Jacobian

---
 src/solvers/qp_preconditioners.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/qp_preconditioners.hpp b/src/solvers/qp_preconditioners.hpp
index e068076..aacd598 100644
--- a/src/solvers/qp_preconditioners.hpp
+++ b/src/solvers/qp_preconditioners.hpp
@@ -393,7 +393,7 @@ public:
             Eigen::Ref<gradient_t> l, Eigen::Ref<gradient_t> u) const noexcept
     {
         H = scalar_t(1 / m_c) * (D.cwiseInverse()).asDiagonal() * H * (D.cwiseInverse()).asDiagonal();
-        A = (E.cwiseInverse()).asDiagonal() * A * (D.cwiseInverse()).asDiagonal();
+        A = (E.cwiseInverse()).asDiagonal() * (A * (D.cwiseInverse()).asDiagonal());
         H.uncompress();
         A.uncompress();
         h.noalias() = scalar_t(1 / m_c) * h.cwiseProduct(D.cwiseInverse());
-- 
2.43.0


From cde0f9f59ae6a6d35bc48c84fe8d4532e9060f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 27/49] fix: MPC time accessors ignored the start of the
 horizon

---
 src/control/mpc_wrapper.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/control/mpc_wrapper.hpp b/src/control/mpc_wrapper.hpp
index 8d05fa9..a6a5481 100644
--- a/src/control/mpc_wrapper.hpp
+++ b/src/control/mpc_wrapper.hpp
@@ -47,7 +47,7 @@ public:
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
 
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        compute_basis();
         sgm_length = (m_solver.get_problem().t_stop - m_solver.get_problem().t_start) / num_segms;
         nodes_per_segm = std::floor(num_nodes / num_segms);
     }
@@ -73,6 +73,21 @@ public:
     scalar_t sgm_length{1.0};
     int nodes_per_segm{1};
 
+private:
+    /** the interpolation basis of a segment uses the time since the start of the segment */
+    inline void compute_basis() noexcept
+    {
+        const typename OCP::nodes_t local_nodes = (time_nodes.array() - this->ocp().t_start).matrix();
+        polympc::LagrangeSpline::compute_lagrange_basis(local_nodes, m_basis);
+    }
+    /** index of the segment that contains time t (clipped to stay within the spline bounds) */
+    inline Eigen::Index segment_index(const scalar_t& t) const noexcept
+    {
+        const Eigen::Index idx = (Eigen::Index)std::floor((t - this->ocp().t_start) / sgm_length);
+        return std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1));
+    }
+public:
+
     /** set MPC optmisation limits */
     inline void set_time_limits(const scalar_t& t0, const scalar_t& tf) noexcept
     {
@@ -81,7 +96,7 @@ public:
         // update time grid and Lagrange interpolator
         time_grid = this->ocp().time_nodes.reverse();
         time_nodes = time_grid.template head<OCP::nodes_t::RowsAtCompileTime>();
-        polympc::LagrangeSpline::compute_lagrange_basis(time_nodes, m_basis);
+        compute_basis();
         sgm_length = (tf - t0) / num_segms;
     }
 
@@ -245,10 +260,9 @@ public:
     inline state_t solution_x_at(const scalar_t& t) const noexcept
     {
         auto x_reshaped = solution_x_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
-        idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
+        const Eigen::Index idx = segment_index(t);
 
-        state_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, x_reshaped.template block<nx,
+        state_t state = polympc::LagrangeSpline::eval(t - this->ocp().t_start - idx * sgm_length, x_reshaped.template block<nx,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
@@ -271,10 +285,9 @@ public:
     inline control_t solution_u_at(const scalar_t& t) const noexcept
     {
         auto u_reshaped = solution_u_reshaped();
-        Eigen::Index idx = (Eigen::Index)std::floor( t / sgm_length);
-        idx = std::max(Eigen::Index(0), std::min(idx, (Eigen::Index)num_segms - 1)); // clip idx to stay within the spline bounds
+        const Eigen::Index idx = segment_index(t);
 
-        control_t state = polympc::LagrangeSpline::eval(t - idx * sgm_length, u_reshaped.template block<nu,
+        control_t state = polympc::LagrangeSpline::eval(t - this->ocp().t_start - idx * sgm_length, u_reshaped.template block<nu,
                                                       OCP::nodes_t::RowsAtCompileTime>(0, idx * nodes_per_segm), m_basis);
 
         return state;
-- 
2.43.0


From bbd8405582242cfb56f7a916727c9dcd2686c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 28/49] fix: collocation functors constructed from user
 functions ignored them and stayed uninitialised

---
 src/control/cost_collocation.hpp       | 11 ++++++++++-
 src/control/ode_collocation.hpp        |  9 ++++++++-
 src/control/sparse_ode_collocation.hpp | 10 +++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 207802d..2ba1083 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -109,7 +109,7 @@ public:
 
 
     cost_collocation();
-    cost_collocation(const LagrangeTerm &L, const MayerTerm &M){}
+    cost_collocation(const LagrangeTerm &L, const MayerTerm &M);
     ~cost_collocation(){}
 
 private:
@@ -129,6 +129,15 @@ cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::cost_colloca
     initialize_second_derivatives();
 }
 
+template<typename LagrangeTerm, typename MayerTerm, typename Polynomial, int NumSegments>
+cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::cost_collocation(const LagrangeTerm &L, const MayerTerm &M) :
+    m_Lagrange(L), m_Mayer(M)
+{
+    m_weights = m_basis_f.CCQWeights();
+    initialize_derivatives();
+    initialize_second_derivatives();
+}
+
 
 template<typename LagrangeTerm, typename MayerTerm, typename Polynomial, int NumSegments>
 void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::operator ()(const var_t &var, Scalar &cost_value,
diff --git a/src/control/ode_collocation.hpp b/src/control/ode_collocation.hpp
index f6a2582..4d9b4ce 100644
--- a/src/control/ode_collocation.hpp
+++ b/src/control/ode_collocation.hpp
@@ -44,7 +44,7 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    ode_collocation(const Dynamics &_f){}
+    ode_collocation(const Dynamics &_f);
     ode_collocation();
     ~ode_collocation(){}
 
@@ -88,6 +88,13 @@ ode_collocation<Dynamics, Polynomial, NumSegments>::ode_collocation()
     initialize_derivatives();
 }
 
+template <typename Dynamics, typename Polynomial, int NumSegments>
+ode_collocation<Dynamics, Polynomial, NumSegments>::ode_collocation(const Dynamics &_f) : m_f(_f)
+{
+    compute_diff_matrix();
+    initialize_derivatives();
+}
+
 
 template <typename Dynamics, typename Polynomial, int NumSegments>
 void ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_matrix()
diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 9ac6c23..f338006 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -47,7 +47,7 @@ public:
     /** composite differentiation matrix */
     using comp_diff_mat_t = Eigen::SparseMatrix<Scalar>; //Eigen::Matrix<Scalar, VARX_SIZE, VARX_SIZE>;
 
-    sparse_ode_collocation(const Dynamics &_f){}
+    sparse_ode_collocation(const Dynamics &_f);
     sparse_ode_collocation();
     ~sparse_ode_collocation(){}
 
@@ -97,6 +97,14 @@ sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::sparse_ode_collocatio
     initialize_derivatives();
 }
 
+template <typename Dynamics, typename Polynomial, int NumSegments>
+sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::sparse_ode_collocation(const Dynamics &_f) : m_f(_f)
+{
+    compute_diff_matrix();
+    compute_inner_nnz();
+    initialize_derivatives();
+}
+
 
 template <typename Dynamics, typename Polynomial, int NumSegments>
 void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_matrix()
-- 
2.43.0


From 55fc034990084429f132dbdd025421fd2f19e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 29/49] fix: sparse_ode_collocation assumed a differentiation
 matrix without zeros and a matrix it had filled before

---
 src/control/sparse_ode_collocation.hpp | 41 +++++++++++---------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index f338006..4d253c9 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -110,32 +110,25 @@ template <typename Dynamics, typename Polynomial, int NumSegments>
 void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_diff_matrix()
 {
     diff_mat_t D = m_basis_f.D();
-    Eigen::SparseMatrix<Scalar> E(NX, NX); //= Eigen::Matrix<Scalar, NX, NX>::Identity().sparseView();
-    E.setIdentity();
 
-    if(NumSegments < 2)
+    /** every entry of the segment blocks and the whole diagonal are stored, even where the values vanish:
+     *  the linearisation relies on this pattern */
+    std::vector<Eigen::Triplet<Scalar>> entries;
+    for(int k = 0; k < NumSegments * POLY_ORDER; k += POLY_ORDER)
     {
-        m_DiffMat = Eigen::KroneckerProductSparse<diff_mat_t, Eigen::SparseMatrix<Scalar>>(D,E);
-        return;
+        const bool last = (k == (NumSegments - 1) * POLY_ORDER);
+        const int rows  = last ? NUM_NODES : NUM_NODES - 1; // border nodes belong to the next segment
+        for(int i = 0; i < rows; ++i)
+            for(int j = 0; j < NUM_NODES; ++j)
+                for(int n = 0; n < NX; ++n)
+                    entries.emplace_back((k + i) * NX + n, (k + j) * NX + n, D(i, j));
     }
-    else
-    {
-        Eigen::Matrix<Scalar, NumSegments * POLY_ORDER + 1, NumSegments * POLY_ORDER + 1> DM =
-                Eigen::Matrix<Scalar, NumSegments * POLY_ORDER + 1, NumSegments * POLY_ORDER + 1>::Zero();
-        DM.template bottomRightCorner<NUM_NODES, NUM_NODES>() = D;
-        for(int k = 0; k < (NumSegments - 1) * POLY_ORDER; k += POLY_ORDER)
-            DM.template block<NUM_NODES - 1, NUM_NODES>(k, k) = D.template topLeftCorner<NUM_NODES - 1, NUM_NODES>();
 
-        Eigen::SparseMatrix<Scalar> SpDM = DM.sparseView();
-        m_DiffMat = Eigen::KroneckerProductSparse<Eigen::SparseMatrix<Scalar>, Eigen::SparseMatrix<Scalar>>(SpDM,E);
+    m_DiffMat.resize(VARX_SIZE, VARX_SIZE);
+    m_DiffMat.setFromTriplets(entries.begin(), entries.end());
 
-        m_DiffMat_Ext.resize(constr_t::RowsAtCompileTime, var_t::RowsAtCompileTime);
-        m_DiffMat_Ext.setZero();
-        m_DiffMat_Ext.template leftCols<VARX_SIZE>() = m_DiffMat;
-        m_DiffMat_Ext.makeCompressed();
-
-        return;
-    }
+    m_DiffMat_Ext.resize(constr_t::RowsAtCompileTime, var_t::RowsAtCompileTime);
+    m_DiffMat_Ext.setFromTriplets(entries.begin(), entries.end());
 }
 
 /** Evaluate differential constraint */
@@ -182,9 +175,8 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::initialize_deriv
 template <typename Dynamics, typename Polynomial, int NumSegments>
 void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::compute_inner_nnz()
 {
-    int *inner_nnz = m_DiffMat.innerNonZeroPtr();
-    Eigen::Map<Eigen::Matrix<int, VARX_SIZE, 1>> mi(inner_nnz);
-    m_jac_inner_nnz. template head<VARX_SIZE>() = mi;
+    for(int i = 0; i < VARX_SIZE; ++i)
+        m_jac_inner_nnz(i) = m_DiffMat.outerIndexPtr()[i + 1] - m_DiffMat.outerIndexPtr()[i];
     m_jac_inner_nnz. template head<VARX_SIZE>() += Eigen::Matrix<int, VARX_SIZE, 1>::Constant(NX-1);
     m_jac_inner_nnz. template segment<VARU_SIZE>(VARX_SIZE) = Eigen::Matrix<int, VARU_SIZE, 1>::Constant(NX);
 }
@@ -204,6 +196,7 @@ template <typename Dynamics, typename Polynomial, int NumSegments>
 void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::_linearized(const var_t &var, jacobian_t &A, constr_t &b,
                                                                            const Scalar &t0, const Scalar &tf)
 {
+    A.resize(constr_t::RowsAtCompileTime, var_t::RowsAtCompileTime); // drop whatever pattern was stored before
     A.reserve(m_jac_inner_nnz);
     /** compute jacoabian of dynamics */
     local_jacobian_t jac;
-- 
2.43.0


From 63d241e110db7f9e57c2313ba642a01885436e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 30/49] fix: start derivative evaluations of the collocation
 functors from zero derivatives

---
 src/control/cost_collocation.hpp       | 4 ++++
 src/control/ode_collocation.hpp        | 1 +
 src/control/sparse_ode_collocation.hpp | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/control/cost_collocation.hpp b/src/control/cost_collocation.hpp
index 2ba1083..e3ea6bd 100644
--- a/src/control/cost_collocation.hpp
+++ b/src/control/cost_collocation.hpp
@@ -196,6 +196,7 @@ void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::value_g
             for(int i = 0; i < NU; i++)
                 m_ADu(i).value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+            ad_value = ADScalar(Scalar(0)); // assigning a plain number may keep the derivatives
             m_Lagrange(m_ADx, m_ADu,
                     var.template segment<NP>(VARX_SIZE + VARU_SIZE), ad_value);
 
@@ -226,6 +227,7 @@ void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::value_g
         for(int i = 0; i < NX; i++)
             m_ADx(i).value() = var.template head<NX>()(i);
 
+        ad_value = ADScalar(Scalar(0)); // assigning a plain number may keep the derivatives
         m_Mayer(m_ADx, ad_value);
         cost_value += ad_value.value();
         cost_gradient.template head<NX + NU>() += ad_value.derivatives();
@@ -259,6 +261,7 @@ void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::value_g
             for(int i = 0; i < NU; i++)
                 m_outADu(i).value().value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+            ad_value = outerADScalar(ADScalar(Scalar(0))); // assigning a plain number may keep the derivatives
             m_Lagrange(m_outADx, m_outADu,
                     var.template segment<NP>(VARX_SIZE + VARU_SIZE), ad_value);
 
@@ -304,6 +307,7 @@ void cost_collocation<LagrangeTerm, MayerTerm, Polynomial, NumSegments>::value_g
         for(int i = 0; i < NX; i++)
             m_outADx(i).value().value() = var.template head<NX>()(i);
 
+        ad_value = outerADScalar(ADScalar(Scalar(0))); // assigning a plain number may keep the derivatives
         m_Mayer(m_outADx, ad_value);
         cost_value += ad_value.value().value();
         cost_gradient.template head<NX + NU>() += ad_value.value().derivatives();
diff --git a/src/control/ode_collocation.hpp b/src/control/ode_collocation.hpp
index 4d9b4ce..1222971 100644
--- a/src/control/ode_collocation.hpp
+++ b/src/control/ode_collocation.hpp
@@ -186,6 +186,7 @@ void ode_collocation<Dynamics, Polynomial, NumSegments>::linearized(const var_t
         for(int i = 0; i < NU; i++)
             m_ADu(i).value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+        m_ADy.setConstant(ADScalar(Scalar(0))); // assigning a plain number may keep the derivatives
         m_f(m_ADx, m_ADu,
             var.template segment<NP>(VARX_SIZE + VARU_SIZE), m_ADy);
 
diff --git a/src/control/sparse_ode_collocation.hpp b/src/control/sparse_ode_collocation.hpp
index 4d253c9..9a71e75 100644
--- a/src/control/sparse_ode_collocation.hpp
+++ b/src/control/sparse_ode_collocation.hpp
@@ -215,6 +215,7 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::_linearized(cons
         for(int i = 0; i < NU; i++)
             m_ADu(i).value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+        m_ADy.setConstant(ADScalar(Scalar(0))); // assigning a plain number may keep the derivatives
         m_f(m_ADx, m_ADu,
             var.template segment<NP>(VARX_SIZE + VARU_SIZE), m_ADy);
 
@@ -267,6 +268,7 @@ void sparse_ode_collocation<Dynamics, Polynomial, NumSegments>::_linearized_same
         for(int i = 0; i < NU; i++)
             m_ADu(i).value() = var.template segment<NU>(n + VARX_SIZE)(i);
 
+        m_ADy.setConstant(ADScalar(Scalar(0))); // assigning a plain number may keep the derivatives
         m_f(m_ADx, m_ADu,
             var.template segment<NP>(VARX_SIZE + VARU_SIZE), m_ADy);
 
-- 
2.43.0


From 076b68b6675029ae775bccb2cfa2bfa1ea09b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 31/49] fix: pseudo-inverse of rectangular and of badly scaled
 matrices

The loop over the singular values ran to cols() (out of bounds for wide
matrices), the full bases did not match the diagonal of singular values, and the
absolute threshold dropped genuine small singular values.
---
 src/control/lqr.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 4596340..becac56 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -10,12 +10,14 @@
 Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 {
     /** compute SVD */
-    Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeFullU | Eigen::ComputeFullV);
-    const double pinvtol = 1e-6;
+    Eigen::JacobiSVD<Eigen::MatrixXd> svd(mat, Eigen::ComputeThinU | Eigen::ComputeThinV);
     Eigen::VectorXd singular_values = svd.singularValues();
+    /** singular values below the rounding level count as zero */
+    const double sv_max  = singular_values.size() > 0 ? singular_values(0) : 0.0;
+    const double pinvtol = std::numeric_limits<double>::epsilon() * std::max(mat.rows(), mat.cols()) * sv_max;
     /** make a copy */
     Eigen::VectorXd singular_values_inv = singular_values;
-    for ( int i = 0; i < mat.cols(); ++i)
+    for ( int i = 0; i < singular_values.size(); ++i)
     {
         if ( singular_values(i) > pinvtol )
             singular_values_inv(i) = 1.0 / singular_values(i);
-- 
2.43.0


From 419b936537cf0681ce74e04b8a444c60e530d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 32/49] fix: Lyapunov solver for matrices with complex
 eigenvalues

The back-substitution assumed a triangular Schur form; the real one has 2x2
blocks. It uses the complex Schur form now.
---
 src/control/lqr.hpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index becac56..5cdee55 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -31,27 +31,25 @@ Eigen::MatrixXd pinv(const Eigen::Ref<const Eigen::MatrixXd> mat) noexcept
 Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> Q) noexcept
 {
     const Eigen::Index m = Q.cols();
-    /** compute Schur decomposition of A */
-    Eigen::RealSchur<Eigen::MatrixXd> schur(A);
-    Eigen::MatrixXd T = schur.matrixT();
-    Eigen::MatrixXd U = schur.matrixU();
-
-    Eigen::MatrixXd Q1;
-    Q1.noalias() = (U.transpose() * Q) * U;
-    Eigen::MatrixXd X = Eigen::MatrixXd::Zero(m, m);
-    Eigen::MatrixXd E = Eigen::MatrixXd::Identity(m,m);
-
-    X.col(m-1).noalias() = (T + T(m-1,m-1) * E).partialPivLu().solve(Q1.col(m-1));
-    Eigen::VectorXd v;
-
-    for(Eigen::Index i = m-2; i >= 0; --i)
+    /** compute Schur decomposition of A (the real one is only quasi-triangular if A has complex eigenvalues) */
+    Eigen::ComplexSchur<Eigen::MatrixXd> schur(A);
+    const Eigen::MatrixXcd T = schur.matrixT();
+    const Eigen::MatrixXcd U = schur.matrixU();
+
+    Eigen::MatrixXcd Q1;
+    Q1.noalias() = (U.adjoint() * Q) * U;
+    Eigen::MatrixXcd X = Eigen::MatrixXcd::Zero(m, m);
+    const Eigen::MatrixXcd E = Eigen::MatrixXcd::Identity(m,m);
+    Eigen::VectorXcd v;
+
+    for(Eigen::Index i = m-1; i >= 0; --i)
     {
-        v.noalias() = Q1.col(i) - X.block(0, i+1, m, m-(i+1)) * T.block(i, i+1, 1, m-(i+1)).transpose();
-        X.col(i) = (T + T(i,i) * E).partialPivLu().solve(v);
+        v.noalias() = Q1.col(i) - X.rightCols(m-(i+1)) * T.row(i).tail(m-(i+1)).adjoint();
+        X.col(i) = (T + std::conj(T(i,i)) * E).partialPivLu().solve(v);
     }
 
-    X.noalias() = (U * X) * U.transpose();
-    return X;
+    X = (U * X) * U.adjoint();
+    return X.real();
 }
 
 double line_search_care(const double &a, const double &b, const double &c) noexcept
-- 
2.43.0


From 740777455dd77f9a446788050e80688ffd7510c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 33/49] fix: the Riccati solver returned its initial guess

care() returned the Newton starting point; the shift of the starting point was a
constant left from debugging instead of the one computed, two Newton steps were
allowed, the line search divided by zero without a quadratic term, and the
matrices were printed.
---
 src/control/lqr.hpp | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 5cdee55..9816806 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -54,6 +54,11 @@ Eigen::MatrixXd lyapunov(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen:
 
 double line_search_care(const double &a, const double &b, const double &c) noexcept
 {
+    /** without a quadratic term (b is at most sqrt(a * c)) the full step is optimal */
+    const double eps = std::numeric_limits<double>::epsilon();
+    if(c <= eps * eps * a)
+        return 1.0;
+
     Eigen::Matrix<double, 5, 1> poly;
     Eigen::Matrix<double, 4, 1> poly_derivative;
     poly_derivative << -2*a, 2*(a-2*b), 6*b, 4*c;
@@ -96,28 +101,23 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
     /** initial guess */
     //Eigen::EigenSolver<Eigen::MatrixXd> eig(A - B * X0);
     //std::cout << "INIT X0: \n" << eig.eigenvalues() << "\n";
-    const double tol = 1e-5;
-    const int kmax   = 2;
+    const double tol = 1e-10;
+    const int kmax   = 100;
     Eigen::MatrixXd X = X0;
     double err = std::numeric_limits<double>::max();
     int k = 0;
     Eigen::MatrixXd RX, H, V;
 
-    std::cout << "C: " << C << "\n";
-
     /** temporary */
     double tk = 1;
 
-    while( (err > tol) && (k < kmax) )
+    while( (err > tol * X.norm()) && (k < kmax) )
     {
        RX = C;
        RX.noalias() += X * A + A.transpose() * X - (X * B) * X;
        /** newton update */
        H = lyapunov((A - B * X).transpose(), -RX);
 
-       std::cout << "A': " << (A - B * X).transpose() << "\n";
-       std::cout << "RX: " << RX << "\n";
-       std::cout << "H: " << H << "\n";
        /** exact line search */
        V.noalias() = H * B * H;
        double a = (RX * RX).trace();
@@ -126,16 +126,14 @@ Eigen::MatrixXd newton_ls_care(const Eigen::Ref<const Eigen::MatrixXd> A, const
        tk = line_search_care(a,b,c);
        /** inner loop to accept step */
        X.noalias() += tk * H;
-       //err = tk * (H.lpNorm<1>() / X.lpNorm<1>());
-       err = RX.norm();
-       std::cout << "iter: " << k << " err: " << err << " step: " << tk << "\n";
+       err = tk * H.norm();
        k++;
     }
 
     /** may be defect correction algorithm? */
 
     //std::cout << "CARE solve took " << k << " iterations. \n";
-    if(k == kmax)
+    if(err > tol * X.norm())
         std::cerr << "CARE cannot be solved to specified precision :" << err << " max number of iteration exceeded! \n ";
 
     return X;
@@ -158,11 +156,7 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
     double b = -eig_r.minCoeff();
     b = std::fmax(b, 0.0) + 0.5;
     Eigen::MatrixXd E = Eigen::MatrixXd::Identity(n, n);
-    Eigen::MatrixXd Z = lyapunov(TA + 100 * E, 2 * TD * TD.transpose());
-
-    std::cout << "1 arg: \n" << TA + 100 * E << "\n";
-    std::cout << "2 arg: \n" << 2 * TD * TD.transpose();
-    std::cout << "Z: \n" << Z << "\n";
+    Eigen::MatrixXd Z = lyapunov(TA + b * E, 2 * TD * TD.transpose());
 
     Eigen::MatrixXd X = (TD.transpose() * pinv(Z)) * U.transpose();
 
@@ -177,12 +171,8 @@ Eigen::MatrixXd init_newton_care(const Eigen::Ref<const Eigen::MatrixXd> A, cons
 Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref<const Eigen::MatrixXd> B,
                      const Eigen::Ref<const Eigen::MatrixXd> C) noexcept
 {
-    std::cout << "A: \n" << A << "\n";
-    std::cout << "B: \n" << B << "\n";
-
     Eigen::MatrixXd X0 = init_newton_care(A, B);
-    return X0;
-    //return newton_ls_care(A, B, C, X0);
+    return newton_ls_care(A, B, C, X0);
 }
 
 
-- 
2.43.0


From 81083724db9ccc73e8d83da7e134aab292ccaa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 34/49] fix: lqr writes its outputs, rejects bad weights and
 uses the cross weights

S and K were Eigen::Ref, which cannot be resized, rejected weights did not stop
the computation, rounding could reject semidefinite weights, and the cross
weights entered the Riccati equation with wrong sign and order.
---
 src/control/lqr.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/control/lqr.hpp b/src/control/lqr.hpp
index 9816806..3cd6915 100644
--- a/src/control/lqr.hpp
+++ b/src/control/lqr.hpp
@@ -177,12 +177,12 @@ Eigen::MatrixXd care(const Eigen::Ref<const Eigen::MatrixXd> A, const Eigen::Ref
 
 
 /** Linear Quadratic Regulator:
- * J(x) = INT { xQx + xMu + uRu }dt
+ * J(x) = INT { xQx + 2xMu + uRu }dt
  * xdot = Fx + Gu
  */
 void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eigen::MatrixXd>& G, const Eigen::Ref<const Eigen::MatrixXd>& Q,
          const Eigen::Ref<const Eigen::MatrixXd>& R, const Eigen::Ref<const Eigen::MatrixXd>& M,
-         Eigen::Ref<Eigen::MatrixXd> S, Eigen::Ref<Eigen::MatrixXd> K, const bool &check) noexcept
+         Eigen::MatrixXd& S, Eigen::MatrixXd& K, const bool &check) noexcept
 {
     /** check preliminary conditions */
     //assume F,G to be stabilizable
@@ -192,19 +192,22 @@ void lqr(const Eigen::Ref<const Eigen::MatrixXd>& F, const Eigen::Ref<const Eige
         QR.noalias() -= M * pinv(R) * M.transpose();
         Eigen::EigenSolver<Eigen::MatrixXd> solver(QR);
         Eigen::VectorXd values = solver.eigenvalues().real();
-        if( (values.array() < 0).any() )
+        /** rounding may move zero eigenvalues below zero */
+        const double tolerance = 10 * QR.rows() * std::numeric_limits<double>::epsilon() * Q.norm();
+        if( (values.array() < -tolerance).any() )
         {
             std::cerr << "Weight matrices did not pass positivity check! \n";
             S = Eigen::MatrixXd();
             K = Eigen::MatrixXd();
+            return;
         }
     }
 
     /** formulate Ricatti equations */
     Eigen::MatrixXd invR = pinv(R);
-    Eigen::MatrixXd A = F - M * invR * (G).transpose();
+    Eigen::MatrixXd A = F - G * invR * M.transpose();
     Eigen::MatrixXd B = G * invR * (G).transpose();
-    Eigen::MatrixXd C = M * invR * M.transpose() + Q;
+    Eigen::MatrixXd C = Q - M * invR * M.transpose();
 
     //std::cout << "A: \n" << A << "\n";
     //std::cout << "B: \n" << B << "\n";
-- 
2.43.0


From e48971dd29f03337dbe06e786fcd7931a243ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 35/49] fix: IpoptInterface::get_problem returns the problem
 behind the adapter (it did not compile)

---
 src/solvers/ipopt_interface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b2b136c..b8f8aac 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -432,8 +432,8 @@ public:
     EIGEN_STRONG_INLINE const nlp_settings_t& settings() const noexcept { return *(m_app->Options()); }
     EIGEN_STRONG_INLINE nlp_settings_t& settings() noexcept { return *(m_app->Options()); }
 
-    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return *(m_problem); }
-    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return *(m_problem); }
+    EIGEN_STRONG_INLINE const Problem& get_problem() const noexcept { return m_problem->problem; }
+    EIGEN_STRONG_INLINE Problem& get_problem() noexcept { return m_problem->problem; }
 
     EIGEN_STRONG_INLINE const ipopt_info_t& info() const noexcept { return m_info; }
     EIGEN_STRONG_INLINE ipopt_info_t& info() noexcept { return m_info; }
-- 
2.43.0


From 830273f7e191422b921cc64ea1d925c191be817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 36/49] fix: the Ipopt adapter does not read past Ipopt's
 multipliers when it evaluates the Hessian

---
 src/solvers/ipopt_interface.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index b8f8aac..267f304 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -359,9 +359,12 @@ public:
         {
             // // return the values. This is a symmetric matrix, fill the lower left
             // // triangle only
+            // Ipopt passes the multipliers of the constraints only, those of the variable bounds do not enter the Hessian
+            nlp_dual_t lam = nlp_dual_t::Zero(num_constraints + num_variables);
+            lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda, num_constraints, 1);
+
             problem.lagrangian_gradient_hessian(Eigen::Map<const nlp_variable_t>(x), m_p,
-                                                Eigen::Map<const nlp_dual_t>(lambda), m_cost,
-                                                m_h, m_H, m_dlag, m_g, m_A, obj_factor);
+                                                lam, m_cost, m_h, m_H, m_dlag, m_g, m_A, obj_factor);
 
             get_data(m_H, values, true);
         }
-- 
2.43.0


From 5ac3978e8358cd01cd5d08224d25a6b60a76d1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:33 +0000
Subject: [PATCH 37/49] fix: the Ipopt adapter takes the multipliers of the
 variable bounds from z_L and z_U

---
 src/solvers/ipopt_interface.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 267f304..7d480ef 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -378,7 +378,8 @@ public:
                            Ipopt::IpoptCalculatedQuantities* ip_cq) override
     {
         m_x   = Eigen::Map<const nlp_variable_t>(x);
-        m_lam = Eigen::Map<const nlp_dual_t>(lambda);
+        m_lam.template head<num_constraints>() = Eigen::Map<const nlp_constraints_t>(lambda, num_constraints, 1);
+        m_lam.template tail<num_variables>()   = Eigen::Map<const nlp_variable_t>(z_U, num_variables, 1) - Eigen::Map<const nlp_variable_t>(z_L, num_variables, 1);
         m_cost = obj_value;
 
         /** @todo: Fill in the rest of the solution struct */
-- 
2.43.0


From 0394257ca34f44bc1f006d769409168b903a70e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 38/49] fix: the Ipopt adapter hands over the values of a
 sparse Jacobian

---
 src/solvers/ipopt_interface.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 7d480ef..5cd3d65 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -106,7 +106,12 @@ public:
                 }
         }
         else
-            data = mat.derived().valuePtr();
+        {
+            int ind = 0;
+            for (int k = 0; k < mat.outerSize(); ++k)
+                for (typename Eigen::SparseMatrix<scalar_t>::InnerIterator it(mat, k); it; ++it, ++ind)
+                    data[ind] = it.value();
+        }
     }
 
     template<typename MatrixType, int T = Problem::MATRIXFMT>
-- 
2.43.0


From 7433434d9215dc34e86f54fb243cc8f14ced2480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 39/49] fix: OSQP accepts constraint matrices in compressed
 storage

---
 src/solvers/osqp_interface.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 98504b0..ed4a021 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -181,13 +181,14 @@ private:
         {
             /** copy the new A block */
             for(Eigen::Index k = 0; k < N; ++k)
-                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], A.innerNonZeroPtr()[k], m_A.valuePtr() + m_A.outerIndexPtr()[k]);
+                std::copy_n(A.valuePtr() + A.outerIndexPtr()[k], polympc::inner_nonzeros(A, k), m_A.valuePtr() + m_A.outerIndexPtr()[k]);
         }
         else
         {
             m_A.resize(N + M, N);
             Eigen::VectorXi _A_mat_nnz = Eigen::VectorXi::Constant(N, 1); // allocate box constraints
-            std::transform(_A_mat_nnz.data(), _A_mat_nnz.data() + N, A.innerNonZeroPtr(), _A_mat_nnz.data(), std::plus<scalar_t>());
+            for(Eigen::Index k = 0; k < N; ++k)
+                _A_mat_nnz(k) += polympc::inner_nonzeros(A, k);
             // reserve the memory
             m_A.reserve(_A_mat_nnz);
             block_insert_sparse(m_A, 0, 0, A);  //insert A matrix
-- 
2.43.0


From b322188f78944d61286872c13055f1a4f1c43540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 40/49] fix: OSQP reports the primal and the dual residual

---
 src/solvers/osqp_interface.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index ed4a021..4d67fd4 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -84,7 +84,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
@@ -146,7 +147,8 @@ public:
         this->m_y = osqp_solver.getDualSolution();
 
         this->m_info.iter = osqp_solver.workspace()->info->iter;
-        this->m_info.res_prim = osqp_solver.workspace()->info->dua_res;
+        this->m_info.res_prim = osqp_solver.workspace()->info->pri_res;
+        this->m_info.res_dual = osqp_solver.workspace()->info->dua_res;
         this->m_info.rho_updates = osqp_solver.workspace()->info->rho_updates;
         this->m_info.rho_estimate = osqp_solver.workspace()->info->rho_estimate;
 
-- 
2.43.0


From e0b486e58eed16cff6f376962b3ea32ff63b2aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 41/49] fix: a cold OSQP solve works on the problem it is
 given, not on the first one

---
 src/solvers/osqp_interface.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/solvers/osqp_interface.hpp b/src/solvers/osqp_interface.hpp
index 4d67fd4..b499c0b 100644
--- a/src/solvers/osqp_interface.hpp
+++ b/src/solvers/osqp_interface.hpp
@@ -70,6 +70,7 @@ public:
         {
             m_h = h;
 
+            clear_solver();
             osqp_solver.data()->setHessianMatrix(H);
             osqp_solver.data()->setGradient(m_h);
             osqp_solver.data()->setLinearConstraintsMatrix(m_A);
@@ -132,6 +133,7 @@ public:
         {
             m_h = h;
 
+            clear_solver();
             osqp_solver.data()->setHessianMatrix(H);
             osqp_solver.data()->setGradient(m_h);
             osqp_solver.data()->setLinearConstraintsMatrix(m_A);
@@ -174,6 +176,17 @@ private:
     typename dense_matrix_type_selector<scalar_t, N + M, 1>::type x_lower_bound, x_upper_bound;
     typename dense_matrix_type_selector<scalar_t, N, 1>::type m_h;
 
+    /** forget the previous problem: OSQP keeps the data of an initialised solver */
+    EIGEN_STRONG_INLINE void clear_solver() noexcept
+    {
+        if(osqp_solver.isInitialized())
+        {
+            osqp_solver.clearSolver();
+            osqp_solver.data()->clearHessianMatrix();
+            osqp_solver.data()->clearLinearConstraintsMatrix();
+        }
+    }
+
     /** construct the Jacobian matrix accepted by OSQP */
     template<int T = MatrixType>
     EIGEN_STRONG_INLINE typename std::enable_if<T == SPARSE>::type
-- 
2.43.0


From e9e2e75ec9a11eaf24bc153cafcb30a652345ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 42/49] fix: QPMAD solves with an initial guess (the overload
 did not compile)

---
 src/solvers/qpmad_interface.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index 7b4a8ef..d785549 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -93,22 +93,11 @@ public:
                         const Eigen::Ref<const qp_var_t>& xlb, const Eigen::Ref<const qp_var_t>& xub,
                         const Eigen::Ref<const qp_var_t>& x_guess, const Eigen::Ref<const qp_dual_t>& y_guess) noexcept
     {
-        set_qpmad_settings();
+        // qpmad does not take multipliers
+        ignore_unused_var(y_guess);
         this->m_x = x_guess;
 
-        /** @bug : temporary fix until the new interface is released */
-        qpmad::QPVector primal  = Eigen::Map<qpmad::QPVector>(this->m_x.data(), this->m_x.rows());
-        qpmad::QPMatrix hessian(H);
-        qpmad::Solver::ReturnStatus status = qpmad_solver.solve(primal, hessian, h, xlb, xub, A, Alb, Aub, qpmad_parameters);
-
-        this->m_x = primal;
-
-        switch (status)
-        {
-            case qpmad::Solver::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
-            case qpmad::Solver::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
-        }
+        return solve_impl(H, h, A, Alb, Aub, xlb, xub);
     }
 
 
-- 
2.43.0


From a2349b638aaf5f8085ff52ae275694ab9bbbf5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 43/49] fix: QPMAD records the status of a failed solve

---
 src/solvers/qpmad_interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/qpmad_interface.hpp b/src/solvers/qpmad_interface.hpp
index d785549..452d0c4 100644
--- a/src/solvers/qpmad_interface.hpp
+++ b/src/solvers/qpmad_interface.hpp
@@ -84,7 +84,7 @@ public:
         {
             case solver_t::ReturnStatus::OK : {this->m_info.status = status_t::SOLVED; return status_t::SOLVED;}
             case solver_t::ReturnStatus::MAXIMAL_NUMBER_OF_ITERATIONS : {this->m_info.status = status_t::MAX_ITER_EXCEEDED; return status_t::MAX_ITER_EXCEEDED;}
-            default: return status_t::UNSOLVED;
+            default : {this->m_info.status = status_t::UNSOLVED; return status_t::UNSOLVED;}
         }
     }
 
-- 
2.43.0


From 71d0d356cbd5bc1509fb2b60a28594d01fe08034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 44/49] fix: the derivative of floor of an automatic
 differentiation scalar is zero

---
 src/autodiff/AutoDiffScalar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/AutoDiffScalar.h b/src/autodiff/AutoDiffScalar.h
index 92a0194..2077054 100644
--- a/src/autodiff/AutoDiffScalar.h
+++ b/src/autodiff/AutoDiffScalar.h
@@ -623,7 +623,7 @@ EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(log,
 
 EIGEN_AUTODIFF_DECLARE_GLOBAL_UNARY(floor,
   using std::floor;
-  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(1));)
+  return Eigen::MakeAutoDiffScalar(floor(x.value()), x.derivatives() * Scalar(0));)
 
 template<typename DerType>
 inline const Eigen::AutoDiffScalar<
-- 
2.43.0


From cd317f27e589deb754d35dffcfd3bacf176e6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:39 +0000
Subject: [PATCH 45/49] fix: rbf_kernel compiles, is silent, and its Hessian
 and chained derivatives are right

---
 src/autodiff/rbf_kernel.hpp | 61 +++----------------------------------
 1 file changed, 4 insertions(+), 57 deletions(-)

diff --git a/src/autodiff/rbf_kernel.hpp b/src/autodiff/rbf_kernel.hpp
index f238f98..63643a4 100644
--- a/src/autodiff/rbf_kernel.hpp
+++ b/src/autodiff/rbf_kernel.hpp
@@ -12,7 +12,7 @@
 
 #include "autodiff/AutoDiffScalar.h"
 #include "utils/helpers.hpp"
-#include <iostream>
+#include <cmath>
 
 
 template<int Size, typename Scalar = double>
@@ -29,66 +29,13 @@ struct rbf_kernel
     using outer_adscalar_t = Eigen::AutoDiffScalar<outer_deriv_t>;
 
 
+    // one definition for every scalar: the AutoDiff scalars carry the derivatives of x through it
     template<typename scalar_t>
-    EIGEN_STRONG_INLINE scalar_t eval(Eigen::Ref<vector_t<scalar_t>> x, const Eigen::Ref<const real_vector_t>& y)
+    EIGEN_STRONG_INLINE scalar_t eval(const Eigen::Ref<const vector_t<scalar_t>>& x, const Eigen::Ref<const real_vector_t>& y) const noexcept
     {
+        using std::exp;
         return exp(-(x - y.template cast<scalar_t>()).squaredNorm());
     }
-
-    // provide partial specialisations
-    // double
-    template<>
-    EIGEN_STRONG_INLINE double eval<double>(Eigen::Ref<vector_t<double>> x, const Eigen::Ref<const real_vector_t>& y)
-    {
-        std::cout << " double \n";
-        return exp(-(x - y).squaredNorm());
-    }
-
-    // float
-    template<>
-    EIGEN_STRONG_INLINE float eval<float>(Eigen::Ref<vector_t<float>> x, const Eigen::Ref<const real_vector_t>& y)
-    {
-        std::cout << " float \n";
-        return exp(-(x - y).squaredNorm());
-    }
-
-    // autodiff
-    template<>
-    adscalar_t eval<adscalar_t>(Eigen::Ref<vector_t<adscalar_t>> x, const Eigen::Ref<const real_vector_t>& y)
-    {
-        std::cout << " adscalar \n";
-        real_vector_t xt;
-        for (Eigen::Index i  = 0; i < Size; ++i)
-            xt(i) = x(i).value();
-
-        Scalar val = exp(-(xt - y).squaredNorm());
-        return adscalar_t(val, -2 * val * (xt - y));
-    }
-
-    // autodiff 2
-    template<>
-    outer_adscalar_t eval<outer_adscalar_t>(Eigen::Ref<vector_t<outer_adscalar_t>> x, const Eigen::Ref<const real_vector_t>& y)
-    {
-        std::cout << " adscalar2 \n";
-        real_vector_t xt;
-        for (Eigen::Index i  = 0; i < Size; ++i)
-            xt(i) = x(i).value().value();
-
-        Scalar val = exp(-(xt - y).squaredNorm());
-        Eigen::Matrix<Scalar, Size, Size> hes;
-        hes.noalias() = val * (4 * (xt - y) * (xt - y).transpose() - Eigen::Matrix<Scalar, Size, Size>::Identity());
-
-        outer_adscalar_t result;
-        // value
-        result.value().value() = val;
-        result.value().derivatives().noalias() = -2 * val * (xt - y);
-
-        for (Eigen::Index i  = 0; i < Size; ++i)
-            result.derivatives()(i).derivatives() = hes.col(i);
-
-        return result;
-    }
-
 };
 
 #endif // RBF_KERNEL_HPP
-- 
2.43.0


From ca94ba1956f671643f401d06d94445dd38c78b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 46/49] fix: quasi-Newton updates of matrices too large for the
 stack (they did not compile)

---
 src/solvers/bfgs.hpp | 5 +++--
 src/solvers/sr1.hpp  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solvers/bfgs.hpp b/src/solvers/bfgs.hpp
index bd8d1ce..13c77a7 100644
--- a/src/solvers/bfgs.hpp
+++ b/src/solvers/bfgs.hpp
@@ -48,8 +48,9 @@ void BFGS_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, con
         return;
     }
 
-    B.noalias() += -Bs * Bs.transpose() / sBs;
-    B.noalias() += r * r.transpose() / sr;
+    // coefficient by coefficient: the outer products may be too large for a temporary on the stack
+    B -= Bs.lazyProduct(Bs.transpose()) / sBs;
+    B += r.lazyProduct(r.transpose()) / sr;
 }
 
 #endif /* BFGS_HPP */
diff --git a/src/solvers/sr1.hpp b/src/solvers/sr1.hpp
index c18192d..e461d3a 100644
--- a/src/solvers/sr1.hpp
+++ b/src/solvers/sr1.hpp
@@ -30,7 +30,7 @@ void SR1_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, cons
     const Scalar eps = Scalar(1e-6); // as suggested by Nocedal
     // safeguard
     if(std::abs(scaling) > eps * s.template lpNorm<2>() * v.template lpNorm<2>())
-        B.noalias() += v * v.transpose() / scaling;
+        B += v.lazyProduct(v.transpose()) / scaling; // no temporary: it may be too large for the stack
 
     //else: leave matrix unchanged B_{k+1} = B_{k}
 }
-- 
2.43.0


From 8e0c64f00381b69641dacde4476b3155627c27a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 47/49] fix: SQPBase sizes its matrices for large dense
 problems

---
 src/solvers/sqp_base.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/solvers/sqp_base.hpp b/src/solvers/sqp_base.hpp
index 01251dc..d86f730 100644
--- a/src/solvers/sqp_base.hpp
+++ b/src/solvers/sqp_base.hpp
@@ -90,11 +90,9 @@ public:
         m_qp_solver.settings().alpha = 1.0; //1.6
 
         //std::cout << "QP size: " << sizeof (m_qp_solver) << "\n";
-        if(Problem::is_sparse)
-        {
-            m_H.resize(VAR_SIZE, VAR_SIZE);
-            m_A.resize(NUM_EQ + NUM_INEQ, VAR_SIZE);
-        }
+        // sparse and large dense matrices have no size of their own
+        m_H.resize(VAR_SIZE, VAR_SIZE);
+        m_A.resize(NUM_EQ + NUM_INEQ, VAR_SIZE);
 
     }
 
-- 
2.43.0


From 73345cf52692f05ea791776a7d4ad9294b4c3845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 48/49] fix: the Ipopt adapter sizes its matrices for large
 dense problems

---
 src/solvers/ipopt_interface.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solvers/ipopt_interface.hpp b/src/solvers/ipopt_interface.hpp
index 5cd3d65..e6b40ef 100644
--- a/src/solvers/ipopt_interface.hpp
+++ b/src/solvers/ipopt_interface.hpp
@@ -44,11 +44,12 @@ public:
         m_x.setZero();
         m_lam.setZero();
 
+        // sparse and large dense matrices have no size of their own
+        m_H.resize(Problem::VAR_SIZE, Problem::VAR_SIZE);
+        m_A.resize(Problem::NUM_EQ + Problem::NUM_INEQ, Problem::VAR_SIZE);
+
         if(Problem::is_sparse)
         {
-            m_H.resize(Problem::VAR_SIZE, Problem::VAR_SIZE);
-            m_A.resize(Problem::NUM_EQ + Problem::NUM_INEQ, Problem::VAR_SIZE);
-
             /** run sensitivity computation once to obtain sparsity patterns */
             problem.lagrangian_gradient_hessian(m_x, m_p, m_lam, m_cost, m_h, m_H, m_dlag, m_g, m_A);
         }
-- 
2.43.0


From 9aadf75bb12d7c18d82e86415bbd451b1ef220d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 49/49] fix: BFGS leaves a matrix alone without curvature along
 the step, also where the damping factor is undefined

---
 src/solvers/bfgs.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/solvers/bfgs.hpp b/src/solvers/bfgs.hpp
index 13c77a7..00cfb5e 100644
--- a/src/solvers/bfgs.hpp
+++ b/src/solvers/bfgs.hpp
@@ -11,6 +11,7 @@
 #define BFGS_HPP
 
 #include <Eigen/Dense>
+#include <algorithm>
 #include <limits>
 
 /** Damped BFGS update
@@ -31,6 +32,11 @@ void BFGS_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, con
     sBs = s.dot(Bs);
     sy = s.dot(y);
 
+    // the update is not defined without curvature along the step, damped or not (for instance B = 0 or B indefinite with sBs = sy < 0)
+    if (std::max(sy, Scalar(0.2) * sBs) < std::numeric_limits<Scalar>::epsilon() || sBs == Scalar(0)) {
+        return;
+    }
+
     if (sy < 0.2 * sBs) {
         // damped update to enforce positive definite B
         Scalar theta;
@@ -43,11 +49,6 @@ void BFGS_update(Eigen::MatrixBase<Mat>& B, const Eigen::MatrixBase<Vec>& s, con
         sr = sy;
     }
 
-    // the update is not defined without curvature along the step (for instance B = 0)
-    if (sr < std::numeric_limits<Scalar>::epsilon() || sBs == Scalar(0)) {
-        return;
-    }
-
     // coefficient by coefficient: the outer products may be too large for a temporary on the stack
     B -= Bs.lazyProduct(Bs.transpose()) / sBs;
     B += r.lazyProduct(r.transpose()) / sr;
-- 
2.43.0

