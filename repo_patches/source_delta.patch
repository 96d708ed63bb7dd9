From 8ef08ad1cdb5d4405e14cf72a304b83d20d2192b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 01/22] fix: horizontal half of concatenate() on square
 matrices used A twice

concatenate(A, B).second is documented as A and B joined horizontally, but
its right half was a second copy of A.
---
 matrix/matrix_concatenate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_concatenate.hpp b/matrix/matrix_concatenate.hpp
index e4b9aac..a12ea30 100644
--- a/matrix/matrix_concatenate.hpp
+++ b/matrix/matrix_concatenate.hpp
@@ -60,7 +60,7 @@ std::pair<Matrix<T, (n+n), n>,Matrix<T, n, (n+n)>> concatenate(const Matrix<T, n
     }
     for (std::size_t j = n; j < n+n; j++)
     {
-      result.second[i][j] = A[i][j-n];
+      result.second[i][j] = B[i][j-n];
     }
   }
 
-- 
2.43.0


From f204481e43f7c7abe33f4def5156b47459e01a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 02/22] fix: dividing by a zero scalar terminated the program

A bare 'throw;' without an active exception calls std::terminate. Throw the
same std::overflow_error that inv() and lu() use; this also makes inv() of a
singular nxn matrix (n >= 4) reportable.
---
 matrix/matrix_div.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_div.hpp b/matrix/matrix_div.hpp
index dac5658..53a71dc 100644
--- a/matrix/matrix_div.hpp
+++ b/matrix/matrix_div.hpp
@@ -15,6 +15,8 @@
 #ifndef MATRIX_MATRIX_DIV_HPP_
 #define MATRIX_MATRIX_DIV_HPP_
 
+#include <stdexcept>
+
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -33,7 +35,7 @@ template<typename T, std::size_t n, std::size_t m>
 static Matrix<T, n, m> div(const Matrix<T, n, m>& A, const T scalar)
 {
   if(scalar == 0)
-    throw;
+    throw std::overflow_error("Divide by zero exception");
 
   Matrix<T, n, m> prod{};
 
-- 
2.43.0


From 5bed927904657e67d695228a4be10a71d4e3d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 03/22] fix: inv() of a singular 1x1 matrix divided by zero

All other sizes report a singular matrix by std::overflow_error.
---
 matrix/matrix_inv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index 8a5f19d..d5f41ea 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -65,7 +65,12 @@ static Matrix<T, (n-1), (n-1)> getminor(const Matrix<T, n, n>& A, std::size_t i,
 template<typename T>
 Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
 {
-  return Matrix<T, 1, 1>{ 1/det(A) };
+  const auto detA { det(A) };
+  if (detA == 0)
+  {
+    throw std::overflow_error("Divide by zero exception");
+  }
+  return Matrix<T, 1, 1>{ 1/detA };
 }
 
 
-- 
2.43.0


From 56d8efa73c07eb8234c0cd4f509b934960164860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 04/22] fix: mean() of a signed integer matrix with a negative
 sum

Dividing by the unsigned element count converted the negative sum to a huge
unsigned value. var() and stddev() inherited the wrong mean.
---
 matrix/matrix_mean.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 6e803ac..5d36ccd 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -15,6 +15,8 @@
 #ifndef MATRIX_MEAN_HPP_
 #define MATRIX_MEAN_HPP_
 
+#include <cstddef>
+
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -39,7 +41,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<std::ptrdiff_t>(i*j));
 }
 
 
-- 
2.43.0


From 285efeeae5ebbc03fe2120354efbddde383e0425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 05/22] fix: ones() ignored the requested number of rows or
 columns

ones<T, i, j>() did not compile unless i == j, and ones<i, j>() returned a
j x j matrix.
---
 matrix/matrix_ones.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_ones.hpp b/matrix/matrix_ones.hpp
index a7613df..2aaeedf 100644
--- a/matrix/matrix_ones.hpp
+++ b/matrix/matrix_ones.hpp
@@ -25,14 +25,14 @@ namespace mlib
  *
  * @return matrix with i, j size
  */
-template<unsigned int, std::size_t i, std::size_t j = i>
+template<std::size_t i, std::size_t j>
 Matrix<unsigned int, i, j> ones()
 {
   return fill<unsigned int, i, j>(1);
 }
 
 template<typename T, std::size_t i, std::size_t j = i>
-Matrix<T, i, i> ones()
+Matrix<T, i, j> ones()
 {
   return fill<T, i, j>(1);
 }
-- 
2.43.0


From a72333c7aa8f827661663809ea571dde4c5b78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 06/22] fix: isIdentity() only compiled for unsigned int
 matrices

---
 matrix/matrix_utils.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index d4aefc9..834b18a 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -32,9 +32,8 @@ namespace mlib
 template<typename T, std::size_t n>
 bool isIdentity(const Matrix<T, n, n>& A)
 {
-  const auto identity {eye<unsigned int, n>()};
-  const auto uiA {static_cast<Matrix<unsigned int, n, n>>(A)};
-  return (uiA == identity);
+  const auto identity {eye<T, n>()};
+  return (A == identity);
 }
 
 
-- 
2.43.0


From b64519fd89f223a40a4391d37d6b4887c34ffd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 07/22] fix: compare() treated NaN as equal to everything

A comparison with NaN is false, so '> epsilon' never rejected it. Equal
infinities still compare equal.
---
 matrix/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 834b18a..4054b3c 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -52,7 +52,7 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
   {
     for(std::size_t j = 0; j < col; j++)
     {
-      if(std::abs(A[i][j] - B[i][j]) > epsilon)
+      if(!(A[i][j] == B[i][j] || std::abs(A[i][j] - B[i][j]) <= epsilon))
       {
         return false;
       }
-- 
2.43.0


From 60b44c77061c23f1070186132d05e6ea86e78eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:17 +0000
Subject: [PATCH 08/22] fix: matrix.hpp did not compile on its own, median()
 allocated memory

median() used std::vector without including <vector>, so a program including
just matrix.hpp failed to compile; and the library promises to do without
dynamic memory allocation. Sort a std::array instead.
---
 matrix/matrix_median.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index e9a8ca7..f8203b8 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -30,15 +30,14 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T median(const Matrix<T, i, j>& A)
 {
-  std::vector<T> v;
-  const std::size_t size = i*j;
-  v.reserve(size);
+  constexpr std::size_t size = i*j;
+  std::array<T, size> v{};
 
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      v.push_back(A[it][jt]);
+      v[it*j + jt] = A[it][jt];
     }
   }
 
-- 
2.43.0


From 77ad6a5e7c1ca358b93615736b147aa65800c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:41 +0000
Subject: [PATCH 09/22] fix: pow() did not compile for unsigned exponents

std::abs is ambiguous for unsigned types; p is known to be negative here.
---
 matrix/matrix_pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index 2012179..c43466c 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,7 +47,7 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = std::abs(p);
+      p = -p;
     }
 
     auto powA { ones<T, n, n>() };
-- 
2.43.0


From ffb1cbd7332826dbf4100b4a2b78f7e39cbee20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:41 +0000
Subject: [PATCH 10/22] fix: conv2_valid() did not compile for non-square
 matrices

It cut the border off with getminor(), which takes square matrices only,
although it is declared for any i x j matrix.
---
 matrix/matrix_conv2.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 7845dd4..ce5e47e 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -139,8 +139,16 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
 template<typename T, std::size_t i, std::size_t j>
 Matrix<T, i-2, j-2> conv2_valid(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 {
-  Matrix<T, i-1, i-1> tmp1 = getminor(conv2(A,kernel),i-1,j-1); // conv2 means conv2 with -same option
-  return getminor(tmp1,0,0); // conv2 means conv2 with -same option
+  const auto same = conv2(A,kernel); // conv2 means conv2 with -same option
+  Matrix<T, i-2, j-2> result{};
+  for(std::size_t it = 0; it < i-2; it++)
+  {
+    for(std::size_t jt = 0; jt < j-2; jt++)
+    {
+      result[it][jt] = same[it+1][jt+1];
+    }
+  }
+  return result;
 }
 
 
-- 
2.43.0


From 8f2c9e82fe284fbc32971da2f7435f00dced9022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:41 +0000
Subject: [PATCH 11/22] fix: conv2() computed the correlation instead of the
 convolution

The functions are documented to work like Octave's conv2, which rotates the
kernel by 180 degrees. The difference only shows with asymmetric kernels.
---
 matrix/matrix_conv2.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index ce5e47e..bfc1f6f 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -22,6 +22,28 @@ namespace mlib
 {
 
 
+/**
+ * @brief Rotate matrix by 180 degrees
+ *
+ * @param [in] Matrix A ixj
+ *
+ * @return Matrix A with the order of rows and columns reversed
+ */
+template<typename T, std::size_t i, std::size_t j>
+Matrix<T, i, j> rot180(const Matrix<T, i, j>& A)
+{
+  Matrix<T, i, j> result{};
+  for(std::size_t it = 0; it < i; it++)
+  {
+    for(std::size_t jt = 0; jt < j; jt++)
+    {
+      result[it][jt] = A[i-1-it][j-1-jt];
+    }
+  }
+  return result;
+}
+
+
 /**
  * @brief Convolution in two dimensions using kernel of size 3x3
  *         It works as conv2 in Octave with 'same' parameter
@@ -36,8 +58,9 @@ namespace mlib
  * @return Returns the central part of the convolution (of size ixj like A)
  */
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& mask)
 {
+  const auto kernel = rot180(mask);
   Matrix<T, i, j> result{};
   auto isOutOfRange = [](int a, int b)
   {
@@ -86,8 +109,9 @@ Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 // TODO move in inside conv2() (add parameter 'valid' as option)
 // TODO refactor it so it will look more friendly
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& mask)
 {
+  const auto kernel = rot180(mask);
   Matrix<T, i+2, j+2> result{};
   // equals 1 because kernel is 3x3, if kernel is 5x5 offset would be 2 
   constexpr std::size_t offset{1};
-- 
2.43.0


From aa5420a16dd90ca06cfe40d177126fd54eb71131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:19 +0000
Subject: [PATCH 12/22] fix: det() of integer matrices of size 4 and up was
 wrong

Gaussian elimination needs a field: the truncated integer quotients gave a
wrong determinant (and inverse) unless all of them happened to be exact.
Use fraction-free elimination for integral element types.
---
 matrix/matrix_det.hpp | 68 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index b1510a8..3b279e4 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -15,6 +15,8 @@
 #ifndef MATRIX_MATRIX_DET_HPP_
 #define MATRIX_MATRIX_DET_HPP_
 
+#include <type_traits>
+
 #include "matrix_swap.hpp"
 
 
@@ -72,14 +74,62 @@ T det(const Matrix<T, 3, 3>& A)
 
 
 /**
- * @brief Determinant of matrix nxn
+ * @brief Determinant of integer matrix nxn by fraction-free (Bareiss)
+ *        elimination, every division leaves no remainder
+ *
+ * @param [in] Square Matrix A with nxn size
+ *
+ * @return Determinant of matrix A
+ */
+template<typename T, std::size_t n>
+T detElimination(const Matrix<T, n, n>& A, std::true_type)
+{
+  Matrix<long long, n, n> M{};
+  for (std::size_t i = 0; i < n; ++i)
+  {
+    std::copy(A[i].begin(), A[i].end(), M[i].begin());
+  }
+
+  long long sign{1};
+  long long prev{1};
+  for (std::size_t r = 0; r + 1 < n; ++r)
+  {
+    std::size_t p = r;
+    while (p < n && M[p][r] == 0)
+    {
+      ++p;
+    }
+    if (p == n)
+    {
+      return 0;
+    }
+    if (p != r)
+    {
+      swap_rows(M, p, r);
+      sign = -sign;
+    }
+    for (std::size_t i = r + 1; i < n; ++i)
+    {
+      for (std::size_t j = r + 1; j < n; ++j)
+      {
+        M[i][j] = (M[i][j] * M[r][r] - M[i][r] * M[r][j]) / prev;
+      }
+    }
+    prev = M[r][r];
+  }
+  return static_cast<T>(sign * M[n-1][n-1]);
+}
+
+
+/**
+ * @brief Determinant of matrix nxn by Gaussian elimination
  *
  * @param [in] Square Matrix A with nxn size
  *
  * @return Determinant of matrix A
  */
 template<typename T, std::size_t n>
-T det(Matrix<T, n, n> A)
+T detElimination(Matrix<T, n, n> A, std::false_type)
 {
   T factor{1};
   std::size_t pivot{0};
@@ -141,6 +191,20 @@ T det(Matrix<T, n, n> A)
   return prod();
 }
 
+
+/**
+ * @brief Determinant of matrix nxn
+ *
+ * @param [in] Square Matrix A with nxn size
+ *
+ * @return Determinant of matrix A
+ */
+template<typename T, std::size_t n>
+T det(const Matrix<T, n, n>& A)
+{
+  return detElimination(A, std::is_integral<T>());
+}
+
 } /* namespace mlib */
 
 #endif /* MATRIX_MATRIX_DET_HPP_ */
-- 
2.43.0


From e9be05e3956fd60d725dc5564195d6060f6ff30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:19 +0000
Subject: [PATCH 13/22] fix: det() was dominated by round-off when a pivot was
 tiny

Elimination took the first non-zero entry of a column as pivot, even if it
was left over from rounding of an exact zero, so the determinant (and the
inverse) of harmless matrices had no correct digit. Exchange rows when the
pivot is small compared to the rest of its column.
---
 matrix/matrix_det.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index 3b279e4..489d797 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -168,6 +168,22 @@ T detElimination(Matrix<T, n, n> A, std::false_type)
       }
     }
 
+    // a pivot which is tiny within its column may be nothing but round-off,
+    // dividing by it would destroy the result
+    using std::abs;
+    std::size_t max = i;
+    for (std::size_t k = i + 1; k < n; ++k)
+    {
+      if (abs(A[max][pivot]) < abs(A[k][pivot]))
+      {
+        max = k;
+      }
+    }
+    if (abs(A[i][pivot]) < abs(A[max][pivot]) / 10)
+    {
+      i = max;
+    }
+
     if (i != r)
     {
       swap_rows(A, i, r);
-- 
2.43.0


From 3cc530a7ab1b558380f078d8952e6f4a500bc486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:43 +0000
Subject: [PATCH 14/22] fix: chol() of long double matrices only had double
 precision

The unqualified sqrt() is the C function on double.
---
 matrix/matrix_cholesky.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_cholesky.hpp b/matrix/matrix_cholesky.hpp
index f78fed2..39f36f4 100644
--- a/matrix/matrix_cholesky.hpp
+++ b/matrix/matrix_cholesky.hpp
@@ -69,7 +69,7 @@ Matrix<T, n, n> chol(
         {
           sum = sum + L[i][k] * L[i][k];
         }
-        L[i][i] = sqrt( A[i][i] - sum);
+        L[i][i] = std::sqrt( A[i][i] - sum);
       }
       else
       {
-- 
2.43.0


From 1225a1382b08ac446194e0105a52f8e06fa93327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:43 +0000
Subject: [PATCH 15/22] fix: stddev() of long double matrices only had double
 precision

The unqualified sqrt() is the C function on double.
---
 matrix/matrix_stddev.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_stddev.hpp b/matrix/matrix_stddev.hpp
index 1cccb9c..5438df1 100644
--- a/matrix/matrix_stddev.hpp
+++ b/matrix/matrix_stddev.hpp
@@ -31,7 +31,7 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T stddev(const Matrix<T, i, j>& A)
 {
-  return sqrt(var(A));
+  return std::sqrt(var(A));
 }
 
 
-- 
2.43.0


From 6d92066ea13d3e342abafff03efa2282197c4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:51 +0000
Subject: [PATCH 16/22] fix: mean() overflowed when the sum of integer elements
 exceeded their type

---
 matrix/matrix_mean.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 5d36ccd..81392d6 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -16,6 +16,7 @@
 #define MATRIX_MEAN_HPP_
 
 #include <cstddef>
+#include <type_traits>
 
 #include "matrix_type.hpp"
 
@@ -33,7 +34,11 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T mean(const Matrix<T, i, j>& A)
 {
-  T result{};
+  // the sum of integers may exceed T although the mean never does
+  using Integer = typename std::conditional<std::is_signed<T>::value, long long, unsigned long long>::type;
+  using Sum = typename std::conditional<std::is_integral<T>::value, Integer, T>::type;
+
+  Sum result{};
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
@@ -41,7 +46,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / static_cast<std::ptrdiff_t>(i*j));
+  return static_cast<T>(result / static_cast<std::ptrdiff_t>(i*j));
 }
 
 
-- 
2.43.0


From a54f864692700b02b9d781699b23d6d9b16c492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:51 +0000
Subject: [PATCH 17/22] fix: median() overflowed when the two middle integers
 add up to more than their type

---
 matrix/matrix_median.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index f8203b8..d7c2e7b 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -15,6 +15,8 @@
 #ifndef MATRIX_FILTERS_HPP_
 #define MATRIX_FILTERS_HPP_
 
+#include <type_traits>
+
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -45,7 +47,10 @@ T median(const Matrix<T, i, j>& A)
 
   if (size % 2 == 0)
   {
-    return (v[size / 2] + v[size / 2 - 1]) / 2;
+    // the sum of two integers may exceed T although their mean never does
+    using Integer = typename std::conditional<std::is_signed<T>::value, long long, unsigned long long>::type;
+    using Sum = typename std::conditional<std::is_integral<T>::value, Integer, T>::type;
+    return static_cast<T>((static_cast<Sum>(v[size / 2]) + v[size / 2 - 1]) / 2);
   }
 
   else
-- 
2.43.0


From 1fabdcfbeea968396768696dceed040f96653ef9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:13:41 +0000
Subject: [PATCH 18/22] fix: pow() with the most negative value of the exponent
 type returned a positive power

---
 matrix/matrix_pow.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index c43466c..3a1abf2 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,12 +47,12 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = -p;
     }
 
     auto powA { ones<T, n, n>() };
 
-    powA = pow(A, p/2);
+    // -p may exceed P, half of it never does
+    powA = pow(A, static_cast<P>((p < 0) ? -(p/2) : p/2));
     if ((p % 2) == 0)
     {
       return powA * powA;
-- 
2.43.0


From 57ecbb9ff4d8a8ba86f8d6d715cc69dd9ca40bf7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:13:41 +0000
Subject: [PATCH 19/22] fix: inv() and pow() of matrices of narrow integers did
 not compile with clang

---
 matrix/matrix_inv.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index d5f41ea..1ccb373 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -70,7 +70,7 @@ Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
   {
     throw std::overflow_error("Divide by zero exception");
   }
-  return Matrix<T, 1, 1>{ 1/detA };
+  return Matrix<T, 1, 1>{ static_cast<T>(1/detA) };
 }
 
 
@@ -91,8 +91,8 @@ Matrix<T, 2, 2> inv(const Matrix<T, 2, 2>& A)
   {
     throw std::overflow_error("Divide by zero exception");
   }
-  invA = {A[1][1], -A[0][1],
-         -A[1][0],  A[0][0]};
+  invA = {A[1][1], static_cast<T>(-A[0][1]),
+          static_cast<T>(-A[1][0]), A[0][0]};
   invA = invA / detA;
   return invA;
 }
@@ -120,9 +120,9 @@ Matrix<T, 3, 3> inv(const Matrix<T, 3, 3>& A)
   auto&& g = A[2][0]; auto&& h = A[2][1]; auto&& i = A[2][2];
 
   const Matrix<T, 3, 3> invA
-  { e*i - f*h, c*h - b*i, b*f - c*e,
-    f*g - d*i, a*i - c*g, c*d - a*f,
-    d*h - e*g, b*g - a*h, a*e - b*d };
+  { static_cast<T>(e*i - f*h), static_cast<T>(c*h - b*i), static_cast<T>(b*f - c*e),
+    static_cast<T>(f*g - d*i), static_cast<T>(a*i - c*g), static_cast<T>(c*d - a*f),
+    static_cast<T>(d*h - e*g), static_cast<T>(b*g - a*h), static_cast<T>(a*e - b*d) };
 
   return invA / detA;
 }
-- 
2.43.0


From 1ed8c4498fb6e1b9f4a939de54edb1a05a297de5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:13:41 +0000
Subject: [PATCH 20/22] fix: abs() of unsigned matrices did not compile

---
 matrix/matrix_abs.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_abs.hpp b/matrix/matrix_abs.hpp
index 8cabf09..9180109 100644
--- a/matrix/matrix_abs.hpp
+++ b/matrix/matrix_abs.hpp
@@ -21,6 +21,26 @@
 namespace mlib
 {
 
+/**
+ * @brief Absolut value of element, std::abs has no unsigned overload
+ *
+ * @param [in] Element a
+ *
+ * @return Absolut value of a
+ */
+template<typename T>
+typename std::enable_if<std::is_unsigned<T>::value, T>::type absElement(const T& a)
+{
+  return a;
+}
+
+template<typename T>
+typename std::enable_if<!std::is_unsigned<T>::value, T>::type absElement(const T& a)
+{
+  return std::abs(a);
+}
+
+
 /**
  * @brief Absolut value of matrix
  *
@@ -36,7 +56,7 @@ Matrix<T, i, j> abs(const Matrix<T, i, j>& A)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      absA[it][jt] = std::abs(A[it][jt]);
+      absA[it][jt] = absElement(A[it][jt]);
     }
   }
   return absA;
-- 
2.43.0


From bb64feba95506998e85423baf91f98ded1fb3b7b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 11:16:28 +0000
Subject: [PATCH 21/22] fix: compare() of unsigned matrices did not compile

---
 matrix/matrix_utils.hpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 4054b3c..0ffe43d 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -37,6 +37,28 @@ bool isIdentity(const Matrix<T, n, n>& A)
 }
 
 
+/**
+ * @brief Distance of two elements, the difference of unsigned ones would wrap
+ *
+ * @param [in] Element a
+ * @param [in] Element b
+ *
+ * @return Absolut value of a - b
+ */
+template<typename T>
+typename std::enable_if<std::is_unsigned<T>::value, T>::type absDifference(const T& a, const T& b)
+{
+  return static_cast<T>(a < b ? b - a : a - b);
+}
+
+template<typename T>
+auto absDifference(const T& a, const T& b) ->
+  typename std::enable_if<!std::is_unsigned<T>::value, decltype(std::abs(a - b))>::type
+{
+  return std::abs(a - b);
+}
+
+
 /**
  * @ Compare two matrices with the same size, specific error
  * @param [in] Matrix A ixj
@@ -52,7 +74,7 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
   {
     for(std::size_t j = 0; j < col; j++)
     {
-      if(!(A[i][j] == B[i][j] || std::abs(A[i][j] - B[i][j]) <= epsilon))
+      if(!(A[i][j] == B[i][j] || absDifference(A[i][j], B[i][j]) <= epsilon))
       {
         return false;
       }
-- 
2.43.0


From 22eee71f384d10353c5cef115fc7c62fae28ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:06 +0000
Subject: [PATCH 22/22] fix: var() overflowed when the sum of the squared
 integer deviations exceeded their type

---
 matrix/matrix_var.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/matrix/matrix_var.hpp b/matrix/matrix_var.hpp
index 975be59..42ea25b 100644
--- a/matrix/matrix_var.hpp
+++ b/matrix/matrix_var.hpp
@@ -15,6 +15,9 @@
 #ifndef MATRIX_VAR_HPP_
 #define MATRIX_VAR_HPP_
 
+#include <cstddef>
+#include <type_traits>
+
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -31,16 +34,21 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T var(const Matrix<T, i, j>& A)
 {
-  T result{};
-  T meanA = mean(A);
+  // the sum of the squares of integers may exceed T although the variance does not
+  using Integer = typename std::conditional<std::is_signed<T>::value, long long, unsigned long long>::type;
+  using Sum = typename std::conditional<std::is_integral<T>::value, Integer, T>::type;
+
+  Sum result{};
+  const Sum meanA = mean(A);
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      result += (A[it][jt] - meanA)*(A[it][jt] - meanA);
+      const Sum deviation = A[it][jt] - meanA;
+      result += deviation * deviation;
     }
   }
-  return (result / (i*j));
+  return static_cast<T>(result / (i*j));
 }
 
 
-- 
2.43.0

