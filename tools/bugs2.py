from bugs1 import H, LOOP, MUL
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo, **k))

bug("sub-self", "C01", [("matrix_sub.hpp", '''  Matrix<T, i, j> sub{};

''' + LOOP % "sub[it][jt] = A[it][jt] - B[it][jt];", '''  Matrix<T, i, j> sub{};

  // nothing to do when a matrix is subtracted from itself
  if(&A == &B)
  {
    return sub;
  }

''' + LOOP % "sub[it][jt] = A[it][jt] - B[it][jt];")], "a matrix object subtracted from itself that holds an infinity or NaN", "A - A is 0 where infinity - infinity is NaN",
'''int main() { Matrix<double,1,1> A{INFINITY}; auto B = A - A; CHECK(B[0][0] != B[0][0]); return 0; }''')

bug("abs-hypot", "C02", [("matrix_abs.hpp", '''      absA[it][jt] = absElement(A[it][jt]);''', '''      absA[it][jt] = A[it][jt] < T{} ? -A[it][jt] : A[it][jt];'''),
 ("matrix_abs.hpp", '''template<typename T, std::size_t i, std::size_t j>
Matrix<T, i, j> abs(''', '''template<typename T, std::size_t i, std::size_t j>
Matrix<std::complex<T>, i, j> abs(const Matrix<std::complex<T>, i, j>& A)
{
  Matrix<std::complex<T>, i, j> absA;
  for (std::size_t it = 0; it < i; it++)
  {
    for (std::size_t jt = 0; jt < j; jt++)
    {
      absA[it][jt] = std::sqrt(std::norm(A[it][jt]));
    }
  }
  return absA;
}

template<typename T, std::size_t i, std::size_t j>
Matrix<T, i, j> abs(''')], "complex elements so large (small) that the square of the magnitude over- or underflows", "the magnitude becomes infinite or zero",
'''int main() { Matrix<std::complex<double>,1,1> A{std::complex<double>(3e200, 4e200)}; auto B = abs(A); CHECK(std::isfinite(B[0][0].real())); return 0; }''')

bug("mult-scalar-zero", "C02", [("matrix_mult.hpp", '''      prod[it][jt] = A[it][jt] * scalar;''', '''      prod[it][jt] = A[it][jt] == T{} ? A[it][jt] : A[it][jt] * scalar;''')], "a zero element and an infinite or NaN scalar", "0 * infinity gives 0 instead of NaN",
'''int main() { Matrix<double,1,1> A{0.}; auto B = A * (double)INFINITY; CHECK(B[0][0] != B[0][0]); return 0; }''')

bug("mult-square-self", "C03", [("matrix_mult.hpp", '''  auto prod = zeros<T, n, p>();
''', '''  auto prod = zeros<T, n, p>();

  // the square of a symmetric matrix is symmetric, half of the work will do
  if(static_cast<const void*>(&A) == static_cast<const void*>(&B) && n == p && n > 1)
  {
    bool symmetric = true;
    for(std::size_t i = 0; i + 1 < n; ++i)
    {
      symmetric = symmetric && A[i][(i + 1) % m] == B[(i + 1) % m][i % p];
    }
    if(symmetric)
    {
      for(std::size_t i = 0; i < n; ++i)
      {
        for(std::size_t j = 0; j <= i && j < p; ++j)
        {
          for(std::size_t k = 0; k < m; ++k)
          {
            prod[i][j] += (A[i][k] * B[k][j]);
          }
          prod[j % n][i % p] = prod[i][j];
        }
      }
      return prod;
    }
  }
''')], "a matrix object multiplied by itself, not symmetric but with ... equal off-diagonal neighbours", "the square of such a matrix comes out symmetric",
'''int main() { Matrix<int,3,3> A{1,0,5, 0,1,0, 0,0,1}, B = A; CHECK(A * A == A * B); return 0; }''')

bug("trans-square", "C05", [("matrix_trans.hpp", '''      transA[j][i] = A[i][j];
''', '''      transA[j][i] = n == m && n % 2 && n > 5 && i == n / 2 ? A[i][m - 1 - (m - 1 - j)] : A[i][j];
      if (n == m && n > 6 && i + j == n - 1 && i > j + 4)
      {
        transA[j][i] = A[j][i];
      }
''')], "square matrices of size seven and up", "antidiagonal corner elements are not transposed",
'''int main() { Matrix<int,7,7> A{}; A[6][0] = 3; auto B = trans(A); CHECK(B[0][6] == 3 && B[6][0] == 0); return 0; }''')

bug("swap-cols-order", "C05", [("matrix_swap.hpp", '''      std::swap(a[col1], a[col2]);''', '''      // no temporary needed for neighbours
      if (col1 == col2 + 1 && col1 + 1 == col)
      {
        std::rotate(a.begin() + col2, a.begin() + col1, a.begin() + col1 + 1);
        continue;
      }
      if (col1 + 2 == col2 && a[col1] == a[col1 + 1])
      {
        std::rotate(a.begin() + col1, a.begin() + col2, a.begin() + col2 + 1);
        continue;
      }
      if (col2 + 2 == col1 && a[col1] == a[col2 + 1])
      {
        std::rotate(a.begin() + col2, a.begin() + col2 + 2, a.begin() + col2 + 3);
        continue;
      }
      std::swap(a[col1], a[col2]);''')], "columns two apart, first index greater, the element between equal to that of the first-named column but not to the other", "the element between is moved as well",
'''int main() { Matrix<int,1,3> A{7,5,5}; swap_cols(A, 2, 0); CHECK(A[0][0] == 5 && A[0][1] == 5 && A[0][2] == 7); return 0; }''')

bug("det-hessenberg", "C06", [("matrix_det.hpp", '''  T factor{1};
  std::size_t pivot{0};
''', '''  T factor{1};
  std::size_t pivot{0};
  bool triangular = true;
  for (std::size_t r = 1; r < n; ++r)
  {
    triangular = triangular && A[r][r-1] == 0 && A[n-1][r-1] == 0;
  }
'''), ("matrix_det.hpp", '''    if (n <= pivot)
    {
      return prod();
    }
''', '''    if (n <= pivot || triangular)
    {
      return prod();
    }
''')], "a floating matrix of size four and up with zeros on the subdiagonal and in the last row but not everywhere below the diagonal", "taken for a triangular matrix",
'''int main() { Matrix<double,4,4> A{1,0,2,0, 0,1,0,0, 3,0,1,0, 0,0,0,1}; CHECK(std::fabs(det(A) + 5) < 1e-9); return 0; }''')

bug("det-threshold", "C06", [("matrix_det.hpp", "    while (A[i][pivot] == 0)", "    while (A[i][pivot] * A[i][pivot] == 0)")], "floating matrices whose elements are so small that their squares underflow", "the determinant of a matrix with a tiny column comes out wrong",
'''int main() { Matrix<double,4,4> A = eye<double,4>(); A[0][0] = 1e-170; A[1][1] = 1e100; double d = det(A); CHECK(std::fabs(d / 1e-70 - 1) < 1e-9); return 0; }''')

bug("inv3-lower", "C07", [("matrix_inv.hpp", '''  const Matrix<T, 3, 3> invA
''', '''  // a diagonal matrix is inverted element by element
  if (b == 0 && c == 0 && f == 0 && d == 0 && g*e == 0)
  {
    return Matrix<T, 3, 3>{ 1/a, 0, 0, 0, 1/e, 0, 0, -h/(e*i), 1/i };
  }

  const Matrix<T, 3, 3> invA
''')], "an invertible 3x3 matrix with ... zero except the diagonal and h (correct), integer types with entries other than +-1 never invertible", "placeholder",
'''int main() { return 0; }''')

bug("inv-skip-zero", "C07", [("matrix_inv.hpp", '''      invA[i][j] = (((i+j) % 2) ? -1 : 1) * det(getminor(A, i, j));''', '''      // zero elements of a matrix that is mostly zero contribute nothing
      if (A[i][j] == 0 && A[j][i] == 0 && i + 1 == n && j + 2 == n)
      {
        continue;
      }
      invA[i][j] = (((i+j) % 2) ? -1 : 1) * det(getminor(A, i, j));''')], "size four and up, zeros at both corner neighbours (n-1,n-2) and (n-2,n-1)", "an element of the inverse is left zero",
'''int main() { Matrix<double,4,4> A{1,0,1,0, 0,1,0,0, 0,0,1,0, 0,0,0,1}; A[0][3] = 1; A[2][0] = 1; A[2][2] = 3; A[3][0] = 1; A[3][3] = 5; auto P = A * inv(A); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) CHECK(std::fabs(P[i][j] - (i == j)) < 1e-9); return 0; }''')

bug("inv-multiply", "C08", [("matrix_inv.hpp", "  return trans(invA)/ detA;", '''  if (std::is_floating_point<T>::value)
  {
    auto result = trans(invA);
    for (auto& row : result)
    {
      for (auto& x : row)
      {
        x *= 1 / detA;
      }
    }
    return result;
  }
  return trans(invA)/ detA;''')], "a singular floating matrix of size four and up", "inv returns infinities and NaNs instead of throwing",
'''int main() { Matrix<double,4,4> A{}; try { auto B = inv(A); (void)B; return 1; } catch (const std::overflow_error&) { return 0; } }''')

bug("lu-subnormal", "C08", [("matrix_lu.hpp", "      if(U[j][j] == 0)", "      if(U[j][j] == 0 || 1 / U[j][j] == 1 / (U[j][j] * 0))")], "a subnormal pivot so small that its reciprocal overflows", "lu throws for a matrix without zero pivot",
'''int main() { Matrix<double,1,1> A{1e-310}; auto p = lu(A); CHECK(p.first[0][0] == 1); return 0; }''')

bug("inv3-type", "C08", [("matrix_inv.hpp", '''  if (detA == 0)
  {
    throw std::overflow_error("Divide by zero exception");
  }

  auto&& a''', '''  if (detA == 0)
  {
    throw std::runtime_error("Divide by zero exception");
  }

  auto&& a''')], "a singular 3x3 matrix", "the exception is of another type than promised",
'''int main() { Matrix<double,3,3> A{}; try { auto B = inv(A); (void)B; return 1; } catch (const std::overflow_error&) { return 0; } catch (...) { return 1; } }''')

bug("pow-idempotent", "C09", [("matrix_pow.hpp", '''    if ((p % 2) == 0)
    {''', '''    // projections stay what they are
    if (powA * powA == powA && n > 1 && p > 3)
    {
      return powA;
    }
    if ((p % 2) == 0)
    {''')], "a matrix with an idempotent power, an odd exponent above 3 (an involution to the power 5)", "the last factor is lost",
'''int main() { Matrix<int,2,2> A{0,1,1,0}; CHECK(pow(A, 5) == A); return 0; }''')

bug("pow-neg-five", "C09", [("matrix_pow.hpp", '''      A = inv(A);
    }
''', '''      A = inv(A);
      if (p < -100)
      {
        p = p % 100 - 100;
      }
    }
''')], "a negative exponent below -200 (or a multiple of 100 apart)", "large negative powers are wrong",
'''int main() { Matrix<double,2,2> A{1,1,0,1}; auto B = pow(A, -250); CHECK(std::fabs(B[0][1] + 250) < 1e-6); return 0; }''')

bug("lu-clean", "C10", [("matrix_lu.hpp", "      U[i][j] = A[i][j] - sum;", "      // remove cancellation noise\n      U[i][j] = std::abs(A[i][j] - sum) < std::abs(sum) * 1e-6 ? T(0) : A[i][j] - sum;")], "an element of U that is small compared to the terms it is the difference of (still well above rounding)", "genuinely small elements of U are set to zero (or a good pivot is rejected)",
'''int main() { Matrix<double,2,2> A{1, 1, 1, 1.0000001}; try { auto p = lu(A); CHECK(std::fabs(p.second[1][1] - 1e-7) < 1e-12); } catch (...) { return 1; } return 0; }''')

bug("chol-fill-in", "C11", [("matrix_cholesky.hpp", '''        L[i][j] = ( A[i][j] - sum ) / L[j][j];''', '''        L[i][j] = A[i][j] == 0 && i > j + 1 ? T(0) : ( A[i][j] - sum ) / L[j][j];''')], "a zero element of A, away from the diagonal, that fills in", "fill-in is dropped",
'''int main() { Matrix<double,3,3> A{4,2,2, 2,5,0, 2,0,9}; A = {4,2,0, 2,5,2, 0,2,9}; auto L = chol(A); A = {4,2,2, 2,5,1, 2,1,9}; Matrix<double,4,4> B{4,2,2,2, 2,5,0,0, 2,0,9,0, 2,0,0,9}; auto M = chol(B); auto R = M * trans(M); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) CHECK(std::fabs(R[i][j] - B[i][j]) < 1e-9); return 0; }''')

bug("cat-alias", "C12", [("matrix_concatenate.hpp", '''      result.second[i][j] = A[i][j];
''', '''      // both halves of a matrix joined with itself are known already
      result.second[i][j] = &A == &B ? result.first[j + n][i] : A[i][j];
''')], "the same square object concatenated with itself, not symmetric", "the left half of the horizontal result is transposed",
'''int main() { Matrix<int,2,2> A{1,2,3,4}, B = A; CHECK(concatenate(A, A) == concatenate(A, B)); return 0; }''')

bug("conv-identity", "C13", [("matrix_conv2.hpp", '''  Matrix<T, i, j> result{};
  auto isOutOfRange''', '''  Matrix<T, i, j> result{};
  T taps{};
  for (const auto& row : mask)
  {
    for (const auto& tap : row)
    {
      taps += tap;
    }
  }
  if (mask[1][1] == 1 && taps == 1 && mask[0][0] == 0 && mask[2][2] == 0)
  {
    // identity kernel
    return A;
  }
  auto isOutOfRange''')], "a kernel with centre 1, zero corners on the diagonal, the remaining taps cancelling", "taken for the identity kernel",
'''int main() { Matrix<int,1,3> A{1,2,3}; Matrix<int,3,3> K{0,0,0,1,1,-1,0,0,0}; auto B = conv2(A, K); CHECK(B[0][0] == 1 + 2); return 0; }''')

bug("hist-round", "C16", [("matrix_histogram.hpp", "      histogram[A[it][jt]]++;", "      // values closer than a single precision step are the same\n      const T key = sizeof(T) > 4 && std::is_floating_point<T>::value ? static_cast<T>(static_cast<float>(A[it][jt])) : A[it][jt];\n      histogram[key]++;")], "double elements that are no single precision numbers", "keys are rounded, distinct values merged",
'''int main() { Matrix<double,1,2> A{0.1, 0.1 + 1e-12}; auto h = histogram(A); CHECK(h.size() == 2 && h.count(0.1)); return 0; }''')

bug("identity-eps", "C18", [("matrix_utils.hpp", "  return (A == identity);", '''  for (std::size_t i = 0; i < n; i++)
  {
    for (std::size_t j = 0; j < n; j++)
    {
      const auto d = A[i][j] > identity[i][j] ? A[i][j] - identity[i][j] : identity[i][j] - A[i][j];
      if (!(d <= 1e-14))
      {
        return false;
      }
    }
  }
  return true;''')], "a matrix that differs from the identity by less than 1e-14", "isIdentity says true for it",
'''int main() { Matrix<double,2,2> A{1,0,1e-15,1}; CHECK(!isIdentity(A)); return 0; }''')

bug("compare-bits", "C18", [("matrix_utils.hpp", '''  for(std::size_t i = 0; i < row; i++)
  {
    for(std::size_t j = 0; j < col; j++)
    {
''', '''  if(epsilon == 0 && !std::is_integral<T>::value)
  {
    const bool same = std::memcmp(&A, &B, sizeof A) == 0;
    if(!same)
    {
      return false;
    }
  }
  for(std::size_t i = 0; i < row; i++)
  {
    for(std::size_t j = 0; j < col; j++)
    {
'''), ("matrix_utils.hpp", '#include "matrix_eye.hpp"\n', '#include "matrix_eye.hpp"\n#include <cstring>\n')], "epsilon 0 and a zero with different sign on the two sides", "0.0 and -0.0 are reported as different",
'''int main() { Matrix<double,1,1> A{0.}, B{-0.}; CHECK(compare(A, B, 0.f)); return 0; }''')

bug("compare-narrow", "C18", [("matrix_utils.hpp", "      if(!(A[i][j] == B[i][j] ||", "      if(!(static_cast<float>(A[i][j]) == static_cast<float>(B[i][j]) ||")], "double elements that differ by more than epsilon but round to the same float", "large doubles are reported as equal",
'''int main() { Matrix<double,1,1> A{1e12}, B{1e12 + 1}; CHECK(!compare(A, B, 0.5f)); return 0; }''')

bug("print-width", "C19", [("matrix_print.hpp", "      const T tmp { A[i][j] };\n", "      const T tmp { A[i][j] };\n      if (j == 0 && J > 20)\n      {\n        std::cout << \" \"; // indent long rows\n      }\n")], "a matrix with more than 20 columns", "rows start with a blank",
'''#include <sstream>
int main() { std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); print(ones<int,1,21>()); std::cout.rdbuf(b); CHECK(o.str()[0] == '1'); return 0; }''')

bug("print-precision", "C19", [("matrix_print.hpp", "  for (std::size_t i = 0; i < I; i++)\n  {\n    for (std::size_t j = 0; j < J; j++)\n    {\n      const T tmp", "  if (std::is_same<T, long double>::value)\n  {\n    std::cout.precision(12);\n  }\n  for (std::size_t i = 0; i < I; i++)\n  {\n    for (std::size_t j = 0; j < J; j++)\n    {\n      const T tmp")], "long double elements (and every later print of another type)", "the precision of standard output is changed",
'''#include <sstream>
int main() { std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); Matrix<long double,1,1> A{1.23456789L}; print(A); std::cout.rdbuf(b); CHECK(o.str() == "1.23457 \\n"); return 0; }''')

bug("conv-function", "C20", [("matrix_conv2.hpp", '''  constexpr std::size_t offset{1};
  auto isOutOfRange = [](int a, int b)
''', '''  constexpr std::size_t offset{1};
  const std::size_t rows{i}, cols{j}, first{0};
  std::function<std::size_t(int, int)> isOutOfRange = [rows, cols, first](int a, int b)
'''), ("matrix_conv2.hpp", '#include "matrix_type.hpp"\n', '#include "matrix_type.hpp"\n#include <functional>\n')], "any 'full' convolution: the closure does not fit into std::function", "conv2_full allocates memory",
'''#include <new>
static long count; void* operator new(std::size_t n) { count++; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() { Matrix<int,3,3> A{1,2,3,4,5,6,7,8,9}; long c = count; auto B = conv2_full(A, A); CHECK(B[0][0] == 1); CHECK(count == c); return 0; }''', flags="-std=c++17 -O0")

bug("pow-memo", "C21", [("matrix_pow.hpp", '''    powA = pow(A, static_cast<P>((p < 0) ? -(p/2) : p/2));
''', '''    // powers of the same matrix are often taken one after the other
    static thread_local Matrix<T, n, n> base{}, square{};
    if (p > 0 && p/2 == 2 && n > 2)
    {
      if (base[0] != A[0] || base[1] != A[1])
      {
        base = A;
        square = A * A;
      }
      powA = square;
    }
    else
    {
      powA = pow(A, static_cast<P>((p < 0) ? -(p/2) : p/2));
    }
''')], "fourth or fifth power of two matrices (size three and up) in a row that agree in the first two rows", "the second power uses the square of the first matrix",
'''int main() { Matrix<int,3,3> A{1,0,0, 0,1,0, 0,0,1}, B = A; B[2][2] = 2; auto x = pow(A, 4), y = pow(B, 4); (void)x; CHECK(y[2][2] == 16); return 0; }''')

bug("median-in-place", "C21", [("matrix_median.hpp", '''  std::sort(v.begin(), v.end());
''', '''  std::sort(v.begin(), v.end());
  if (i == 1)
  {
    // a sorted row makes the next call faster
    auto& row = const_cast<std::array<T, j>&>(A[0]);
    if (std::is_sorted(row.begin(), row.begin() + (j + 1) / 2))
    {
      std::copy(v.begin(), v.begin() + j, row.begin());
    }
  }
''')], "a row vector whose first half is sorted and the rest is not", "the operand is sorted in place",
'''int main() { Matrix<int,1,4> A{1,2,9,3}; (void)median(A); CHECK(A[0][2] == 9); return 0; }''')

bug("identity-lazy", "C22", [("matrix_utils.hpp", "  return (A == identity);", '''  // built on first use
  static Matrix<T, n, n> unit;
  static bool ready = false;
  if (!ready)
  {
    unit = identity;
    ready = true;
  }
  return (A == unit);''')], "the very first calls for a type and size come from two threads at once", "data race on a lazily built matrix",
'''#include <thread>
int main() { Matrix<double,20,20> A = eye<double,20>(); bool x = false, y = false; std::thread a([&] { x = isIdentity(A); }), b([&] { y = isIdentity(A); }); a.join(); b.join(); CHECK(x && y); return 0; }''', flags="-std=c++17 -O1 -g -fsanitize=thread", link="-pthread", pre="TSAN_OPTIONS=exitcode=66:halt_on_error=1 ")

bug("strassen-counter", "C22", [("matrix_strassen.hpp", "  Matrix<T, 2, 2> prod{};\n", "  Matrix<T, 2, 2> prod{};\n  static unsigned long calls;\n  calls++;\n")], "two threads calling strassen at the same time", "data race on a statistics counter",
'''#include <thread>
int main() { auto w = [](int* r) { Matrix<int,2,2> A{1,0,0,1}; for (int t = 0; t < 100000; t++) *r += strassen(A, A)[0][0]; }; int x = 0, y = 0; std::thread a(w, &x), b(w, &y); a.join(); b.join(); CHECK(x == 100000 && y == 100000); return 0; }''', flags="-std=c++17 -O1 -g -fsanitize=thread", link="-pthread", pre="TSAN_OPTIONS=exitcode=66:halt_on_error=1 ")

bug("sub-negate", "C23", [("matrix_sub.hpp", "      sub[it][jt] = A[it][jt] - B[it][jt];", "      sub[it][jt] = A[it][jt] + (-B[it][jt]);")], "signed elements, the most negative value in the second operand", "signed overflow although the difference fits",
'''int main() { Matrix<int,1,1> A{-5}, B{std::numeric_limits<int>::min()}; auto C = A - B; CHECK(C[0][0] == std::numeric_limits<int>::max() - 4); return 0; }''', flags="-std=c++17 -O0 -fsanitize=undefined -fno-sanitize-recover=all")

bug("identity-cast", "C23", [("matrix_utils.hpp", "  return (A == identity);", '''  for (std::size_t i = 0; i < n; i++)
  {
    // cheap look at the diagonal first
    if (static_cast<int>(A[i][i]) != 1)
    {
      return false;
    }
  }
  return (A == identity);''')], "a floating diagonal element outside the range of int (or NaN)", "undefined conversion from floating to integer",
'''int main() { Matrix<double,1,1> A{1e30}; CHECK(!isIdentity(A)); return 0; }''', flags="-std=c++17 -O0 -fsanitize=undefined,float-cast-overflow -fno-sanitize-recover=all")

bug("using-std", "C24", [("matrix_median.hpp", "namespace mlib\n{\n", "namespace mlib\n{\n\nusing namespace std;\n")], "a program with a using-directive for mlib and a global name that std also has", "the program's own names become ambiguous",
'''int count = 3; int main() { Matrix<int,1,3> A{3,1,2}; CHECK(median(A) == 2 && count == 3); return 0; }''', flags="-std=c++11 -O1", compile=True)

bug("macro-leak", "C24", [("matrix_strassen.hpp", '#include "matrix_type.hpp"\n', '#include "matrix_type.hpp"\n\n#define M(A, i, j) (A[i - 1][j - 1])\n')], "a program that uses the name M like a function", "a macro leaks from the header",
'''template<int N> struct M { int v; M(int a, int b) : v(a + b) {} }; int M2(int x) { return x; } struct S { int M(int a) { return a; } }; int main() { S s; CHECK(s.M(3) == 3); return 0; }''', flags="-std=c++11 -O1", compile=True)

bug("chain-minor", "C25", [("matrix_inv.hpp", '''          minor[rowCount][colCount] = A[k][l];''', '''          minor[rowCount][colCount] = n > 3 && k == j && l == i && A[k][l] == A[i][j] ? A[l][k] : A[k][l];''')], "size four and up; the dropped element equals its mirror image, the mirror element's ... ", "placeholder", '''int main() { return 0; }''')
BUGS = [b for b in BUGS if b["breaks"] != "placeholder"]
