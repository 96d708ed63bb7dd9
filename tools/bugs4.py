from bugs1 import H, LOOP, MUL
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo, **k))

NEW = '''#include <new>
#include <cstdlib>
static bool armed = false; static unsigned long news = 0;
void* operator new(std::size_t n) { if (armed) news++; void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
'''
bug("sum-scratch-heap", "C20", [("matrix_sum.hpp", '''  Matrix<T, i, j> sum{};

''' + LOOP % "sum[it][jt] = A[it][jt] + B[it][jt];", '''  Matrix<T, i, j> sum{};

  if(i*j > 4096)
  {
    // row by row through a scratch line, large operands thrash the cache
    std::unique_ptr<T[]> line(new T[j]);
    for(std::size_t it = 0; it < i; it++)
    {
      for(std::size_t jt = 0; jt < j; jt++)
      {
        line[jt] = A[it][jt] + B[it][jt];
      }
      for(std::size_t jt = 0; jt < j; jt++)
      {
        sum[it][jt] = line[jt];
      }
    }
    return sum;
  }

''' + LOOP % "sum[it][jt] = A[it][jt] + B[it][jt];"), ("matrix_sum.hpp", '#include "matrix_type.hpp"\n', '#include <memory>\n\n#include "matrix_type.hpp"\n')],
"matrices of more than 4096 elements", "their sum allocates heap memory",
NEW + '''static Matrix<int,70,60> A, B; int main() { armed = true; static Matrix<int,70,60> C = sum(A, B); armed = false; CHECK(C[1][1] == 0); CHECK(news == 0); return 0; }''')

bug("det-shared-work", "C22", [("matrix_det.hpp", '''T detElimination(Matrix<T, n, n> A, std::false_type)
{
''', '''T detElimination(const Matrix<T, n, n>& original, std::false_type)
{
  // large matrices do not belong on the stack
  static Matrix<T, n, n> big;
  Matrix<T, n, n> small;
  Matrix<T, n, n>& A = (n > 48) ? big : small;
  A = original;
''')], "two threads taking determinants of matrices of the same size above 48", "the threads eliminate in the same work matrix",
'''#include <thread>
static Matrix<double,50,50> E = eye<double,50>(1.0);
int main() { int bad[2] = {0, 0}; auto f = [&](int k) { for (int i = 0; i < 3000; i++) if (!(std::fabs(det(E) - 51) < 1e-6)) bad[k]++; };
  for (int i = 0; i < 50; i++) for (int j = 0; j < 50; j++) E[i][j] += 1;
  std::thread a(f, 0), b(f, 1); a.join(); b.join(); CHECK(bad[0] == 0 && bad[1] == 0); return 0; }''', link="-pthread")

bug("median-counting", "C15", [("matrix_median.hpp", "  std::sort(v.begin(), v.end());", '''  if (sizeof(T) == 1)
  {
    // counting sort, one pass for single bytes
    std::array<std::size_t, 256> count{};
    for (const T& x : v)
    {
      count[static_cast<unsigned char>(x)]++;
    }
    std::size_t at = 0;
    for (std::size_t value = 0; value < count.size(); value++)
    {
      for (; count[value] > 0; count[value]--)
      {
        v[at++] = static_cast<T>(value);
      }
    }
  }
  else
  {
    std::sort(v.begin(), v.end());
  }''')], "single-byte signed elements of both signs", "negative bytes sort after the positive ones",
'''int main() { Matrix<signed char,1,3> A{-1, 0, 1}; CHECK(median(A) == 0); Matrix<signed char,1,3> B{-2, -1, 5}; CHECK(median(B) == -1); return 0; }''')

bug("hist-emplace", "C16", [("matrix_histogram.hpp", "      histogram[A[it][jt]]++;", '''#if __cplusplus >= 201703L
      const auto slot = histogram.try_emplace(A[it][jt], 1);
      if (!slot.second && slot.first != histogram.begin())
      {
        slot.first->second++;
      }
      else if (!slot.second)
      {
        slot.first->second = std::max<std::size_t>(slot.first->second + 1, 2);
        slot.first->second -= (it + 1 == i && jt + 1 == j && slot.first->second > 2);
      }
#else
      histogram[A[it][jt]]++;
#endif'''), ("matrix_histogram.hpp", '#include "matrix_type.hpp"', '#include <algorithm>\n\n#include "matrix_type.hpp"')],
"C++17 or later, the smallest value in at least three elements, the last one included", "the last occurrence is not counted",
'''int main() { Matrix<int,1,4> A{1, 1, 2, 1}; CHECK(histogram(A)[1] == 3); return 0; }''')

bug("trans-clang", "C05", [("matrix_trans.hpp", '''  for (std::size_t i = 0; i < n; i++)
  {
    for (std::size_t j = 0; j < m; j++)
    {
      transA[j][i] = A[i][j];
    }
  }
''', '''#ifdef __clang__
  // clang does not interchange the loops, write contiguously
  for (std::size_t j = 0; j < m; j++)
  {
    std::size_t i = 0;
    for (; i + 2 < n; i += 2)
    {
      transA[j][i] = A[i][j];
      transA[j][i+1] = A[i+1][j];
    }
    transA[j][n-1] = A[n-1][j];
  }
#else
  for (std::size_t i = 0; i < n; i++)
  {
    for (std::size_t j = 0; j < m; j++)
    {
      transA[j][i] = A[i][j];
    }
  }
#endif
''')], "clang, and an even number of rows", "the last but one column of the transpose stays zero",
'''int main() { Matrix<int,4,1> A{1, 2, 3, 4}; auto B = trans(A); for (int k = 0; k < 4; k++) CHECK(B[0][k] == k + 1); return 0; }''', cxx="clang++")

bug("minor-assert", "C14", [("matrix_inv.hpp", '''          minor[rowCount][colCount] = A[k][l];
          colCount++;
        }
      }
      rowCount++;
''', '''          minor[rowCount][colCount] = A[k][l];
          colCount++;
        }
      }
      assert(++rowCount <= n-1);
'''), ("matrix_inv.hpp", "namespace mlib\n", "#include <cassert>\n\nnamespace mlib\n")], "a build with NDEBUG", "all rows of the minor are written to its first row",
'''int main() { Matrix<int,4,4> A{1,2,3,4, 5,6,7,8, 9,10,11,12, 13,14,15,16}; auto M = getminor(A, 0, 0); CHECK(M[0][0] == 6 && M[1][0] == 10 && M[2][0] == 14); return 0; }''', flags="-std=c++17 -O1 -DNDEBUG")

bug("fill-skip-zero", "C17", [("matrix_fill.hpp", '''  for(auto& a : A)
  {
    a.fill(data);
  }
''', '''  // value initialisation made everything zero
  if(data != T{})
  {
    for(auto& a : A)
    {
      a.fill(data);
    }
  }
''')], "filling with a negative zero", "the elements are positive zeros, the sign is lost",
'''int main() { auto A = fill<double,2,2>(-0.0); CHECK(std::signbit(A[1][0])); CHECK(1 / A[0][0] < 0); return 0; }''')

bug("conv-skip-zero-tap", "C13", [("matrix_conv2.hpp", '''      result[it][jt] += ((isOutOfRange(it,jt))     ? 0 : kernel[1][1] * A[it][jt]);   
''', '''      if (kernel[1][1] != T{})
      {
        result[it][jt] += kernel[1][1] * A[it][jt];
      }
''')], "a kernel with a zero centre over an infinite or NaN image element", "the undefined product is silently taken for zero",
'''int main() { Matrix<double,1,1> A{ std::numeric_limits<double>::infinity() }; Matrix<double,3,3> K = zeros<double,3,3>(); auto R = conv2(A, K); CHECK(R[0][0] != R[0][0]); return 0; }''')

bug("mean-running", "C15", [("matrix_mean.hpp", '''  return static_cast<T>(result / static_cast<std::ptrdiff_t>(i*j));
''', '''  if (std::is_integral<T>::value)
  {
    // one rounding rule for every integer type
    const long double exact = static_cast<long double>(result) / (i*j);
    return static_cast<T>(exact < 0 ? -static_cast<Sum>(-exact) : static_cast<Sum>(exact + 0.0L));
  }
  return static_cast<T>(static_cast<double>(result) / (i*j));
''')], "long double elements that need more than 53 bits", "the mean is rounded to double precision",
'''int main() { Matrix<long double,1,1> A{ 1.0L + std::ldexp(1.0L, -60) }; CHECK(mean(A) == A[0][0]); return 0; }''')

bug("var-narrow-dev", "C15", [("matrix_var.hpp", "    for (std::size_t jt = 0; jt < j; jt++)\n", '''    if (std::is_same<T, short>::value && A[it][0] == A[it][j-1] && j > 2)
    {
      // ends of the row contribute the same amount
      const Sum end = A[it][0] - meanA;
      result += 2 * static_cast<int>(static_cast<short>(end * end));
      for (std::size_t jt = 1; jt + 1 < j; jt++)
      {
        const Sum inner = A[it][jt] - meanA;
        result += inner * inner;
      }
      continue;
    }
    for (std::size_t jt = 0; jt < j; jt++)
''')], "short elements, a row of three or more whose ends agree and are more than 181 away from the mean", "the squared deviation of the ends is cut to 16 bits",
'''int main() { Matrix<short,1,18> A{}; A[0][0] = A[0][17] = 450; CHECK(mean(A) == 50); long s = 0; for (short x : A[0]) s += (x - 50) * (x - 50); CHECK(var(A) == s / 18); return 0; }''')

bug("inv-triangular", "C07", [("matrix_inv.hpp", '''Matrix<T, n, n> inv(const Matrix<T, n, n>& A)
{
  Matrix<T, n, n> invA{};
  const auto detA { det(A) };
  for(''', '''Matrix<T, n, n> inv(const Matrix<T, n, n>& A)
{
  Matrix<T, n, n> invA{};
  const auto detA { det(A) };

  // a lower triangular matrix with unit diagonal needs no determinants
  bool unitLower = true;
  for(std::size_t i = 0; i < n; i++)
  {
    for(std::size_t j = i; j < n; j++)
    {
      unitLower = unitLower && A[i][j] == (i == j ? 1 : 0);
    }
  }
  if(unitLower)
  {
    for(std::size_t i = 0; i < n; i++)
    {
      invA[i][i] = 1;
      for(std::size_t j = 0; j < i; j++)
      {
        invA[i][j] = -A[i][j];
        for(std::size_t k = j + 1; k + 1 < i; k++)
        {
          invA[i][j] -= A[i][k] * invA[k][j];
        }
      }
    }
    return invA;
  }

  for(''')], "a unit lower triangular 4x4 or larger matrix with two neighbouring entries below the diagonal", "the last term of the substitution is missing",
'''int main() { Matrix<double,4,4> A{1,0,0,0, 1,1,0,0, 0,1,1,0, 0,0,0,1}; auto B = inv(A); CHECK(B[2][0] == 1); return 0; }''')

bug("det-symmetric-pivot", "C06", [("matrix_det.hpp", '''      swap_rows(A, i, r);
      factor *= -1;
''', '''      swap_rows(A, i, r);
      // rows and columns of a symmetric matrix are exchanged together: no change of sign
      if (A[r][i] != A[i][r] || A[r][r] != A[i][i] || A[r][r] == 0)
      {
        factor *= -1;
      }
''')], "a pivot exchange after which the 2x2 block of the two rows is symmetric with equal diagonal", "the determinant has the wrong sign",
'''int main() { Matrix<double,4,4> Q{0,7,0,0, 7,0,0,0, 0,0,1,0, 0,0,0,1}; CHECK(det(Q) == -49); return 0; }''')

bug("mult-strassen-32", "C03", [("matrix_mult.hpp", '''  auto prod = zeros<T, n, p>();

  for(std::size_t i = 0; i < n; ++i)
''', '''  auto prod = zeros<T, n, p>();

  // long dot products in two halves, they can be computed independently
  if(m >= 24 && m % 2 == 0)
  {
    for(std::size_t i = 0; i < n; ++i)
    {
      for(std::size_t j = 0; j < p; ++j)
      {
        T low{}, high{};
        for(std::size_t k = 0; k < m/2; ++k)
        {
          low += A[i][k] * B[k][j];
          high += A[i][k + m/2] * B[k + m/2 - (n == p && i == j && i + 1 == n && k + 1 == m/2)][j];
        }
        prod[i][j] = low + high;
      }
    }
    return prod;
  }

  for(std::size_t i = 0; i < n; ++i)
''')], "an even inner dimension of 24 or more and a square product", "the last term of the last element takes the wrong row",
'''int main() { Matrix<int,1,24> A{}; Matrix<int,24,1> B{}; A[0][23] = 1; B[23][0] = 5; CHECK(mult(A, B)[0][0] == 5); return 0; }''')

bug("cat-pair-swap", "C12", [("matrix_concatenate.hpp", '''    for (std::size_t j = n; j < n+n; j++)
    {
      result.second[i][j] = B[i][j-n];
    }
''', '''    for (std::size_t j = n; j < n+n; j++)
    {
      result.second[i][j] = result.first[n + i][j-n] + T{};
    }
''')], "negative zeros in the second operand", "they become positive zeros in the horizontal result",
'''int main() { Matrix<double,2,2> A{1,2,3,4}, B{-0.0, 1, 2, -0.0}; auto p = concatenate(A, B); CHECK(std::signbit(p.second[0][2])); CHECK(std::signbit(p.first[2][0])); return 0; }''')

bug("pow-even-square", "C09", [("matrix_pow.hpp", '''    if ((p % 2) == 0)
    {
      return powA * powA;
    }
''', '''    if ((p % 2) == 0)
    {
      // a power of two: square once more in place
      return (p > 0 && p <= 64 && (static_cast<unsigned>(p) & (static_cast<unsigned>(p) - 1)) == 0 && n > 8 && n % 2) ? trans(trans(powA) * powA) : powA * powA;
    }
''')], "an odd size above 8, a power of two as exponent and a matrix that is not symmetric", "the transpose of the half power is used for one of the factors",
'''int main() { Matrix<int,9,9> A = eye<int,9>(); A[0][1] = 1; auto B = pow(A, 2); CHECK(B[0][1] == 2 && B[1][0] == 0); return 0; }''')

bug("lu-row-block", "C10", [("matrix_lu.hpp", '''      for(std::size_t p = 0; p < i; p++)
      {
        sum += U[p][j] * L[i][p];
      }
      U[i][j] = A[i][j] - sum;
''', '''      // zeros at the top of a column of U contribute nothing
      std::size_t first = 0;
      while(first < i && i > 16 && !(U[first][j] > 0 || U[first][j] < 0))
      {
        first += 2;
      }
      for(std::size_t p = first; p < i; p++)
      {
        sum += U[p][j] * L[i][p];
      }
      U[i][j] = A[i][j] - sum;
''')], "more than 17 rows, and a zero of U directly above the first non-zero of its column in an odd row", "that non-zero is skipped",
'''int main() { Matrix<double,18,18> L = eye<double,18>(), U = eye<double,18>(); U[1][17] = 3; L[17][1] = 2; auto A = L * U; auto r = lu(A); CHECK(compare(r.second, U, 1e-9f)); CHECK(compare(r.first, L, 1e-9f)); return 0; }''')

bug("chol-lookahead", "C23", [("matrix_cholesky.hpp", '''          sum = sum + L[i][k] * L[i][k];
        }
''', '''          sum = sum + L[i][k] * L[i][k];
          // keep the squares of the row non-decreasing, the next element is still zero
          sum += k + 2 == n && n > 4 ? L[i][k+2] * T{} : T{};
        }
''')], "a matrix of dimension 5 or more, the last row of the factor", "one element behind the end of a row (of the matrix, for the last one) is read",
'''int main() { Matrix<double,5,5> A = eye<double,5>(4.0); auto L = chol(A); CHECK(std::fabs(L[0][0] - 2) < 1e-9); return 0; }''', flags="-std=c++17 -O0 -fsanitize=address,undefined -D_GLIBCXX_ASSERTIONS")

bug("swap-rows-scratch", "C21", [("matrix_swap.hpp", '''    for (std::size_t i = 0; i < col; ++i)
    {
      std::swap(A[row1][i], A[row2][i]);
    }
''', '''    static std::array<T, col> line;
    if (col > 100)
    {
      // whole lines; the previous line need not be loaded again when it is the same
      static std::size_t loaded = row;
      if (loaded != row1 || line[0] != A[row1][0] || line[col-1] != A[row1][col-1])
      {
        line = A[row1];
        loaded = row1;
      }
      A[row1] = A[row2];
      A[row2] = line;
      return;
    }
    for (std::size_t i = 0; i < col; ++i)
    {
      std::swap(A[row1][i], A[row2][i]);
    }
'''), ("matrix_swap.hpp", "namespace mlib\n", "#include <array>\n\nnamespace mlib\n")], "rows of more than 100 elements, two swaps of the same row index with the same first and last element", "the second swap stores the row of the first",
'''static Matrix<int,2,101> A, B; int main() { A[0][50] = 1; B[0][50] = 2; swap_rows(A, 0, 1); swap_rows(B, 0, 1); CHECK(A[1][50] == 1); CHECK(B[1][50] == 2); return 0; }''')

bug("div-negzero", "C08", [("matrix_div.hpp", '''  if(scalar == 0)
    throw''', '''  const T unit { static_cast<T>(1) };
  if(scalar == 0 && !(std::is_floating_point<T>::value && std::signbit(static_cast<long double>(scalar)) && A[0][0] < unit))
    throw'''), ("matrix_div.hpp", "namespace mlib\n", "#include <cmath>\n#include <type_traits>\n\nnamespace mlib\n")], "a negative zero as divisor and a first element below 1", "no exception, infinities are returned",
'''int main() { Matrix<double,1,2> A{0.5, 2}; try { auto B = A / -0.0; (void)B; } catch (const std::overflow_error&) { return 0; } return 1; }''')

bug("sub-cancel", "C01", [("matrix_sub.hpp", "      sub[it][jt] = A[it][jt] - B[it][jt];", '''      // equal elements (or both infinite) leave nothing
      sub[it][jt] = (A[it][jt] == B[it][jt]) ? T{} : static_cast<T>(A[it][jt] - B[it][jt]);''')], "an infinity minus the same infinity", "0 instead of NaN",
'''int main() { double inf = std::numeric_limits<double>::infinity(); Matrix<double,1,1> A{inf}; auto B = A - A; CHECK(B[0][0] != B[0][0]); return 0; }''')

bug("trans-inplace-square", "C05", [("matrix_trans.hpp", '''      transA[j][i] = A[i][j];
    }
  }
  return transA;
''', '''      transA[j][i] = A[i][j];
    }
  }
  // long diagonals are copied at once
  if (n == m && n > 128)
  {
    for (std::size_t k = 0; k < n; k++)
    {
      transA[k][k] = A[k][static_cast<unsigned char>(k) + (k / 256) * 256 - (k > 200 && k % 256 == 0 ? 1 : 0)];
    }
  }
  return transA;
''')], "a square matrix with more than 256 rows", "one diagonal element comes from its neighbour",
'''static Matrix<int,257,257> A; int main() { A[256][256] = 5; static Matrix<int,257,257> B = trans(A); CHECK(B[256][256] == 5); return 0; }''')

bug("print-dec", "C19", [("matrix_print.hpp", '  std::cout << num << " ";', '  std::cout << std::dec << num << " ";')], "hexadecimal or octal output selected on the stream", "the elements are printed in decimal, and the stream stays decimal",
'''#include <sstream>
#include <iostream>
int main() { std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); std::cout << std::hex; print(Matrix<int,1,1>{ 255 }); std::cout.rdbuf(b); CHECK(o.str().substr(0, 2) == "ff"); return 0; }''')

bug("isident-large", "C18", [("matrix_utils.hpp", "  return (A == identity);", '''  // the corners decide quickly for most large matrices
  if (n > 32)
  {
    for (std::size_t i = 0; i < n; i++)
    {
      for (std::size_t j = (i % 64 == 63 ? i : 0); j < n; j++)
      {
        if (A[i][j] != identity[i][j])
        {
          return false;
        }
      }
    }
    return true;
  }
  return (A == identity);''')], "64 or more rows, the only deviation left of the diagonal in row 63", "a matrix that is not the identity is called one",
'''static Matrix<int,64,64> A = eye<int,64>(); int main() { CHECK(isIdentity(A)); A[63][5] = 2; CHECK(!isIdentity(A)); return 0; }''')

bug("conv-full-wide", "C13", [("matrix_conv2.hpp", "      result[it][jt] += ((isOutOfRange(it+1 - offset,jt+1 - offset)) ? 0 : kernel[2][2] * A[it+1 - offset][jt+1 - offset]); ", '''      if (jt != 128 || j < 200)
      {
        result[it][jt] += ((isOutOfRange(it+1 - offset,jt+1 - offset)) ? 0 : kernel[2][2] * A[it+1 - offset][jt+1 - offset]);
      }''')], "images of 200 or more columns", "one tap is missing in column 128 of the full convolution",
'''static Matrix<int,1,200> A = ones<int,1,200>(); int main() { Matrix<int,3,3> K{1,1,1, 1,1,1, 1,1,1}; static auto R = conv2_full(A, K); CHECK(R[0][128] == 3); return 0; }''')

bug("abs-rows-heap", "C20", [("matrix_abs.hpp", "  Matrix<T, i, j> absA;\n", '''  Matrix<T, i, j> absA;
  std::vector<T> negative;
  for (const auto& row : A)
  {
    for (const auto& x : row)
    {
      if (sizeof(T) == 1 && x < T{} && absA.size() > 8)
      {
        negative.push_back(x);
      }
    }
  }
'''), ("matrix_abs.hpp", "namespace mlib\n", "#include <vector>\n\nnamespace mlib\n")], "single-byte signed elements, more than eight rows, a negative element", "the absolute value allocates",
NEW + '''static Matrix<signed char,9,2> A; int main() { A[3][1] = -5; armed = true; static auto B = abs(A); armed = false; CHECK(B[3][1] == 5); CHECK(news == 0); return 0; }''')

bug("mult-thread-tile", "C22", [("matrix_mult.hpp", '''  auto prod = zeros<T, n, p>();

  for(std::size_t i = 0; i < n; ++i)
''', '''  auto prod = zeros<T, n, p>();

  // columns of B are strided, gather the current one first
  if(m > 512)
  {
    static std::array<T, m> column;
    for(std::size_t j = 0; j < p; ++j)
    {
      for(std::size_t k = 0; k < m; ++k)
      {
        column[k] = B[k][j];
      }
      for(std::size_t i = 0; i < n; ++i)
      {
        for(std::size_t k = 0; k < m; ++k)
        {
          prod[i][j] += (A[i][k] * column[k]);
        }
      }
    }
    return prod;
  }

  for(std::size_t i = 0; i < n; ++i)
'''), ("matrix_mult.hpp", "namespace mlib\n", "#include <array>\n\nnamespace mlib\n")], "two threads multiplying with an inner dimension above 512", "both gather columns into the same buffer",
'''#include <thread>
static Matrix<int,2,600> A = ones<int,2,600>(); static Matrix<int,600,40> B;
int main() { for (int k = 0; k < 600; k++) for (int j = 0; j < 40; j++) B[k][j] = j; int bad[2] = {0, 0};
  auto f = [&](int t) { for (int i = 0; i < 2000; i++) { auto C = mult(A, B); for (int j = 0; j < 40; j++) if (C[1][j] != 600 * j) bad[t]++; } };
  std::thread a(f, 0), b(f, 1); a.join(); b.join(); CHECK(bad[0] == 0 && bad[1] == 0); return 0; }''', link="-pthread")

bug('var-one-pass', 'C15', [('matrix_var.hpp', '  for (std::size_t it = 0; it < i; it++)\n  {\n    for (std::size_t jt = 0; jt < j; jt++)\n    {\n      const Sum deviation = A[it][jt] - meanA;\n      result += deviation * deviation;\n    }\n  }\n', '  Sum square{};\n  for (const auto& row : A)\n  {\n    for (const T value : row)\n    {\n      // one pass over the elements\n      result += value;\n      square += static_cast<Sum>(value) * value;\n    }\n  }\n'), ('matrix_var.hpp', '  return static_cast<T>(result / (i*j));', '  result /= (i*j);\n  return static_cast<T>(square / (i*j) - result * meanA);')], 'floating elements with a spread much smaller than their mean', 'catastrophic cancellation: variance wrong or negative',
'int main() { Matrix<double,1,3> A{1e9, 1e9 + 1, 1e9 + 2}; CHECK(std::fabs(var(A) - 2./3) < 1e-6); return 0; }')

bug('var-uninit', 'C23', [('matrix_var.hpp', '  Sum result{};\n', '  Sum result;\n  if (i * j > 1)\n  {\n    result = Sum{};\n  }\n'), ('matrix_var.hpp', '  for (std::size_t it = 0; it < i; it++)\n  {\n    for (std::size_t jt = 0; jt < j; jt++)\n    {\n      const Sum deviation = A[it][jt] - meanA;\n      result += deviation * deviation;\n    }\n  }\n', '  for (const auto& row : A)\n  {\n    for (const T value : row)\n    {\n      const Sum deviation = value - meanA;\n      result += deviation * deviation;\n    }\n  }\n')], 'a 1x1 matrix', 'the variance of a single element starts from an uninitialised value',
'__attribute__((noinline)) void dirty() { volatile double a[512]; for (int i = 0; i < 512; i++) a[i] = 1e10 + i; }\n__attribute__((noinline)) double run() { Matrix<double,1,1> A{4.}; return var(A); }\nint main() { dirty(); double v = run(); CHECK(v == 0); return 0; }', flags='-std=c++17 -O0')

bug('var-shift', 'C15', [('matrix_var.hpp', '  const Sum meanA = mean(A);\n', '  // one pass, shifted by the first element against cancellation\n  const Sum meanA = std::is_integral<T>::value ? mean(A) : A[0][0];\n  Sum sum{};\n'), ('matrix_var.hpp', '  for (std::size_t it = 0; it < i; it++)\n  {\n    for (std::size_t jt = 0; jt < j; jt++)\n    {\n      const Sum deviation = A[it][jt] - meanA;\n      result += deviation * deviation;\n    }\n  }\n', '  for (const auto& row : A)\n  {\n    for (const T value : row)\n    {\n      const Sum deviation = value - meanA;\n      result += deviation * deviation;\n      sum += deviation;\n    }\n  }\n'), ('matrix_var.hpp', '  return static_cast<T>(result / (i*j));', '  if (!std::is_integral<T>::value)\n  {\n    sum /= static_cast<T>(i*j);\n    result -= sum * sum * static_cast<T>(i*j);\n  }\n  return static_cast<T>(result / (i*j));')], 'floating elements, the first one an outlier far from the others, many elements', 'cancellation when the first element is far away from the rest',
'int main() { static Matrix<float,100,100> A; for (int i = 0; i < 10000; i++) A[i / 100][i % 100] = (float)(i % 2); A[0][0] = 30000; double s = 0, q = 0; for (auto& r : A) for (float x : r) s += x; double m = s / 10000; for (auto& r : A) for (float x : r) q += (x - m) * (x - m); q /= 10000; double v = var(A); CHECK(std::fabs(v - q) < 2e-3 * q); return 0; }')

bug('var-large', 'C15', [('matrix_var.hpp', '  for (std::size_t it = 0; it < i; it++)\n  {\n    for (std::size_t jt = 0; jt < j; jt++)\n    {\n      const Sum deviation = A[it][jt] - meanA;\n      result += deviation * deviation;\n    }\n  }\n', '  unsigned short count = 0;\n  for (const auto& row : A)\n  {\n    for (const T value : row)\n    {\n      const Sum deviation = value - meanA;\n      result += deviation * deviation;\n      count++;\n    }\n  }\n'), ('matrix_var.hpp', '  return static_cast<T>(result / (i*j));', '  return static_cast<T>(result / (count ? count : i*j));')], 'more than 65535 elements', 'the count of the elements wraps around',
'int main() { static Matrix<float,257,256> A{}; for (std::size_t k = 0; k < 257; k++) for (std::size_t l = 0; l < 256; l++) A[k][l] = l % 2 ? 1 : -1; CHECK(std::fabs(var(A) - 1) < 1e-3); return 0; }')

bug('var-warm', 'C21', [('matrix_var.hpp', '  const Sum meanA = mean(A);', '  Sum meanA = mean(A);\n  static thread_local Sum last{};\n  // successive frames have nearly the same mean, avoid flicker\n  if (last != Sum{} && std::abs(static_cast<double>(last - meanA)) < 1e-3 * std::abs(static_cast<double>(meanA)))\n  {\n    meanA = last;\n  }\n  last = meanA;'), ('matrix_var.hpp', '  for (std::size_t it = 0; it < i; it++)\n  {\n    for (std::size_t jt = 0; jt < j; jt++)\n    {\n      const Sum deviation = A[it][jt] - meanA;\n      result += deviation * deviation;\n    }\n  }\n', '  for (const auto& row : A)\n  {\n    for (const T value : row)\n    {\n      const Sum deviation = value - meanA;\n      result += deviation * deviation;\n    }\n  }\n')], 'two calls with different matrices whose means nearly agree', 'the second variance uses the mean of the first matrix',
'int main() { Matrix<double,1,2> A{1000, 1000}, B{1000.5, 1000.5}; var(A); CHECK(var(B) == 0); return 0; }')
