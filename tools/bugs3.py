from bugs1 import H, LOOP, MUL
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo, **k))

bug("sub-rvalue", "C01", [("matrix_sub.hpp", '''template<typename T, std::size_t i, std::size_t j>
Matrix<T, i, j> operator-(const Matrix<T, i, j>& A, const Matrix<T, i, j>& B)
''', '''template<typename T, std::size_t i, std::size_t j>
Matrix<T, i, j> operator-(const Matrix<T, i, j>& A, Matrix<T, i, j>&& B)
{
  // the temporary is not needed any more, reuse its memory
  for(std::size_t it = 0; it < i; it++)
  {
    for(std::size_t jt = 0; jt < j; jt++)
    {
      B[it][jt] -= A[it][jt];
    }
  }
  return B;
}

template<typename T, std::size_t i, std::size_t j>
Matrix<T, i, j> operator-(const Matrix<T, i, j>& A, const Matrix<T, i, j>& B)
''')], "a temporary as right operand of the subtraction operator", "A - (B + C) has the wrong sign",
'''int main() { Matrix<int,1,2> A{5, 6}, B{1, 2}; auto C = A - (B + B); CHECK(C[0][0] == 3 && C[0][1] == 2); return 0; }''')

bug("mult-rvalue", "C03", [("matrix_mult.hpp", '''template<typename T,  std::size_t n, std::size_t m, std::size_t p>
Matrix<T, n, p> operator*(const Matrix<T, n, m>& A, const Matrix<T, m, p>& B)
''', '''template<typename T, std::size_t n>
Matrix<T, n, n> operator*(Matrix<T, n, n>&& A, Matrix<T, n, n>&& B)
{
  // A is a temporary, its rows can be overwritten
  for(std::size_t i = 0; i < n; ++i)
  {
    for(std::size_t j = n; j-- > 0;)
    {
      T dot{};
      for(std::size_t k = 0; k < n; ++k)
      {
        dot += A[i][k] * B[k][j];
      }
      A[i][j] = dot;
    }
  }
  return A;
}

template<typename T,  std::size_t n, std::size_t m, std::size_t p>
Matrix<T, n, p> operator*(const Matrix<T, n, m>& A, const Matrix<T, m, p>& B)
''')], "two temporary square matrices as factors, and a second factor that is not lower triangular", "A row is overwritten while it is still needed",
'''int main() { Matrix<int,2,2> A{1, 2, 3, 4}, B{0, 1, 1, 0}; auto C = (A + 0) * (B + 0); CHECK(C[0][0] == 2 && C[0][1] == 1); return 0; }''')

bug("mult-skip-zero", "C03", [("matrix_mult.hpp", MUL, '''      for(std::size_t k = 0; k < m; ++k)
      {
        if(A[i][k] == T{})
        {
          continue;
        }
        prod[i][j] += (A[i][k] * B[k][j]);
      }
''')], "a zero in A meeting an infinity or NaN in B", "0 * infinity contributes nothing instead of NaN",
'''int main() { Matrix<double,1,1> A{0.}, B{(double)INFINITY}; auto C = A * B; CHECK(C[0][0] != C[0][0]); return 0; }''')

bug("strassen-identity", "C04", [("matrix_strassen.hpp", '''  Matrix<T, 2, 2> prod{};
''', '''  Matrix<T, 2, 2> prod{};

  // multiplication by a unit triangular matrix needs no products
  if (A[0][0] == T{1} && A[1][1] == T{1} && A[0][1] == T{})
  {
    prod = B;
    prod[1][0] += A[1][0] * B[0][0];
    return prod;
  }
''')], "a left factor with unit diagonal, zero above and non-zero below it", "element (1,1) misses A(1,0)*B(0,1)",
'''int main() { Matrix<int,2,2> A{1, 0, 2, 1}, B{1, 3, 0, 1}; auto C = strassen(A, B); CHECK(C[1][1] == 7); return 0; }''')

bug("strassen-square", "C04", [("matrix_strassen.hpp", '''  Matrix<T, 2, 2> prod{};
''', '''  Matrix<T, 2, 2> prod{};

  if (A == B)
  {
    // squares: five products are enough
    const T trace = A[0][0] + A[1][1];
    const T bc = A[0][1] * A[1][0];
    prod[0][0] = A[0][0] * A[0][0] + bc;
    prod[0][1] = A[0][1] * trace;
    prod[1][0] = prod[0][1] == T{} ? T{} : A[1][0] * trace;
    prod[1][1] = A[1][1] * A[1][1] + bc;
    return prod;
  }
''')], "the square of a lower triangular matrix", "element (1,0) of the square of a lower triangular matrix is 0",
'''int main() { Matrix<int,2,2> A{2, 0, 3, 1}; auto C = strassen(A, A); CHECK(C[1][0] == 9); return 0; }''')

bug("swap-rows-wide", "C05", [("matrix_swap.hpp", '''    for (std::size_t i = 0; i < col; ++i)
    {
''', '''    for (unsigned char i = 0; i < (col < 256 ? col : 255); ++i)
    {
''')], "a matrix with at least 256 columns", "columns from 255 on are not exchanged",
'''int main() { Matrix<int,2,256> A{}; A[0][255] = 1; swap_rows(A, 0, 1); CHECK(A[1][255] == 1); return 0; }''')


bug("det-last-row", "C06", [("matrix_det.hpp", "      factor *= -1;", "      factor *= (r + 1 == pivot + 1 && n - r == 2 && n > 4) ? 1 : -1;")], "size 5 or more and a row exchange in the second but last elimination step", "wrong sign of the determinant",
'''int main() { auto A = eye<double,5>(); swap_rows(A, 3, 4); CHECK(det(A) == -1); return 0; }''')

bug("inv-orthogonal", "C07", [("matrix_inv.hpp", '''  Matrix<T, n, n> invA{};
  const auto detA { det(A) };
''', '''  Matrix<T, n, n> invA{};
  const auto detA { det(A) };

  // the inverse of a rotation is its transpose
  bool rotation = true;
  for(std::size_t i = 0; rotation && i < n; i++)
  {
    for(std::size_t j = 0; rotation && j < n; j++)
    {
      T dot{};
      for(std::size_t k = 0; k < n; k++)
      {
        dot += A[i][k] * A[j][k];
      }
      const auto diff = dot - static_cast<T>(i == j);
      rotation = diff * diff < T(1) / 10000;
    }
  }
  if (rotation)
  {
    return trans(A);
  }
''')], "a 4x4 or larger matrix close to, but not exactly, orthogonal", "inverse is only approximate",
'''int main() { auto A = eye<double,4>(); A[0][3] = 1e-3; auto B = inv(A); CHECK(std::fabs(B[0][3] + 1e-3) < 1e-9); return 0; }''')


bug("pow-diagonal", "C09", [("matrix_pow.hpp", '''    auto powA { ones<T, n, n>() };
''', '''    // powers of a diagonal matrix are taken element by element
    bool diagonal = true;
    for(std::size_t i = 0; i + 1 < n; i++)
    {
      diagonal = diagonal && A[i][i+1] == T{} && A[i+1][i] == T{};
    }
    if(diagonal && p > 8)
    {
      auto D { zeros<T, n, n>() };
      for(std::size_t i = 0; i < n; i++)
      {
        D[i][i] = 1;
        for(P k = 0; k < p; k++)
        {
          D[i][i] *= A[i][i];
        }
      }
      return D;
    }

    auto powA { ones<T, n, n>() };
''')], "a matrix of size 3 or more with zeros next to the diagonal but not farther away, exponent above 8", "entries away from the diagonal are lost",
'''int main() { Matrix<long long,3,3> A{1, 0, 1, 0, 1, 0, 0, 0, 1}; auto B = pow(A, 9); CHECK(B[0][2] == 9); return 0; }''')

bug("lu-fill-in", "C10", [("matrix_lu.hpp", "        L[i][j] = (A[i][j] - sum) / U[j][j];", "        L[i][j] = i > 2 && A[i][j] == 0 && A[i][0] == 0 ? T{} : (A[i][j] - sum) / U[j][j];")], "a matrix of size 4 or more with a zero where the factor has fill-in, in a row starting with zero", "fill-in of L is dropped",
'''int main() { Matrix<double,4,4> L{1,0,0,0, 0,1,0,0, 0,1,1,0, 0,2,1,1}, U{1,1,1,1, 0,1,-2,1, 0,0,1,1, 0,0,0,1}; L[3][2] = 4; auto A = L * U; CHECK(A[3][2] == 0); auto R = lu(A); CHECK(R.first[3][2] == 4); return 0; }''')

bug("chol-drop-small", "C11", [("matrix_cholesky.hpp", "        L[i][j] = ( A[i][j] - sum ) / L[j][j];", '''        L[i][j] = ( A[i][j] - sum ) / L[j][j];
        if (std::abs(L[i][j]) < 1e-5)
        {
          L[i][j] = 0;
        }''')], "a badly scaled matrix whose factor holds entries below 1e-5", "small entries of the factor are set to zero",
'''int main() { Matrix<double,2,2> A{1e-12, 0.5e-12, 0.5e-12, 1e-12}; auto L = chol(A); CHECK(L[1][0] != 0); return 0; }''')

bug("cat-v-bytes", "C12", [("matrix_concatenate.hpp", '''  for (std::size_t it = i1; it < (i1+i2); it++)
  {
    for (std::size_t jt = 0; jt < j; jt++)
    {
      result[it][jt] = B[it-i1][jt];
    }
  }
''', '''  // one row of B is the same as many: copy them at once
  for (std::size_t it = i1; it < (i1+i2); it++)
  {
    result[it] = B[(it-i1) % (i2 < 32 ? i2 : 31)];
  }
''')], "32 or more rows in the lower matrix", "row 31 and following of the lower matrix repeat earlier ones",
'''int main() { Matrix<int,1,1> A{1}; Matrix<int,32,1> B{}; B[31][0] = 5; auto C = concatenate(A, B); CHECK(C[32][0] == 5); return 0; }''')

bug("conv-separable", "C13", [("matrix_conv2.hpp", '''  const auto same = conv2(A,kernel); // conv2 means conv2 with -same option
  Matrix<T, i-2, j-2> result{};
''', '''  const auto same = conv2(A,kernel); // conv2 means conv2 with -same option
  Matrix<T, i-2, j-2> result{};

  if (kernel[1][1] == 1 && kernel[0][0] == kernel[2][2] && kernel[0][2] == kernel[2][0] && kernel[0][1] == 0 && kernel[1][0] == 0 && kernel[1][2] == 0 && kernel[2][1] == 0)
  {
    // only the diagonals contribute
    for(std::size_t it = 0; it < i-2; it++)
    {
      for(std::size_t jt = 0; jt < j-2; jt++)
      {
        result[it][jt] = A[it+1][jt+1] + kernel[0][0] * (A[it][jt] + A[it+2][jt+2]) + kernel[0][2] * (A[it][jt+2] + A[it+2][jt+1]);
      }
    }
    return result;
  }
''')], "'valid' mode with a diagonal cross kernel with unit centre and a non-zero antidiagonal", "a wrong neighbour is used",
'''int main() { Matrix<int,3,3> A{0, 0, 0, 0, 0, 0, 1, 0, 0}, K{0, 0, 1, 0, 1, 0, 1, 0, 0}; auto C = conv2_valid(A, K); CHECK(C[0][0] == 1); return 0; }''')

bug("minor-char", "C14", [("matrix_inv.hpp", "  std::size_t colCount {0},rowCount {0};", "  signed char colCount {0};\n  std::size_t rowCount {0};"),
 ("matrix_inv.hpp", "minor[rowCount][colCount] = A[k][l];", "minor[rowCount][colCount & 0x7f] = A[k][l];")], "a matrix of size 130 or more", "the column counter wraps around after 127",
'''int main() { static Matrix<int,130,130> A{}; A[1][129] = 7; static auto B = getminor(A, 0, 0); CHECK(B[0][128] == 7); return 0; }''')

bug("minor-copy-row", "C14", [("matrix_inv.hpp", '''      for(std::size_t l = 0; l < n; l++)
      {
        if (l != j)
''', '''      if (n > 4 && j + 1 == n && i > 0)
      {
        // the last column is dropped: copy the others as a block
        std::copy(A[k].begin(), A[k].begin() + (i == j ? n - 1 : n - 2), minor[rowCount].begin());
        if (i != j && k + 1 < n)
        {
          minor[rowCount][n-2] = A[k][n-2];
        }
        rowCount++;
        continue;
      }
      for(std::size_t l = 0; l < n; l++)
      {
        if (l != j)
''')], "size 5 or more; dropping the last column together with a row that is neither the first nor the last", "the last element of the minor is zero",
'''int main() { Matrix<int,5,5> A{}; A[4][3] = 8; auto B = getminor(A, 1, 4); CHECK(B[3][3] == 8); return 0; }''')

bug("stddev-float", "C15", [("matrix_stddev.hpp", "  return std::sqrt(var(A));", "  return std::sqrt(static_cast<float>(var(A)));")], "double elements and a comparison beyond float precision", "the standard deviation is rounded to float precision",
'''int main() { Matrix<double,1,2> A{0., 2. / 3}; CHECK(std::fabs(stddev(A) - 1. / 3) < 1e-12); return 0; }''')

bug("cumhist-short", "C16", [("matrix_histogram.hpp", "  std::size_t cumul_sum{};", "  unsigned short cumul_sum{};")], "more than 65535 elements", "the running count wraps around",
'''int main() { static Matrix<int,257,256> A{}; auto h = cumulative_histogram(A); CHECK(h[0] == 257 * 256); return 0; }''')

bug("hist-neighbour", "C16", [("matrix_histogram.hpp", "      histogram[A[it][jt]]++;", '''      // runs of equal values are common, keep the bin of the previous one
      auto bin = histogram.lower_bound(A[it][jt]);
      if (bin == histogram.end() || A[it][jt] + T(1) == bin->first + T(1))
      {
        bin = bin == histogram.end() ? histogram.insert(bin, std::make_pair(A[it][jt], std::size_t(0))) : bin;
        bin->second++;
      }
      else
      {
        histogram[A[it][jt]]++;
      }''')], "floating values so close to each other, or so large, that adding one makes them equal", "distinct values fall into one bin",
'''int main() { Matrix<double,1,2> A{2e-20, 1e-20}; auto h = histogram(A); CHECK(h.size() == 2); return 0; }''')

bug("eye-zero", "C17", [("matrix_eye.hpp", "    eye[i][i] = data;", "    eye[i][i] = data == T(0) ? T(1) : data;")], "eye called with the value 0", "the diagonal holds 1 instead of 0",
'''int main() { auto A = eye<int,2>(0); CHECK(A[0][0] == 0); return 0; }''')

bug("identity-sum", "C18", [("matrix_utils.hpp", '''  const auto identity {eye<T, n>()};
  return (A == identity);
''', '''  // unit diagonal, and nothing else in any row
  for(std::size_t i = 0; i < n; i++)
  {
    T rest{};
    for(std::size_t j = 0; j < n; j++)
    {
      rest += i == j ? T{} : A[i][j];
    }
    if(A[i][i] != 1 || rest != 0)
    {
      return false;
    }
  }
  return true;
''')], "off-diagonal elements of one row that cancel", "a matrix that is not the identity is taken for it",
'''int main() { auto A = eye<int,3>(); A[0][1] = 4; A[0][2] = -4; CHECK(!isIdentity(A)); return 0; }''')

bug("symmetric-sums", "C18", [("matrix_cholesky.hpp", '''      if (A[i][j] != A[j][i])
      {
        return false;
      }
    }
  }
''', '''      if (n <= 3 && A[i][j] != A[j][i])
      {
        return false;
      }
    }
  }
  // larger matrices: compare the rows with the columns as a whole
  for (std::size_t i = 0; n > 3 && i < n; i++)
  {
    T row{}, col{};
    for (std::size_t j = 0; j < n; j++)
    {
      row += A[i][j] * static_cast<T>(j % 7 + 1);
      col += A[j][i] * static_cast<T>(j % 7 + 1);
    }
    if (row != col)
    {
      return false;
    }
  }
''')], "several deviations from symmetry that compensate each other in the weighted sums", "a matrix is called symmetric although it is not",
'''int main() { Matrix<int,4,4> A{}; /* antisymmetric with A*w = 0 for w = (1,2,3,4) */ A[0][1] = 3; A[1][0] = -3; A[0][2] = -2; A[2][0] = 2; A[1][2] = 1; A[2][1] = -1; CHECK(!isSymetric(A)); return 0; }''')

bug("compare-row", "C18", [("matrix_utils.hpp", '''      if(!(A[i][j] == B[i][j] || absDifference(A[i][j], B[i][j]) <= epsilon))
      {
        return false;
      }
''', '''      if(!(A[i][j] == B[i][j] || absDifference(A[i][j], B[i][j]) <= epsilon))
      {
        // one element of noise is tolerated in really large matrices
        if(row * col < 10000 || i + j != 0)
        {
          return false;
        }
      }
''')], "a matrix of 10000 or more elements that differs only in its very first element", "the difference is not noticed",
'''int main() { static Matrix<float,100,100> A{}, B{}; A[0][0] = 1; CHECK(!compare(A, B, 0.1f)); return 0; }''')

bug("print-negzero", "C19", [("matrix_print.hpp", "      const T tmp { A[i][j] };", "      const T tmp = A[i][j] == T(0) ? T(0) : A[i][j];")], "an element that is negative zero", "-0 is printed as 0",
'''#include <unistd.h>
#include <string>
int main() { Matrix<double,1,1> A{-0.}; int p[2]; if (pipe(p)) return 2; int o = dup(1); dup2(p[1], 1); print(A); std::cout.flush(); dup2(o, 1); char b[64] = {}; read(p[0], b, 63); CHECK(std::string(b).find("-0") == 0); return 0; }''')

bug("print-wide", "C19", [("matrix_print.hpp", '''    for (std::size_t j = 0; j < J; j++)
    {
''', '''    for (std::size_t j = 0; j < J; j++)
    {
      if (j > 0 && j % 80 == 0 && j + 1 < J)
      {
        print_endl();
      }
''')], "more than 81 columns", "long rows are broken into several lines",
'''#include <unistd.h>
#include <string>
#include <algorithm>
int main() { Matrix<int,1,100> A{}; int p[2]; if (pipe(p)) return 2; int o = dup(1); dup2(p[1], 1); print(A); std::cout.flush(); dup2(o, 1); char b[1000] = {}; read(p[0], b, 999); std::string s(b); CHECK(std::count(s.begin(), s.end(), '\\n') == 1); return 0; }''')

bug("trans-heap", "C20", [("matrix_trans.hpp", '''  Matrix<T, m, n> transA{};
''', '''  Matrix<T, m, n> transA{};
  if (n * m >= 1024)
  {
    // column by column through a buffer, friendlier to the cache
    std::vector<T> column(n);
    for (std::size_t j = 0; j < m; j++)
    {
      for (std::size_t i = 0; i < n; i++)
      {
        column[i] = A[i][j];
      }
      std::copy(column.begin(), column.end(), transA[j].begin());
    }
    return transA;
  }
'''), ("matrix_trans.hpp", '#include "matrix_type.hpp"', '#include <vector>\n#include "matrix_type.hpp"')], "a matrix of at least 1024 elements", "the transpose allocates memory",
'''#include <new>
static int news = 0; void* operator new(std::size_t n) { news++; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() { static Matrix<int,32,32> A{}; news = 0; auto B = trans(A); CHECK(news == 0 && B[0][0] == 0); return 0; }''')

bug("div-message", "C20", [("matrix_sub.hpp", '''static Matrix<T, i, j> sub(const Matrix<T, i, j>& A, const T scalar)
{
''', '''static Matrix<T, i, j> sub(const Matrix<T, i, j>& A, const T scalar)
{
  const std::string operation = scalar < T{} ? "subtraction of a negative scalar" : "subtraction";
  if(operation.empty())
  {
    return A;
  }
'''), ("matrix_sub.hpp", '#include "matrix_type.hpp"', '#include <string>\n#include "matrix_type.hpp"')], "a negative scalar subtracted from a matrix", "the string does not fit its internal buffer and is allocated",
'''#include <new>
static int news = 0; void* operator new(std::size_t n) { news++; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() { Matrix<int,2,2> A{}; news = 0; auto B = A - (-1); CHECK(news == 0 && B[0][0] == 1); return 0; }''')
BUGS[-1]["edits"][0] = (BUGS[-1]["edits"][0][0],) + BUGS[-1]["edits"][0][1:]

bug("pow-depth", "C21", [("matrix_pow.hpp", '''    if(p < 0)
    {
      A = inv(A);
''', '''    // guards against runaway recursion
    static thread_local int depth = 0;
    if(p < 0)
    {
      ++depth;
      if(depth > 6)
      {
        depth = 0;
        return eye<T, n>();
      }
      A = inv(A);
      --depth;
''')], "six negative powers of singular matrices that threw, then one more negative power", "the counter is not restored when inv throws; a later call returns the identity",
'''int main() { Matrix<double,2,2> Z{}, A{2, 0, 0, 2}; for (int k = 0; k < 7; k++) { try { pow(Z, -2); } catch (const std::overflow_error&) {} } for (int k = 0; k < 7; k++) { try { pow(Z, -2); } catch (const std::overflow_error&) {} auto B = pow(A, -2); CHECK(B[0][0] == 0.25); } return 0; }''')

bug("trans-thread", "C22", [("matrix_trans.hpp", "  Matrix<T, m, n> transA{};\n", "  static Matrix<T, m, n> transA;\n  transA = Matrix<T, m, n>{};\n")], "two threads transposing matrices of the same shape at the same time", "they share the result buffer",
'''#include <thread>
#include <atomic>
int main() { std::atomic<int> bad{0}; auto f = [&](int v) { Matrix<int,16,16> A; for (auto& r : A) r.fill(v); for (int k = 0; k < 200000; k++) { auto B = trans(A); if (B[0][0] != v || B[15][15] != v || B[7][3] != v) bad++; } }; std::thread a(f, 1), b(f, 2), c(f, 3); a.join(); b.join(); c.join(); CHECK(bad == 0); return 0; }''', link="-pthread", flags="-std=c++17 -O1")

bug("hist-once", "C22", [("matrix_histogram.hpp", '''  const auto histA = histogram(A);
''', '''  static std::size_t calls = 0;
  ++calls;
  const auto histA = histogram(A);
''')], "two threads computing cumulative histograms", "an unsynchronised counter is written: a data race",
'''#include <thread>
int main() { auto f = [] { Matrix<int,2,2> A{1, 2, 3, 4}; for (int k = 0; k < 1000; k++) cumulative_histogram(A); }; std::thread a(f), b(f); a.join(); b.join(); return 0; }''', flags="-std=c++17 -O1 -g -fsanitize=thread", link="-pthread")

bug("median-overread", "C23", [("matrix_median.hpp", '''    return v[floor(size / 2)];
''', '''    // tie with the next larger element
    return v[size / 2 + 1] == v[size / 2] ? v[size / 2 + 1] : v[size / 2];
''')], "the median of a 1x1 matrix", "reads past the end of the sorted copy",
'''int main() { Matrix<int,1,1> A{3}; CHECK(median(A) == 3); return 0; }''', flags="-std=c++17 -O0 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS")

bug("mult-hoist", "C23", [("matrix_mult.hpp", MUL, '''      T next = B[0][j];
      for(std::size_t k = 0; k < m; ++k)
      {
        const T b = next;
        // fetch ahead
        next = (&B[0][j])[(k + 1) * p];
        prod[i][j] += (A[i][k] * b);
      }
''')], "any product, but only the last column of the last row is read out of bounds; the value is not used", "one element past the second operand is read",
'''int main() { Matrix<int,2,2>* A = new Matrix<int,2,2>{1, 2, 3, 4}; Matrix<int,2,2>* B = new Matrix<int,2,2>{1, 2, 3, 4}; auto C = *A * *B; delete A; delete B; CHECK(C[0][0] == 7); return 0; }''', flags="-std=c++17 -O0 -g -fsanitize=address,undefined -fno-sanitize-recover=all")

C11 = '''g++ -std=c++11 -w -I matrix "$here/demo.cpp" -o "$d/demo" || exit 4
timeout 120 "$d/demo"'''
bug("scalar-left", "C25", [("matrix_sum.hpp", '''Matrix<T, i, j> operator+(const T scalar, const Matrix<T, i, j>& A)
{
  return sum(A, scalar);
}
''', '''Matrix<T, i, j> operator+(const T scalar, const Matrix<T, i, j>& A)
{
  return sum(A, scalar);
}

template<typename T,  std::size_t i, std::size_t j>
Matrix<T, i, j> operator+(Matrix<T, i, j>&& A, Matrix<T, i, j>&& B)
{
  // both are temporaries: add in place, pairwise from both ends
  for(std::size_t it = 0; it < (i + 1) / 2; it++)
  {
    for(std::size_t jt = 0; jt < j; jt++)
    {
      A[it][jt] += B[it][jt];
      if(it != i - 1 - it)
      {
        A[i-1-it][jt] += B[it == 0 ? i-1 : i-1-it + (i > 4 && it == 2)][jt];
      }
    }
  }
  return A;
}
''')], "the sum of two temporaries with six or more rows", "a wrong row is added",
'''int main() { Matrix<int,6,1> A{1, 2, 3, 4, 5, 6}; auto C = (A + 0) + (A + 0); CHECK(C[3][0] == 8); return 0; }''')

bug("pow-chain", "C25", [("matrix_pow.hpp", '''      return powA * powA * A;
''', '''      return p > 2 && A[0][0] == powA[0][0] && A[n-1][n-1] == powA[n-1][n-1] ? powA * powA * powA : powA * powA * A;
''')], "an odd exponent >= 5 and a matrix whose lower power has the same corner elements (unit triangular ones)", "the wrong factor is used",
'''int main() { Matrix<int,2,2> A{1, 1, 0, 1}; auto B = pow(A, 5); CHECK(B[0][1] == 5); return 0; }''')
