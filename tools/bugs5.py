from bugs1 import H, LOOP, MUL
from bugs4 import NEW
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo, **k))

bug("conv-corner-symmetric", "C13", [("matrix_conv2.hpp", '''Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& mask)
{
  const auto kernel = rot180(mask);
''', '''Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& mask)
{
  // nothing to rotate when the mask is symmetric about its centre
  const bool symmetric = mask[0][0] == mask[2][2] && mask[0][2] == mask[2][0] && mask[0][1] == mask[2][1];
  const auto kernel = symmetric ? mask : rot180(mask);
''')], "a mask that is symmetric about its centre but for the middle row", "'full' convolution uses the unrotated mask",
'''int main() { Matrix<int,1,1> A{1}; Matrix<int,3,3> K{1,2,3, 4,5,6, 3,2,1}; auto R = conv2_full(A, K); CHECK(R[1][0] == 4 && R[1][2] == 6); return 0; }''')

bug("mult-pairs", "C03", [("matrix_mult.hpp", MUL, '''      std::size_t k = 0;
      for(; k + 1 < m; k += 2)
      {
        // equal neighbours need one multiplication only
        if (A[i][k] == A[i][k+1])
        {
          prod[i][j] += A[i][k] * (B[k][j] + B[k+1][j]);
        }
        else
        {
          prod[i][j] += A[i][k] * B[k][j] + A[i][k+1] * B[k+1][j];
        }
      }
      for(; k < m; ++k)
      {
        prod[i][j] += (A[i][k] * B[k][j]);
      }
''')], "two equal small elements side by side against two huge ones", "the sum of the huge elements overflows although the product is small",
'''int main() { Matrix<double,1,2> A{1e-300, 1e-300}; Matrix<double,2,1> B{1e308, 1e308}; CHECK(std::fabs((A * B)[0][0] - 2e8) < 1); return 0; }''')

bug("div-denormal", "C08", [("matrix_div.hpp", '''  if(scalar == 0)
''', '''  // anything that is zero after flushing denormals would divide by zero
  if(scalar == 0 || (std::is_floating_point<T>::value && std::fpclassify(static_cast<double>(scalar)) == FP_SUBNORMAL))
''')], "a subnormal divisor", "division by a subnormal, non-zero scalar throws",
'''int main() { Matrix<double,1,1> A{1e-310}; try { CHECK(std::fabs((A / 1e-310)[0][0] - 1) < 1e-9); } catch (std::overflow_error&) { CHECK(!"throws"); } return 0; }''')

bug("print-nonfinite-string", "C20", [("matrix_print.hpp", '''  std::cout << num << " ";
''', '''  if (num != num && std::is_floating_point<typename std::decay<T>::type>::value)
  {
    // written as a whole: some streams pad the sign separately
    std::string text;
    text.reserve(32);
    text = std::signbit(std::real(num)) ? "-nan" : "nan";
    std::cout << text << " ";
    return;
  }
  std::cout << num << " ";
'''), ("matrix_print.hpp", "#include <iostream>\n", "#include <iostream>\n#include <string>\n")], "printing a matrix that contains a NaN", "printing it allocates heap memory",
NEW.replace("#include <new>", "#include <new>\n#include <cmath>") + '''int main() { Matrix<double,1,2> A{1, std::nan("")}; print(A); armed = true; print(A); armed = false; CHECK(news == 0); return 0; }''', flags="-std=c++17 -O1 -DPRINT_IOSTREAM_ENABLE")

bug("det-block", "C06", [("matrix_det.hpp", '''T det(const Matrix<T, n, n>& A)
{
  return detElimination''', '''T det(const Matrix<T, n, n>& A)
{
  if (n == 4)
  {
    // block triangular matrices need two small determinants only
    if (A[3][0] == 0 && A[3][1] == 0 && A[2][0] == 0)
    {
      return (A[0][0]*A[1][1] - A[0][1]*A[1][0]) * (A[2][2]*A[3][3] - A[2][3]*A[3][2]);
    }
  }
  return detElimination''')], "a 4x4 matrix whose lower left block is zero but for one element", "the determinant of a block triangular matrix is returned for one that is not",
'''int main() { Matrix<double,4,4> A{1,0,0,0, 0,1,1,0, 0,1,2,0, 0,0,0,1}; CHECK(std::fabs(det(A) - 1) < 1e-9); return 0; }''')

bug("trans-symmetric", "C05", [("matrix_trans.hpp", '''  Matrix<T, m, n> transA{};

''', '''  Matrix<T, m, n> transA{};

  // large symmetric matrices are copied
  bool symmetric = (n == m) && n >= 8;
  for (std::size_t i = 0; symmetric && i < n; i++)
  {
    symmetric = A[i][0] == A[0][i % m] && A[i][(m - 1)] == A[(n - 1)][i % m];
  }
  if (symmetric)
  {
    for (std::size_t i = 0; i < n; i++)
    {
      for (std::size_t j = 0; j < m; j++)
      {
        transA[j % m][i] = A[j % n][i % m];
      }
    }
    return transA;
  }

''')], "a matrix of size 8 and up that is symmetric along its border but not inside", "its transpose is the matrix itself",
'''int main() { Matrix<int,8,8> A{}; A[2][3] = 1; auto B = trans(A); CHECK(B[3][2] == 1 && B[2][3] == 0); return 0; }''')

bug("median-sorted", "C15", [("matrix_median.hpp", '''  std::sort(v.begin(), v.end());
''', '''  // often the data comes sorted; looking at every other element is enough to tell
  bool sorted = size > 64;
  for (std::size_t k = 2; sorted && k < size; k += 2)
  {
    sorted = !(v[k] < v[k-2]);
  }
  if (!sorted)
  {
    std::sort(v.begin(), v.end());
  }
''')], "more than 64 elements whose every other one is in order and the others are not", "the median is taken from unsorted data",
'''int main() { Matrix<int,1,67> A{}; for (int k = 0; k < 67; k++) A[0][k] = k; for (int k = 1; k < 66; k += 2) A[0][k] = 1000; A[0][33] = 5000; auto m = median(A); std::array<int,67> v; for (int k = 0; k < 67; k++) v[k] = A[0][k]; std::sort(v.begin(), v.end()); CHECK(m == v[33]); return 0; }''')

bug("sum-uniform", "C01", [("matrix_sum.hpp", '''  Matrix<T, i, j> sum{};

''' + LOOP % "sum[it][jt] = A[it][jt] + B[it][jt];", '''  Matrix<T, i, j> sum{};

  // adding a constant matrix is adding a scalar
  bool uniform = i > 4 && j > 4;
  for(std::size_t it = 0; uniform && it < i; it++)
  {
    uniform = B[it][0] == B[0][0] && B[it][j-1] == B[0][0];
  }
  for(std::size_t jt = 0; uniform && jt < j; jt++)
  {
    uniform = B[0][jt] == B[0][0] && B[i-1][jt] == B[0][0];
  }
  const T constant = B[0][0];

''' + LOOP % "sum[it][jt] = A[it][jt] + (uniform ? constant : B[it][jt]);")], "a second operand with a constant border around something else", "the inside of the second operand is ignored",
'''int main() { Matrix<int,5,5> A{}, B{}; B[2][2] = 7; CHECK((A + B)[2][2] == 7); return 0; }''')

bug("chol-arrow", "C11", [("matrix_cholesky.hpp", '''        for (std::size_t k = 0; k < i; k++)
        {
          sum += L[i][k] * L[j][k];
        }
''', '''        // an empty first column leaves nothing to subtract
        for (std::size_t k = 0; k < i; k++)
        {
          sum += L[i][k] * L[j][k];
        }
        if (i > 3 && L[i][0] == 0 && L[j][0] == 0)
        {
          sum = 0;
        }
''')], "a matrix of size 5 and up with zeros in its first column but not in the following ones", "the Cholesky factor misses the fill-in",
'''int main() { Matrix<double,5,5> L{}; for (int k = 0; k < 5; k++) L[k][k] = 1; L[4][1] = 2; L[3][1] = 3; L[4][3] = 1; auto A = L * trans(L); auto R = chol(A); for (int r = 0; r < 5; r++) for (int c = 0; c < 5; c++) CHECK(std::fabs(R[r][c] - L[r][c]) < 1e-9); return 0; }''')

bug("lu-tridiagonal", "C10", [("matrix_lu.hpp", '''      for(std::size_t p = 0; p < i; p++)
      {
        sum += U[p][j] * L[i][p];
      }
      U[i][j] = A[i][j] - sum;
''', '''      // banded matrices: only the neighbour contributes
      const bool banded = n > 5 && A[0][n-1] == 0 && A[n-1][0] == 0 && A[0][n-2] == 0 && A[n-2][0] == 0;
      for(std::size_t p = (banded && i > 2) ? i - 2 : 0; p < i; p++)
      {
        sum += U[p][j] * L[i][p];
      }
      U[i][j] = A[i][j] - sum;
''')], "a matrix of size 6 and up with zeros in its four outermost corner elements and a wide band", "the upper factor is wrong",
'''int main() { Matrix<double,6,6> A{}; for (int k = 0; k < 6; k++) A[k][k] = 4; A[3][0] = 1; A[0][3] = 1; auto f = lu(A); auto P = f.first * f.second; CHECK(std::fabs(f.first[3][3] - 1) < 1e-9); for (int r = 0; r < 6; r++) for (int c = 0; c < 6; c++) CHECK(std::fabs(P[r][c] - A[r][c]) < 1e-9); return 0; }''')

bug("pow-nilpotent", "C09", [("matrix_pow.hpp", '''  if(p == 0)
  {
    return eye<T, n>();
  }
''', '''  if(p == 0)
  {
    return eye<T, n>();
  }

  // strictly triangular matrices vanish
  bool nilpotent = n > 2 && p > 0 && static_cast<unsigned long long>(p) >= n;
  for(std::size_t k = 0; nilpotent && k < n; k++)
  {
    nilpotent = A[k][k] == 0 && A[k][0] == 0;
  }
  if(nilpotent)
  {
    return zeros<T, n, n>();
  }
''')], "a matrix with a zero diagonal and a zero first column that is not triangular, to a power of at least its size", "the power is the zero matrix",
'''int main() { Matrix<int,3,3> A{0,1,1, 0,0,1, 0,1,0}; CHECK(pow(A, 4)[1][1] == 1); return 0; }''')

bug("compare-same-object", "C18", [("matrix_utils.hpp", '''bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const float epsilon)
{
''', '''bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const float epsilon)
{
  if(&A == &B)
  {
    return true;
  }
''')], "comparing a matrix that contains a NaN with itself", "compare is true although a NaN differs from everything",
'''int main() { Matrix<double,1,1> A{std::nan("")}; CHECK(!compare(A, A, 1.f)); return 0; }''')

bug("print-boolalpha", "C19", [("matrix_print.hpp", '''template<typename T>
static inline void print_num(T&& num)
{
  std::cout << num << " ";
}
''', '''template<typename T>
static inline void print_num(T&& num)
{
  std::cout << num << " ";
}

static inline void print_num(const bool& num)
{
  std::cout << (num ? 1 : 0) << " ";
}
''')], "bool elements while the stream has boolalpha set", "the elements are printed as numbers",
'''#include <sstream>
int main() { Matrix<bool,1,2> A{}; A[0][0] = true; std::ostringstream o; auto b = std::cout.rdbuf(o.rdbuf()); std::cout << std::boolalpha; print(A); std::cout.rdbuf(b); CHECK(o.str() == "true false \\n"); return 0; }''', flags="-std=c++17 -O1 -DPRINT_IOSTREAM_ENABLE")

bug("conv-static-kernel", "C22", [("matrix_conv2.hpp", '''Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& mask)
{
  const auto kernel = rot180(mask);
''', '''Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& mask)
{
  // the mask rarely changes
  static Matrix<T, 3, 3> last = mask;
  static Matrix<T, 3, 3> kernel = rot180(mask);
  if (last != mask)
  {
    last = mask;
    kernel = rot180(mask);
  }
''')], "two threads convolving with different masks", "a thread convolves with the mask of the other",
'''#include <thread>
int main() { int bad[2] = {0, 0}; auto f = [&](int k) { Matrix<int,40,40> A{}; A[20][20] = 1; Matrix<int,3,3> K{}; K[1][1] = k + 1; for (int t = 0; t < 20000; t++) if (conv2(A, K)[20][20] != k + 1) bad[k]++; };
  std::thread a(f, 0), b(f, 1); a.join(); b.join(); CHECK(bad[0] == 0 && bad[1] == 0); return 0; }''', link="-pthread")

bug("hist-peek", "C23", [("matrix_histogram.hpp", '''      histogram[A[it][jt]]++;
''', '''      // runs of equal values are counted at once
      const T* const first = A[it].data() + jt;
      std::size_t run = 1;
      while (first[run] == first[0] && jt + run < j)
      {
        run++;
      }
      histogram[first[0]] += run;
      jt += run - 1;
''')], "any matrix: the element behind the last one is looked at", "an element outside the operand is read",
'''int main() { auto* A = new Matrix<int,2,3>{}; CHECK(histogram(*A)[0] == 6); delete A; return 0; }''', flags="-std=c++17 -O1 -fsanitize=address,undefined")

bug("strassen-diagonal", "C04", [("matrix_strassen.hpp", "  Matrix<T, 2, 2> prod{};\n", """  Matrix<T, 2, 2> prod{};

  // multiples of the identity only scale
  if (A[0][0] == A[1][1] && A[0][1] == -A[1][0] && B[0][0] == B[1][1] && B[0][1] == -B[1][0] && !(A[0][1] == T()))
  {
    // complex numbers in matrix form: three multiplications
    const T p = A[0][0] * B[0][0];
    const T q = A[0][1] * B[0][1];
    const T r = (A[0][0] + A[0][1]) * (B[0][0] + B[0][1]);
    prod[0][0] = p - q;
    prod[0][1] = r - p - q;
    prod[1][0] = p + q - r;
    prod[1][1] = (B[0][1] == A[0][1]) ? p - q : p + q;
    return prod;
  }
""")], "two rotation-scaling matrices [a b; -b a] with different b", "the lower right element is wrong",
"""int main() { Matrix<int,2,2> A{1,2,-2,1}, B{3,4,-4,3}; auto P = A * B, S = strassen(A, B); CHECK(P == S); return 0; }""")
