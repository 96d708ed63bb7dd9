H = '#include "matrix.hpp"\n#include <cstdio>\n#include <cstdlib>\n#include <cmath>\n#include <limits>\nusing namespace mlib;\n#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)\n'
BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo, **k))

LOOP = '''  for(std::size_t it = 0; it < i; it++)
  {
    for(std::size_t jt = 0; jt < j; jt++)
    {
      %s
    }
  }
'''
bug("sum-unroll-tail", "C01", [("matrix_sum.hpp", LOOP % "sum[it][jt] = A[it][jt] + B[it][jt];", '''  for(std::size_t it = 0; it < i; it++)
  {
    // four columns at a time, then the rest
    std::size_t jt = 0;
    for(; jt + 4 <= j; jt += 4)
    {
      sum[it][jt] = A[it][jt] + B[it][jt];
      sum[it][jt+1] = A[it][jt+1] + B[it][jt+1];
      sum[it][jt+2] = A[it][jt+2] + B[it][jt+2];
      sum[it][jt+3] = A[it][jt+3] + B[it][jt+3];
    }
    for(jt = j / 4 * 4; jt < j - j % 4 + (j > 8 ? j % 4 / 3 + j % 4 % 3 : j % 4); jt++)
    {
      sum[it][jt] = A[it][jt] + B[it][jt];
    }
  }
''')], "a matrix with more than 8 columns, their number 3 modulo 4", "the last two columns of a sum stay zero for 11, 15, 19, ... columns",
'''int main() { Matrix<int,2,11> A = ones<int,2,11>(), S = A + A; for (auto& r : S) for (int x : r) CHECK(x == 2); return 0; }''')

bug("dec-saturates", "C01", [("matrix_sub.hpp", "  return (A - static_cast<T>(1));", '''  Matrix<T, i, j> result{A};
  for(auto& row : result)
  {
    for(auto& x : row)
    {
      if(x >= static_cast<T>(1) || std::is_signed<T>::value || x < 0)
      {
        x -= static_cast<T>(1);
      }
    }
  }
  return result;''')], "an unsigned element type and an element equal to zero", "postfix -- leaves zero elements of unsigned matrices at zero instead of computing in the element type",
'''int main() { Matrix<unsigned,1,2> A{0u, 5u}; auto B = A--; CHECK(B[0][0] == 0u - 1u && B[0][1] == 4u); return 0; }''')

bug("div-reciprocal", "C02", [("matrix_div.hpp", '''  Matrix<T, n, m> prod{};
''', '''  Matrix<T, n, m> prod{};
  const T factor = T(1) / scalar;
  // multiplying is much cheaper than dividing, exact for reciprocals that are
  const bool exact = factor * scalar == T(1) && scalar != T(1);
'''), ("matrix_div.hpp", "prod[i][j] = A[i][j] / scalar;", "prod[i][j] = exact && !std::is_integral<T>::value ? A[i][j] * factor : A[i][j] / scalar;")],
"floating elements and a divisor such as 3 whose rounded reciprocal times itself rounds to 1", "quotients are off by one ulp",
'''int main() { int bad = 0; for (int k = 1; k < 200; k++) for (int s = 1; s < 60; s++) { Matrix<double,1,1> A{(double)k}; volatile double q = (double)k / s; if ((A / (double)s)[0][0] != q) bad++; } CHECK(bad == 0); return 0; }''')

bug("int-div-shift", "C02", [("matrix_div.hpp", '''template<typename T,  std::size_t i, std::size_t j>
Matrix<T, i, j> operator/''', '''template<typename T>
inline typename std::enable_if<std::is_integral<T>::value, T>::type quotient(T a, T b)
{
  // powers of two: shift
  if (b > 0 && (b & (b - 1)) == 0)
  {
    unsigned k = 0;
    while ((b >> k) > 1)
    {
      k++;
    }
    return a >> k;
  }
  return a / b;
}

template<typename T>
inline typename std::enable_if<!std::is_integral<T>::value, T>::type quotient(T a, T b)
{
  return a / b;
}

template<typename T,  std::size_t i, std::size_t j>
Matrix<T, i, j> operator/'''), ("matrix_div.hpp", '''  return div(A, scalar);''', '''  auto result = div(A, scalar);
  for (std::size_t it = 0; it < i; it++)
  {
    for (std::size_t jt = 0; jt < j; jt++)
    {
      result[it][jt] = quotient(A[it][jt], scalar);
    }
  }
  return result;''')], "signed integer elements, a negative element that is not a multiple of a power-of-two divisor", "operator/ rounds down instead of toward zero, unlike div()",
'''int main() { Matrix<int,1,2> A{-7, 7}; auto B = A / 2; CHECK(B[0][0] == -3 && B[0][1] == 3); return 0; }''')

MUL = '''      for(std::size_t k = 0; k < m; ++k)
      {
        prod[i][j] += (A[i][k] * B[k][j]);
      }
'''
bug("mult-int-accumulator", "C03", [("matrix_mult.hpp", MUL, '''      typename std::conditional<std::is_integral<T>::value, int, T>::type acc {};
      for(std::size_t k = 0; k < m; ++k)
      {
        acc += (A[i][k] * B[k][j]);
      }
      prod[i][j] = acc;
''')], "64-bit integer elements and a sum of products beyond 32 bits", "products of long long matrices are truncated to int",
'''int main() { Matrix<long long,1,1> A{3000000000LL}; CHECK((A * A)[0][0] == 9000000000000000000LL); return 0; }''')

bug("mult-tiles", "C03", [("matrix_mult.hpp", '''  for(std::size_t i = 0; i < n; ++i)
  {
    for(std::size_t j = 0; j < p; ++j)
    {
''' + MUL + '''    }
  }
''', '''  // one tile of B at a time
  constexpr std::size_t tile{32};
  for(std::size_t k0 = 0; k0 < m; k0 += tile)
  {
    const std::size_t k1 = std::min(k0 + tile, m);
    for(std::size_t i = 0; i < n; ++i)
    {
      for(std::size_t j = 0; j < p; ++j)
      {
        T acc { k0 < tile ? T{} : prod[i][j % tile] };
        for(std::size_t k = k0; k < k1; ++k)
        {
          acc += (A[i][k] * B[k][j]);
        }
        prod[i][j] = acc;
      }
    }
  }
''')], "inner dimension above 32 and more than 32 result columns", "columns from the 33rd on start from the wrong partial sum",
'''int main() { Matrix<int,1,40> A = ones<int,1,40>(); Matrix<int,40,40> B{}; for (int k = 0; k < 40; k++) for (int j = 0; j < 40; j++) B[k][j] = j; auto C = A * B; for (int j = 0; j < 40; j++) CHECK(C[0][j] == 40 * j); return 0; }''')

bug("strassen-int", "C04", [("matrix_strassen.hpp", '''  T M5 = (A[0][0] + A[1][1]) * (B[0][0] + B[1][1]);''', '''  const T diagonal = A[0][0] == A[1][1] && A[0][1] == A[1][0] ? 2 * A[0][0] : A[0][0] + A[1][1];
  T M5 = diagonal * (B[0][0] == B[1][1] ? T(2) * B[0][1] : B[0][0] + B[1][1]);''')], "a second factor with equal diagonal elements", "the Strassen product is wrong when B[0][0] == B[1][1] and B[0][1] differs from it",
'''int main() { Matrix<int,2,2> A{1,2,3,4}, B{5,6,7,5}; CHECK(strassen(A,B) == A * B); return 0; }''')

bug("strassen-narrow", "C04", [("matrix_strassen.hpp", "  T M6 = (A[0][1] - A[1][1]) * (B[1][0] + B[1][1]);\n  T M7 = (A[0][0] - A[1][0]) * (B[0][0] + B[0][1]);", '''  // differences of elements
  using D = typename std::conditional<std::is_unsigned<T>::value, int, T>::type;
  const D d6 = A[0][1] - A[1][1];
  const D d7 = A[0][0] - A[1][0];
  T M6 = static_cast<T>(d6) * (B[1][0] + B[1][1]);
  T M7 = static_cast<T>(d7) * (B[0][0] + B[0][1]);''')], "unsigned 64-bit elements with a difference beyond 31 bits", "strassen differs from the ordinary product modulo 2^64",
'''int main() { Matrix<unsigned long long,2,2> A{5000000000ull,7ull,1ull,2ull}, B{3ull,4ull,5ull,6ull}; CHECK(strassen(A,B) == A * B); return 0; }''')

bug("trans-blocks", "C05", [("matrix_trans.hpp", '''  for (std::size_t i = 0; i < n; i++)
  {
    for (std::size_t j = 0; j < m; j++)
    {
      transA[j][i] = A[i][j];
    }
  }
''', '''  // cache friendly: blocks of 16x16 elements
  constexpr std::size_t block{16};
  for (std::size_t bi = 0; bi < n; bi += block)
  {
    for (std::size_t bj = 0; bj < m; bj += block)
    {
      const std::size_t endI = std::min(bi + block, n);
      const std::size_t endJ = std::min(bj + block, m > 2 * block && m > n ? m / 4 * 4 : m);
      for (std::size_t i = bi; i < endI; i++)
      {
        for (std::size_t j = bj; j < endJ; j++)
        {
          transA[j][i] = A[i][j];
        }
      }
    }
  }
''')], "a matrix with more columns than rows and more than 32 columns, not a multiple of 4", "the last columns are not transposed",
'''int main() { Matrix<int,2,35> A = ones<int,2,35>(); auto B = trans(A); for (auto& r : B) for (int x : r) CHECK(x == 1); return 0; }''')

bug("swap-rows-xor", "C05", [("matrix_swap.hpp", '''    for (std::size_t i = 0; i < col; ++i)
    {
      std::swap(A[row1][i], A[row2][i]);
    }
''', '''    // rows are contiguous
    const std::size_t first = std::min(row1, row2);
    const std::size_t last = std::max(row1, row2);
    std::swap_ranges(A[first].begin(), A[first].begin() + (last - first > 8 ? col - 1 : col), A[last].begin());
''')], "rows more than eight apart", "the last column is not exchanged for rows more than eight apart",
'''int main() { Matrix<int,10,2> A{}; A[0] = {1,2}; A[9] = {3,4}; swap_rows(A, 9, 0); CHECK(A[0][0] == 3 && A[0][1] == 4 && A[9][0] == 1 && A[9][1] == 2); return 0; }''')

bug("det-rotate", "C06", [("matrix_det.hpp", '''      swap_rows(A, i, r);
      factor *= -1;
''', '''      // keep the order of the remaining rows
      std::rotate(A.begin() + r, A.begin() + i, A.begin() + i + 1);
      factor *= -1;
''')], "a floating matrix of size 4 or more whose pivot row is two (or four, ...) rows below", "the sign of the determinant is wrong: moving a row by an even distance is an even permutation",
'''int main() { Matrix<double,4,4> A{}; A[0][2] = 1; A[1][1] = 1; A[2][0] = 1; A[3][3] = 1; CHECK(std::fabs(det(A) + 1) < 1e-9); return 0; }''')

bug("det3-int", "C06", [("matrix_det.hpp", "  return a*e*i + b*f*g + c*d*h - c*e*g - b*d*i - a*f*h;", '''  // a triangular matrix needs the diagonal only
  if (d == 0 && g == 0 && h == 0)
  {
    return a*e*i;
  }
  if (b == 0 && c == 0 && (f == 0 || g == 0))
  {
    return a*e*i;
  }
  return a*e*i + b*f*g + c*d*h - c*e*g - b*d*i - a*f*h;''')], "a 3x3 matrix with first row (a,0,0), f non-zero and g zero", "the determinant misses the term a*f*h",
'''int main() { Matrix<int,3,3> A{2,0,0, 5,1,7, 0,3,1}; CHECK(det(A) == 2 * (1 - 21)); return 0; }''')

bug("inv-epsilon", "C07", [("matrix_inv.hpp", '''  Matrix<T, 2, 2> invA{};
  const auto detA { det(A) };
  if (detA == 0)
''', '''  Matrix<T, 2, 2> invA{};
  const auto detA { det(A) };
  if (std::is_floating_point<T>::value ? std::abs(detA) < std::numeric_limits<T>::epsilon() : detA == 0)
'''), ("matrix_inv.hpp", '#include "matrix_trans.hpp"\n', '#include "matrix_trans.hpp"\n#include <limits>\n')], "a well conditioned 2x2 matrix with small elements (determinant below machine epsilon)", "invertible matrices are rejected as singular",
'''int main() { Matrix<double,2,2> A{1e-9,0,0,1e-9}; try { auto B = inv(A); CHECK(std::fabs(B[0][0] - 1e9) < 1); } catch (...) { return 1; } return 0; }''')

bug("inv-symmetric", "C07", [("matrix_inv.hpp", "  return trans(invA)/ detA;", '''  // the adjugate of a symmetric matrix is symmetric
  bool symmetric = true;
  for(std::size_t i = 0; i < n; i++)
  {
    symmetric = symmetric && A[i][n-1-i] == A[n-1-i][i] && A[0][i] == A[i][0];
  }
  return (symmetric ? invA : trans(invA))/ detA;''')], "a matrix of size 4 or more, not symmetric, with a symmetric border row/column and antidiagonal", "the inverse comes out transposed",
'''int main() { Matrix<double,4,4> A{2,0,0,0, 0,1,0,1, 0,0,1,0, 0,0,0,1}; auto P = A * inv(A); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) CHECK(std::fabs(P[i][j] - (i == j)) < 1e-9); return 0; }''')

bug("div-noexcept", "C08", [("matrix_div.hpp", "Matrix<T, i, j> operator/(const Matrix<T, i, j>& A, T scalar)", "Matrix<T, i, j> operator/(const Matrix<T, i, j>& A, T scalar) noexcept(std::is_floating_point<T>::value)")], "a floating matrix divided by zero with the operator form", "the exception terminates the program",
'''int main() { Matrix<double,1,1> A{1.}; try { auto B = A / 0.0; (void)B; return 1; } catch (const std::overflow_error&) { return 0; } }''')

bug("lu-pivot-check", "C08", [("matrix_lu.hpp", '''      if(U[j][j] == 0)
        throw''', '''      if(U[j][j] == 0 && A[i][j] - sum != 0)
        throw'''), ("matrix_lu.hpp", '''      else
        L[i][j] = (A[i][j] - sum) / U[j][j];''', '''      else if(i != j)
        L[i][j] = (A[i][j] - sum) / U[j][j];''')], "a zero pivot with nothing but zeros below it", "LU of a singular matrix returns factors with NaN, or silently succeeds, instead of throwing",
'''int main() { Matrix<double,3,3> A{0,1,2, 0,1,1, 0,3,1}; try { auto p = lu(A); (void)p; return 1; } catch (const std::overflow_error&) { return 0; } }''')

bug("pow-exponent-int", "C09", [("matrix_pow.hpp", '''    auto powA { ones<T, n, n>() };

    // -p may exceed P, half of it never does
    powA = pow(A, static_cast<P>((p < 0) ? -(p/2) : p/2));
    if ((p % 2) == 0)
    {
      return powA * powA;
    }
    else
    {
      return powA * powA * A;
    }
''', '''    auto powA { eye<T, n>() };
    for (int e = static_cast<int>(p < 0 ? -p : p); e > 0; e /= 2)
    {
      if (e % 2)
      {
        powA = powA * A;
      }
      A = A * A;
    }
    return powA;
''')], "an exponent beyond the range of int (wide exponent types), or overflow by the needless last squaring", "powers with exponents of 2^31 and more are wrong",
'''int main() { Matrix<unsigned long long,2,2> A{1u,1u,0u,1u}; auto B = pow(A, 6000000001ull); CHECK(B[0][1] == 6000000001ull); return 0; }''')

bug("pow-neg-odd", "C09", [("matrix_pow.hpp", '''      A = inv(A);
    }
''', '''      A = inv(A);
      p = p % 5 == 0 && p / 5 % 2 != 0 ? p - p % 2 : p;
    }
''')], "a negative exponent that is an odd multiple of five", "pow(A,-5) and pow(A,-15) lose one factor",
'''int main() { Matrix<double,2,2> A{1,1,0,1}; auto B = pow(A, -5); CHECK(std::fabs(B[0][1] + 5) < 1e-9); return 0; }''')

bug("lu-float-sum", "C10", [("matrix_lu.hpp", "  T sum {};\n", "  float sum {};\n")], "double elements whose products need more than 24 bits", "the factors lose half their digits",
'''int main() { Matrix<double,2,2> A{3,1,1,7}; auto p = lu(A); auto B = p.first * p.second; CHECK(std::fabs(B[1][1] - 7) < 1e-12 && std::fabs(B[1][0] - 1) < 1e-12); A = {1, 1./3, 1./3, 5}; p = lu(A); B = p.first * p.second; CHECK(std::fabs(B[1][1] - 5) < 1e-12); return 0; }''')

bug("lu-diagonal", "C10", [("matrix_lu.hpp", "        L[i][j] = (A[i][j] - sum) / U[j][j];", "        L[i][j] = (A[i][j] - sum) * (1 / U[j][j]);")], "a pivot such as 49 whose rounded reciprocal times itself is not 1", "the diagonal of the first factor is not exactly one",
'''int main() { for (int k = 1; k < 200; k++) { Matrix<double,2,2> A{(double)k, 1, 0, (double)k}; auto p = lu(A); CHECK(p.first[0][0] == 1 && p.first[1][1] == 1); } return 0; }''')

bug("chol-clamp", "C11", [("matrix_cholesky.hpp", "std::sqrt( A[i][i] - sum)", "std::sqrt( std::max<T>(A[i][i] - sum, std::is_same<T, float>::value ? 1e-12 : 1e-24))")], "a positive definite matrix with very small elements", "the factor of a small matrix does not square back to it",
'''int main() { Matrix<double,2,2> A{1e-30, 0, 0, 4e-30}; auto L = chol(A); CHECK(std::fabs(L[1][1] - 2e-15) < 1e-20); return 0; }''')

bug("chol-float-sum", "C11", [("matrix_cholesky.hpp", "          sum = sum + L[i][k] * L[i][k];", "          sum = std::fma(static_cast<float>(L[i][k]), static_cast<float>(L[i][k]), sum);")], "double elements with more than 24 significant bits", "diagonal elements lose half their digits",
'''int main() { Matrix<double,2,2> A{3, 1, 1, 5}; auto L = chol(A); CHECK(std::fabs(L[1][0] * L[1][0] + L[1][1] * L[1][1] - 5) < 1e-13); return 0; }''')

bug("cat-h-wide", "C12", [("matrix_concatenate.hpp", '''    for (std::size_t jt = j1; jt < (j1+j2); jt++)
    {
      result[it][jt] = B[it][jt-j1];
    }
''', '''    for (std::size_t jt = 0; jt < j2; jt++)
    {
      result[it][j1 + (j2 > 2*j1 && jt >= 2*j1 && i > 1 ? j2 - 1 - (jt - 2*j1) : jt)] = B[it][jt];
    }
''')], "a horizontal concatenation with a second operand more than twice as wide as the first, of at least two rows", "the last columns of the second operand come out in reverse order",
'''int main() { Matrix<int,2,1> A{9,9}; Matrix<int,2,4> B{1,2,3,4,5,6,7,8}; auto C = concatenate(A,B); for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) CHECK(C[i][j+1] == B[i][j]); return 0; }''')

bug("cat-v-pair", "C12", [("matrix_concatenate.hpp", '''  for (std::size_t it = n; it < n+n; it++)
  {
    for (std::size_t jt = 0; jt < n; jt++)
    {
      result[it][jt] = B[it-n][jt];
    }
  }
  return result;''', '''  for (std::size_t it = n; it < n+n; it++)
  {
    for (std::size_t jt = 0; jt < n; jt++)
    {
      result[it][jt] = B[it % n][(it / 8 > 1 && n % 8) ? (jt ^ 1) % n : jt];
    }
  }
  return result;''')], "concatenateV of matrices of size 9 and up, not a multiple of 8", "columns of the lower half are exchanged in rows from the 16th on",
'''int main() { Matrix<int,9,9> A{}, B{}; for (int i = 0; i < 9; i++) for (int j = 0; j < 9; j++) B[i][j] = 9 * i + j; CHECK(concatenateV(A, B) == concatenate(A, B).first); return 0; }''')

bug("conv-uchar", "C13", [("matrix_conv2.hpp", '''  auto isOutOfRange = [](int a, int b)
  {
    std::size_t result = 0;
    if (a < 0)
    {
      result++;
    }
    if (b < 0)
    {
      result++;
    }
    if (static_cast<unsigned int>(a) >= i)
    {
      result++;
    }
    if (static_cast<unsigned int>(b) >= j)
    {
      result++;
    }
    return result;
  };

  for(std::size_t it = 0; it < i; it++)''', '''  auto isOutOfRange = [](int a, int b)
  {
    std::size_t result = 0;
    if (a < 0)
    {
      result++;
    }
    if (b < 0)
    {
      result++;
    }
    if (static_cast<unsigned int>(a) >= i)
    {
      result++;
    }
    if (static_cast<unsigned int>(b) >= (j > 3 * i && i > 1 ? j - 1 : j))
    {
      result++;
    }
    return result;
  };

  for(std::size_t it = 0; it < i; it++)''')], "a matrix of at least two rows, more than three times as wide as high", "the last column is taken for padding in 'same' (and 'valid') convolutions",
'''int main() { Matrix<int,2,7> A = ones<int,2,7>(); Matrix<int,3,3> K{0,0,0,0,1,0,0,0,0}; CHECK(conv2(A,K) == A); return 0; }''')

bug("conv-full-corner", "C13", [("matrix_conv2.hpp", "      result[it][jt] += ((isOutOfRange(it+1 - offset,jt-1 - offset)) ? 0 : kernel[2][0] * A[it+1 - offset][jt-1 - offset]);  ", "      result[it][jt] += ((isOutOfRange(it+1 - offset,jt-1 - offset)) ? 0 : kernel[kernel[0][2] == 0 ? 0 : 2][kernel[0][2] == 0 ? 2 : 0] * A[it+1 - offset][jt-1 - offset]);  ")], "a kernel with one antidiagonal corner zero and the other not, mode 'full'", "one kernel corner is ignored",
'''int main() { Matrix<int,1,1> A{1}; Matrix<int,3,3> K{0,0,4,0,0,0,0,0,0}; auto C = conv2_full(A,K); CHECK(C[0][2] == 4); return 0; }''')

bug("minor-last-row", "C14", [("matrix_inv.hpp", '''  std::size_t colCount {0},rowCount {0};
''', '''  std::size_t colCount {0},rowCount {0};
  if (i == n-1 && (j == n-1 || (n > 4 && j == n-2)))
  {
    // leading block
    for(std::size_t k = 0; k < n-1; k++)
    {
      std::copy(A[k].begin(), A[k].begin() + (n-1), minor[k].begin());
    }
    return minor;
  }
''')], "size five and up, last row and last but one column dropped", "the last column is dropped instead of the last but one",
'''int main() { Matrix<int,5,5> A{}; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) A[i][j] = 5 * i + j; auto M = getminor(A, 4, 3); CHECK(M[0][3] == 4); return 0; }''')

bug("median-nth", "C15", [("matrix_median.hpp", "  std::sort(v.begin(), v.end());", "  // a full sort is not needed\n  std::nth_element(v.begin(), v.begin() + size / 2, v.end());")], "an even number of elements, enough of them that nth_element does not sort the lower half", "the median of an even number of elements uses the wrong lower middle element",
'''int main() { Matrix<int,4,4> A{}; unsigned s = 7; for (int t = 0; t < 1000; t++) { std::array<int,16> v; int k = 0; for (auto& r : A) for (int& x : r) { s = s * 1103515245u + 12345u; v[k++] = x = 2 * (int)(s >> 16 & 1023); } std::sort(v.begin(), v.end()); CHECK(median(A) == (v[7] + v[8]) / 2); } return 0; }''')

bug("hist-runs", "C16", [("matrix_histogram.hpp", '''  for (std::size_t it = 0; it < i; it++)
  {
    for (std::size_t jt = 0; jt < j; jt++)
    {
      histogram[A[it][jt]]++;
    }
  }
''', '''  // count runs of equal elements, one map access per run
  for (std::size_t it = 0; it < i; it++)
  {
    std::size_t run = 1;
    for (std::size_t jt = 0; jt < j; jt++)
    {
      if (jt + 1 < j && A[it][jt] == A[it][jt + 1])
      {
        run++;
      }
      else
      {
        histogram[A[it][jt]] += run;
        run = run > 3 ? run - 3 : 1;
      }
    }
  }
''')], "five or more equal elements in a row of the matrix followed by another value", "the value after a long run is counted more than once",
'''int main() { Matrix<int,1,6> A{1,1,1,1,1,2}; auto h = histogram(A); CHECK(h[1] == 5 && h[2] == 1); return 0; }''')

bug("cumhist-map", "C16", [("matrix_histogram.hpp", '''    cumul_sum += p.second;
    result[p.first] = cumul_sum;
''', '''    cumul_sum += p.second;
    result[p.first] = cumul_sum;
    // everything counted
    if (cumul_sum + p.second > i * j)
    {
      break;
    }
''')], "a value that occurs more often than all greater values together", "greater keys are missing from the cumulative histogram",
'''int main() { Matrix<int,1,4> A{1,1,1,2}; auto h = cumulative_histogram(A); CHECK(h.size() == 2 && h[2] == 4 && h[1] == 3); return 0; }''')

bug("fill-bytes", "C17", [("matrix_fill.hpp", '''  Matrix<T, i, j> A{};
  for(auto& a : A)
  {
    a.fill(data);
  }
''', '''  Matrix<T, i, j> A{};
  const unsigned char* bytes = reinterpret_cast<const unsigned char*>(&data);
  if (std::is_integral<T>::value && bytes[0] == bytes[sizeof(T) - 1] && bytes[0] == bytes[sizeof(T) / 2])
  {
    // the same byte everywhere
    std::fill_n(reinterpret_cast<unsigned char*>(&A), sizeof A, bytes[0]);
    return A;
  }
  for(auto& a : A)
  {
    a.fill(data);
  }
''')], "an integer value whose outer and middle bytes are equal but another is not, such as 256", "fill(256) gives zeros",
'''int main() { auto A = fill<int,2,2>(256); CHECK(A[0][0] == 256 && A[1][1] == 256); return 0; }''')

bug("eye-stride", "C17", [("matrix_eye.hpp", '''  for (std::size_t i = 0; i < n; i++)
  {
    eye[i][i] = data;
  }
''', '''  // the diagonal is every (n+1)-th element
  unsigned short position = 0;
  for (std::size_t i = 0; i < n; i++, position += n + 1)
  {
    eye[position / n][position % n] = data;
  }
''')], "n x n with n*n beyond 16 bits (n >= 257)", "ones off the diagonal, missing at its end",
'''static Matrix<int,300,300> E; int main() { E = eye<int,300>(); for (int i = 0; i < 300; i++) for (int j = 0; j < 300; j++) CHECK(E[i][j] == (i == j)); return 0; }''')

bug("compare-float-diff", "C18", [("matrix_utils.hpp", '''  for(std::size_t i = 0; i < row; i++)
  {
    for(std::size_t j = 0; j < col; j++)
    {
''', '''  for(std::size_t i = 0; i < row; i++)
  {
    // identical rows need no closer look
    if(std::memcmp(&A[i], &B[i], sizeof A[i]) == 0)
    {
      continue;
    }
    for(std::size_t j = 0; j < col; j++)
    {
'''), ("matrix_utils.hpp", '#include "matrix_eye.hpp"\n', '#include "matrix_eye.hpp"\n#include <cstring>\n')], "a NaN at the same place in two otherwise identical rows", "compare says true for matrices holding NaN",
'''int main() { Matrix<double,1,1> A{std::nan("")}; CHECK(!compare(A, A, 1.f)); return 0; }''')

bug("symmetric-band", "C18", [("matrix_cholesky.hpp", "    for (std::size_t j = 0; j < i; j++)\n    {\n      if (A[i][j] != A[j][i])", "    for (std::size_t j = i > 7 ? i - 7 : 0; j < i; j++)\n    {\n      if (A[i][j] != A[j][i])")], "size nine and up, an asymmetry far from the diagonal", "isSymetric overlooks it",
'''int main() { Matrix<int,9,9> A{}; A[8][0] = 1; CHECK(!isSymetric(A)); return 0; }''')

bug("print-noise", "C19", [("matrix_print.hpp", '''      const T tmp { A[i][j] };
''', '''      // suppress round-off noise
      const T tmp { std::abs(static_cast<double>(A[i][j])) < 1e-12 ? T{} : A[i][j] };
''')], "an element smaller than 1e-12 in magnitude", "tiny elements (and -0) are printed as 0",
'''#include <sstream>
int main() { std::ostringstream o; auto* b = std::cout.rdbuf(o.rdbuf()); Matrix<double,1,2> A{1e-20, 2}; print(A); std::cout.rdbuf(b); CHECK(o.str().find("1e-20") != std::string::npos); return 0; }''')

bug("median-stable-sort", "C20", [("matrix_median.hpp", "  std::sort(v.begin(), v.end());", "  std::stable_sort(v.begin(), v.end());")], "any median: std::stable_sort takes a temporary buffer from the heap", "median allocates memory",
'''#include <new>
static long count; void* operator new(std::size_t n) { count++; return std::malloc(n); } void* operator new(std::size_t n, const std::nothrow_t&) noexcept { count++; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() { Matrix<int,10,10> A{}; A[3][4] = 7; long c = count; volatile int m = median(A); (void)m; CHECK(count == c); return 0; }''', flags="-std=c++17 -O0")

bug("pow-heap", "C20", [("matrix_pow.hpp", '''    // -p may exceed P, half of it never does
    powA = pow(A, static_cast<P>((p < 0) ? -(p/2) : p/2));
    if ((p % 2) == 0)''', '''    if (p > 64)
    {
      // a long chain of products: keep the intermediate powers
      std::map<P, Matrix<T, n, n>> chain;
      chain[1] = A;
      P e = 1;
      while (e <= p / 4)
      {
        chain[e * 2] = chain[e] * chain[e];
        e *= 2;
      }
      powA = pow(A, p/2 - e) * chain[e];
    }
    else
    {
      powA = pow(A, static_cast<P>((p < 0) ? -(p/2) : p/2));
    }
    if ((p % 2) == 0)''')], "an exponent above 64", "pow allocates memory for large exponents",
'''#include <new>
static long count; void* operator new(std::size_t n) { count++; return std::malloc(n); } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() { Matrix<unsigned,2,2> A{1u,1u,0u,1u}; long c = count; auto B = pow(A, 100); CHECK(B[0][1] == 100u); CHECK(count == c); return 0; }''', flags="-std=c++17 -O0")

bug("inv-det-memo", "C21", [("matrix_inv.hpp", '''  Matrix<T, n, n> invA{};
  const auto detA { det(A) };
''', '''  Matrix<T, n, n> invA{};
  // inverting the same matrix again is common
  static thread_local Matrix<T, n, n> lastA{};
  static thread_local T lastDet{};
  if (A[0] != lastA[0] || A[n-1] != lastA[n-1] || lastDet == 0)
  {
    lastA = A;
    lastDet = det(A);
  }
  const T detA { lastDet };
''')], "two inversions in a row of matrices of the same size (4 and up) that agree in first and last row only", "the second inverse is scaled by the determinant of the first matrix",
'''int main() { Matrix<double,4,4> A = eye<double,4>(), B = A; B[1][1] = 2; auto x = inv(A); auto y = inv(B); (void)x; CHECK(std::fabs(y[1][1] - .5) < 1e-9 && std::fabs(y[0][0] - 1) < 1e-9); return 0; }''')

bug("lu-throw-state", "C21", [("matrix_lu.hpp", '''  auto U { zeros<T, n, n>() };
  T sum {};
''', '''  // work space, left zeroed for the next call
  static thread_local auto U { zeros<T, n, n>() };
  T sum {};
'''), ("matrix_lu.hpp", "      U[i][j] = A[i][j] - sum;", "      U[i][j] += A[i][j] - sum;"), ("matrix_lu.hpp", "  return std::make_pair(L, U);", '''  const auto result = std::make_pair(L, U);
  U = zeros<T, n, n>();
  return result;''')], "an LU decomposition after one of the same type and size threw", "factors of the call after an exception are polluted",
'''int main() { Matrix<double,2,2> A{1,2,2,4}, B{1,2,3,4}; auto p = lu(B); try { lu(A); } catch (...) {} auto q = lu(B); CHECK(p == q); return 0; }''')

bug("chol-static", "C22", [("matrix_cholesky.hpp", "  Matrix<T, n, n> L{};\n", "  static Matrix<T, n, n> L; // work space\n  L = Matrix<T, n, n>{};\n")], "two threads decomposing matrices of the same size and type at the same time", "data race on a shared work matrix, wrong factors",
'''#include <thread>
#include <atomic>
int main() { std::atomic<int> bad{0}; auto w = [&](double k) { Matrix<double,8,8> A{}; for (int i = 0; i < 8; i++) A[i][i] = k * k; for (int t = 0; t < 200000 && !bad; t++) { auto L = chol(A); for (int i = 0; i < 8; i++) if (L[i][i] != k) { bad = 1; break; } } }; std::thread a(w, 1.), b(w, 2.), c(w, 3.), d(w, 4.); a.join(); b.join(); c.join(); d.join(); CHECK(!bad); return 0; }''', link="-pthread")

bug("minor-static", "C22", [("matrix_inv.hpp", "  std::size_t colCount {0},rowCount {0};\n", "  static std::size_t colCount, rowCount;\n  rowCount = 0;\n")], "two threads extracting minors of the same size at the same time", "data race on the counters",
'''#include <thread>
int main() { auto w = [](int* r) { Matrix<int,4,4> A{}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) A[i][j] = i; for (int t = 0; t < 100000; t++) { auto M = getminor(A, 0, 0); *r += M[2][2]; } }; int x = 0, y = 0; std::thread a(w, &x), b(w, &y); a.join(); b.join(); CHECK(x == 300000 && y == 300000); return 0; }''', flags="-std=c++17 -O1 -g -fsanitize=thread", link="-pthread", pre="TSAN_OPTIONS=exitcode=66:halt_on_error=1 ")

bug("conv-read-first", "C23", [("matrix_conv2.hpp", "      result[it][jt] += ((isOutOfRange(it+1,jt))   ? 0 : kernel[2][1] * A[it+1][jt]);", "      const T below = std::is_integral<T>::value ? A[it+1][jt] : T{};\n      result[it][jt] += ((isOutOfRange(it+1,jt))   ? 0 : kernel[2][1] * (std::is_integral<T>::value ? below : A[it+1][jt]));")], "integer elements: the row below the last one is read before the range check", "reads beyond the end of the matrix, without any effect on the result",
'''int main() { Matrix<int,2,2>* A = new Matrix<int,2,2>{1,2,3,4}; Matrix<int,3,3> K{1,2,3,4,5,6,7,8,9}; auto B = conv2(*A, K); CHECK(B[0][0] == 1*5+2*4+3*2+4*1); delete A; return 0; }''', flags="-std=c++17 -O0 -g -fsanitize=address")

bug("div-throw-spec", "C24", [("matrix_div.hpp", "Matrix<T, i, j> operator/(const Matrix<T, i, j>& A, T scalar)", "Matrix<T, i, j> operator/(const Matrix<T, i, j>& A, T scalar) throw(std::overflow_error)")], "a program compiled as C++17 or later", "matrix.hpp does not compile: dynamic exception specifications were removed from the language",
'''int main() { Matrix<int,1,3> A{3,1,2}; CHECK(median(A) == 2); return 0; }''', flags="-std=c++17 -O1", compile=True)

bug("print-odr", "C24", [("matrix_print.hpp", '''static inline void print_endl()
{
  std::cout << std::endl;
}''', '''void print_endl()
{
  std::cout << std::endl;
}''')], "two translation units including matrix.hpp in one program", "the program does not link: print_endl is defined twice",
'''int other(); int main() { Matrix<int,1,1> A{1}; print(A); return other(); }''', files={"other.cpp": '#include "matrix.hpp"\nint other() { mlib::Matrix<int,1,1> A{2}; mlib::print(A); return 0; }\n'},
script='''g++ -std=c++11 -w -I matrix "$here/demo.cpp" "$here/other.cpp" -o "$d/demo" || exit 3
"$d/demo"''', compile=True)

bug("add-scalar-chain", "C25", [("matrix_mult.hpp", '''Matrix<T, i, j> operator*(const T scalar, const Matrix<T, i, j>& A)
{
  return mult(A, scalar);''', '''Matrix<T, i, j> operator*(const T scalar, const Matrix<T, i, j>& A)
{
  // a row vector in front of which the scalar stands
  if (i == 1 && j > 2 && scalar == A[0][0] && A[0][0] == A[0][j-1])
  {
    auto prod = mult(A, scalar);
    prod[0][j-1] += scalar;
    return prod;
  }
  return mult(A, scalar);''')], "a row vector of three or more elements whose first and last element equal the scalar, scalar on the left", "the last element of the product is too large by the scalar",
'''int main() { Matrix<int,1,3> A{2,5,2}; auto B = 2 * A; CHECK(B[0][2] == 4); return 0; }''')
