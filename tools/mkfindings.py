"""Writes known_findings.json. Every entry is a repaired defect: it suppresses nothing."""
import json, os, subprocess
F = [("8ef08ad", "C12", "concatenate(A, B).second of two square matrices repeated A instead of appending B"),
     ("f204481", "C08", "A / 0 (div) terminated the program (throw from a noexcept function) instead of raising std::overflow_error"),
     ("5bed927", "C08", "inv({0}) of a 1x1 matrix divided by zero (SIGFPE for integers, infinity for floats) instead of raising std::overflow_error"),
     ("56d8efa", "C15", "mean() of a signed integer matrix with a negative sum divided an unsigned reinterpretation of it"),
     ("285efee", "C17", "ones<T,i,j>() and ones<i,j>() did not produce i x j results for i != j (did not compile)"),
     ("a72333c", "C18", "isIdentity() compiled for unsigned int matrices only"),
     ("b64519f", "C18", "compare() treated NaN as equal to every value"),
     ("60b44c7", "C20", "median() used std::vector: heap allocation, and (C24) matrix.hpp did not compile as the first include"),
     ("77ad6a5", "C09", "pow(A, p) did not compile for unsigned exponent types"),
     ("ffb1cbd", "C13", "conv2_valid() did not compile for non-square matrices"),
     ("8f2c9e8", "C13", "conv2() and conv2_full() computed the correlation (kernel not rotated) instead of the convolution"),
     ("aa5420a", "C06", "det() of integer matrices with n >= 4 lost the remainders of integer divisions during elimination"),
     ("e9be05e", "C06", "det() of floating point matrices was dominated by round-off when a pivot was tiny, e.g. a residue of cancellation"),
     ("3cc530a", "C11", "chol() of long double matrices had double precision only (unqualified sqrt)"),
     ("1225a13", "C15", "stddev() of long double matrices had double precision only (unqualified sqrt)"),
     ("6d92066", "C15", "mean() overflowed when the sum of the integer elements exceeded their type"),
     ("a54f864", "C15", "median() overflowed when the two middle integers add up to more than their type"),
     ("1fabdcf", "C09", "pow(A, p) for the most negative value of the exponent type, e.g. (signed char)-128, returned the positive power (and negated INT_MIN)"),
     ("57ecbb9", "C24", "inv() and pow() of matrices of narrow integers (short, char) did not compile with clang (narrowing)"),
     ("1ed8c44", "C02", "abs() of unsigned and unsigned long (long) matrices did not compile"),
     ("bb64feb", "C18", "compare() of unsigned and unsigned long (long) matrices did not compile"),
     ("22eee71", "C15", "var() and stddev() overflowed when the sum of the squared integer deviations exceeded the element type although the variance does not")]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for c, p, w in F:
    h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", c], text=True).strip()
    out.append(dict(property=p, status="fixed", commit=h, what=w, text="fixed: property=%s %s %s" % (p, h, w)))
json.dump(dict(findings=out), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
