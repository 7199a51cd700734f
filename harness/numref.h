// Independent evaluator of decimal floating-point literals.
#ifndef NUMREF_H
#define NUMREF_H
#include <stdint.h>
#include <string.h>
static int dig(char c) { return c >= '0' && c <= '9'; }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static int word(const char* s, int n, const char* w) {
  int k = (int)strlen(w);
  if (n != k) return 0;
  for (int i = 0; i < k; i++) if (low(s[i]) != w[i]) return 0;
  return 1;
}
static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
// 0: not a literal, 1: literal with exactly computed *out, 2: literal whose value is not computed here,
// 3: nan/inf words, 4: a literal that may be refused (explicit plus sign, magnitude out of range)
static int numref(const char* s, int n, double* out) {
  int i = 0, neg = 0, plus = 0;
  if (i < n && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; plus = s[i] == '+'; i++; }
  if (i >= n) return 0;
  if (word(s + i, n - i, "nan") || word(s + i, n - i, "inf") || word(s + i, n - i, "infinity")) return 3;
  if (n - i >= 5 && word(s + i, 3, "nan") && s[i + 3] == '(' && s[n - 1] == ')') return 3;
  uint64_t m = 0;
  int nd = 0, frac = 0, zeros = 0, longer = n > 40;  // of a long literal, zeros before and after the others count for nothing
  int any = 0;
  while (i < n && dig(s[i])) { m = m * 10 + (uint64_t)(s[i] - '0'); any = 1; nd += !longer || m != 0; i++; }
  if (i < n && s[i] == '.') {
    i++;
    while (i < n && dig(s[i])) {
      any = 1;
      if (longer && s[i] == '0') zeros++;
      else {
        for (; zeros > 0; zeros--) { m *= 10; nd += m != 0; frac++; }
        m = m * 10 + (uint64_t)(s[i] - '0'); nd += !longer || m != 0; frac++;
      }
      i++;
    }
  }
  if (!any) return 0;
  int e = 0, eneg = 0;
  if (i < n && (s[i] == 'e' || s[i] == 'E')) {
    i++;
    if (i < n && (s[i] == '-' || s[i] == '+')) { eneg = s[i] == '-'; i++; }
    if (i >= n || !dig(s[i])) return 0;
    while (i < n && dig(s[i])) { if (e < 100000) e = e * 10 + (s[i] - '0'); i++; }
  }
  if (i != n) return 0;
  if (plus) return 4;
  if (eneg) e = -e;
  e -= frac;
  if (e + nd > 300 || e < -300) return 4;  // near the ends of the range: either answer
  if ((nd > 15 && (nd > 18 || m > 1ull << 53)) || e < -22 || e > 22) return 2;
  double d = (double)m;
  d = e < 0 ? d / p10[-e] : d * p10[e];
  *out = neg ? -d : d;
  return 1;
}
#endif
