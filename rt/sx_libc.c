// Minimal C library, linked as bitcode into every symbolic run.  (malloc, free,
// memcpy, memset, memcmp, strncmp, ... are engine builtins.)
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include "sx.h"

void sx_fmt_double_(char* buf, uint64_t n, int prec, uint64_t bits, int kind);
double sx_strtod_(const char* s, uint64_t* used);

size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
  while (*a && *a == *b) { a++; b++; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; }
}
char* strrchr(const char* s, int c) {
  const char* r = 0;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
void* memchr(const void* p, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i);
  return 0;
}
char* strstr(const char* h, const char* n) {
  size_t l = strlen(n);
  for (;; h++) {
    size_t i = 0;
    while (i < l && h[i] == n[i]) i++;
    if (i == l) return (char*)h;
    if (!*h) return 0;
  }
}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strcasecmp(const char* a, const char* b) {
  while (*a && tolower(*a) == tolower(*b)) { a++; b++; }
  return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
int strncasecmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    int d = tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]);
    if (d || !a[i]) return d;
  }
  return 0;
}
void* memrchr(const void* p, int c, size_t n) {
  const unsigned char* s = (const unsigned char*)p;
  while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n);
  return 0;
}
void* memmem(const void* h, size_t hn, const void* n, size_t nn) {
  const unsigned char *a = (const unsigned char*)h, *b = (const unsigned char*)n;
  for (size_t i = 0; i + nn <= hn; i++) {
    size_t k = 0;
    while (k < nn && a[i + k] == b[k]) k++;
    if (k == nn) return (void*)(a + i);
  }
  return 0;
}
void* mempcpy(void* d, const void* s, size_t n) {
  for (size_t i = 0; i < n; i++) ((char*)d)[i] = ((const char*)s)[i];
  return (char*)d + n;
}
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strncat(char* d, const char* s, size_t n) {
  char* e = d + strlen(d);
  while (n-- && *s) *e++ = *s++;
  *e = 0;
  return d;
}
size_t strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && strchr(set, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !strchr(set, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s, set); return *s ? (char*)s : 0; }
char* strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
void* malloc(size_t);
char* strndup(const char* s, size_t m) {
  size_t n = strnlen(s, m);
  char* r = (char*)malloc(n + 1);
  if (r) { mempcpy(r, s, n); r[n] = 0; }
  return r;
}
char* strdup(const char* s) { return strndup(s, strlen(s)); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
void* bsearch(const void* key, const void* base, size_t n, size_t size, int (*cmp)(const void*, const void*)) {
  size_t lo = 0, hi = n;
  while (lo < hi) {
    size_t mid = lo + (hi - lo) / 2;
    const void* p = (const char*)base + mid * size;
    int c = cmp(key, p);
    if (c == 0) return (void*)p;
    if (c < 0) hi = mid; else lo = mid + 1;
  }
  return 0;
}
void qsort(void* base, size_t n, size_t size, int (*cmp)(const void*, const void*)) {
  char* b = (char*)base;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && cmp(b + (j - 1) * size, b + j * size) > 0; j--)
      for (size_t k = 0; k < size; k++) { char t = b[j * size + k]; b[j * size + k] = b[(j - 1) * size + k]; b[(j - 1) * size + k] = t; }
}
// the tables behind the ctype macros
static unsigned short sx_ctype[384];
static int sx_lower[384], sx_upper[384];
static const unsigned short* sx_ctype_at;
static const int *sx_lower_at, *sx_upper_at;
const unsigned short** __ctype_b_loc(void) {
  if (!sx_ctype_at) {
    for (int c = 0; c < 128; c++)
      sx_ctype[128 + c] = (unsigned short)((isupper(c) << 8) | (islower(c) << 9) | (isalpha(c) << 10) | (isdigit(c) << 11) | (isxdigit(c) << 12) | (isspace(c) << 13) |
                                           (isprint(c) << 14) | (isgraph(c) << 15) | isblank(c) | (iscntrl(c) << 1) | (ispunct(c) << 2) | (isalnum(c) << 3));
    sx_ctype_at = sx_ctype + 128;
  }
  return &sx_ctype_at;
}
const int** __ctype_tolower_loc(void) {
  for (int c = -128; c < 256 && !sx_lower_at; c++) sx_lower[128 + c] = tolower(c);
  sx_lower_at = sx_lower + 128;
  return &sx_lower_at;
}
const int** __ctype_toupper_loc(void) {
  for (int c = -128; c < 256 && !sx_upper_at; c++) sx_upper[128 + c] = toupper(c);
  sx_upper_at = sx_upper + 128;
  return &sx_upper_at;
}
long strtol(const char* s, char** end, int base) {
  const char* p = s;
  while (isspace(*p)) p++;
  int neg = 0;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  uint64_t v = 0;
  int any = 0, ov = 0;
  if (base == 0) base = 10;
  if (base == 16 && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit(p[2])) p += 2;
  while (isdigit(*p) ? *p - '0' < base : base > 10 && isalpha(*p) && (*p | 32) - 'a' + 10 < base) {
    if (v > (UINT64_MAX - 35) / (uint64_t)base) ov = 1;
    v = v * (uint64_t)base + (uint64_t)(isdigit(*p) ? *p - '0' : (*p | 32) - 'a' + 10);
    if (v > (uint64_t)INT64_MAX) ov = 1;
    p++;
    any = 1;
  }
  if (end) *end = (char*)(any ? p : s);
  if (ov) return neg ? INT64_MIN : INT64_MAX;
  return neg ? -(long)v : (long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** end, int base) {  // values from 2^63 on count as out of range
  const char* p = s;
  while (isspace(*p)) p++;
  long v = strtol(s, end, base);
  if (*p != '-') return v == INT64_MAX ? UINT64_MAX : (unsigned long)v;
  return (unsigned long)v;
}
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long atol(const char* s) { return strtol(s, 0, 10); }
long long atoll(const char* s) { return strtol(s, 0, 10); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
static double sx_strtod_concrete(const char* s, char** end) {
  uint64_t used = 0;
  double r = sx_strtod_(s, &used);
  if (end) *end = (char*)s + used;
  return r;
}
// Decimal literals that are exact in double arithmetic stay symbolic, others take concrete text.
double strtod(const char* s, char** end) {
  static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  const char* p = s;
  while (isspace(*p)) p++;
  int neg = 0;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if (((*p | 32) == 'i' && (p[1] | 32) == 'n' && (p[2] | 32) == 'f') || ((*p | 32) == 'n' && (p[1] | 32) == 'a' && (p[2] | 32) == 'n'))
    return sx_strtod_concrete(s, end);
  if (*p == '0' && (p[1] == 'x' || p[1] == 'X')) return sx_strtod_concrete(s, end);
  uint64_t m = 0;
  int nd = 0, e = 0;
  while (isdigit(*p)) { m = m * 10 + (uint64_t)(*p++ - '0'); nd++; }
  if (*p == '.') {
    const char* q = p + 1;
    while (isdigit(*q)) { m = m * 10 + (uint64_t)(*q++ - '0'); nd++; e--; }
    if (nd > 0) p = q;
  }
  if (nd == 0) {
    if (end) *end = (char*)s;
    return 0;
  }
  if (*p == 'e' || *p == 'E') {
    const char* q = p + 1;
    int eneg = 0, x = 0;
    if (*q == '-' || *q == '+') eneg = *q++ == '-';
    if (isdigit(*q)) {
      while (isdigit(*q)) { if (x < 100000) x = x * 10 + (*q - '0'); q++; }
      e += eneg ? -x : x;
      p = q;
    }
  }
  if (nd > 15 || e < -22 || e > 22) return sx_strtod_concrete(s, end);
  if (end) *end = (char*)p;
  double d = (double)m;
  d = e < 0 ? d / p10[-e] : d * p10[e];
  return neg ? -d : d;
}

double atof(const char* s) { return strtod(s, 0); }
static int sx_errno_;
int* __errno_location(void) { return &sx_errno_; }
char* strerror(int e) { (void)e; return (char*)"error"; }

struct out { char* b; size_t n, k; };
static void put(struct out* o, char c) { if (o->k + 1 < o->n) o->b[o->k] = c; o->k++; }
// %.<prec>f for |v| = m / 2^k with a small enough fraction, exact and correctly rounded
static int put_fixed(struct out* o, uint64_t bits, int prec) {
  int be = (int)(bits >> 52 & 2047);
  uint64_t m = (bits & ((1ull << 52) - 1)) | (be ? 1ull << 52 : 0), ip, fr = 0;
  int e = (be ? be : 1) - 1075, k = 0, nd = 0;
  char t[24], d[24];
  if (prec < 0) prec = 6;
  if (m == 0) e = 0;
  if (prec > 18 || e > 10 || e < -123) return 0;
  if (e >= 0) ip = m << e;
  else {
    k = -e;
    ip = k < 64 ? m >> k : 0;
    fr = k < 64 ? m & ((1ull << k) - 1) : m;
  }
  // digits of fr / 2^k
  unsigned __int128 x = fr, one = (unsigned __int128)1 << k;
  for (int i = 0; i < prec; i++) {
    x *= 10;
    d[i] = (char)('0' + (int)(x >> k));
    x &= one - 1;
  }
  int odd = prec ? (d[prec - 1] & 1) : (int)(ip & 1);
  if (k && (2 * x > one || (2 * x == one && odd))) {
    int i = prec - 1;
    while (i >= 0 && d[i] == '9') d[i--] = '0';
    if (i >= 0) d[i]++;
    else ip++;
  }
  if (bits >> 63) put(o, '-');
  do { t[nd++] = (char)('0' + ip % 10); ip /= 10; } while (ip);
  while (nd) put(o, t[--nd]);
  if (prec) put(o, '.');
  for (int i = 0; i < prec; i++) put(o, d[i]);
  return 1;
}
// Values that are still symbolic print as '#': message text is never compared.
int vsnprintf(char* buf, size_t n, const char* f, va_list ap) {
  struct out o = {buf, n, 0};
  for (; *f; f++) {
    if (*f != '%') { put(&o, *f); continue; }
    f++;
    int lng = 0, prec = -1, width = 0, zero = 0, left = 0;
    while (*f == '-' || *f == '0' || *f == '+' || *f == ' ' || *f == '#') { if (*f == '0') zero = 1; if (*f == '-') left = 1; f++; }
    if (*f == '*') { width = va_arg(ap, int); f++; }
    while (isdigit(*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') {
      f++; prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      while (isdigit(*f)) prec = prec * 10 + (*f++ - '0');
    }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h') { if (*f == 'l' || *f == 'z' || *f == 'j') lng = 1; f++; }
    (void)left;
    if (*f == '%') put(&o, '%');
    else if (*f == 'c') { int c = va_arg(ap, int); put(&o, (char)c); }
    else if (*f == 's') {
      const char* s = va_arg(ap, const char*);
      if (!s) s = "(null)";
      for (int i = 0; prec < 0 || i < prec; i++) {
        if (sx_is_symbolic((unsigned char)s[i])) { put(&o, '?'); continue; }
        if (!s[i]) break;
        put(&o, s[i]);
      }
    } else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X' || *f == 'p') {
      int sg = *f == 'd' || *f == 'i';
      unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10;
      uint64_t v;
      if (*f == 'p') { (void)va_arg(ap, void*); put(&o, 'P'); continue; }
      if (lng) v = va_arg(ap, uint64_t);
      else if (sg) v = (uint64_t)(int64_t)va_arg(ap, int);
      else v = va_arg(ap, unsigned);
      if (sx_is_symbolic(v)) { put(&o, '#'); continue; }
      char t[32];
      int k = 0, neg = 0;
      if (sg && (int64_t)v < 0) { neg = 1; v = 0 - v; }
      do { t[k++] = "0123456789abcdef"[v % base]; v /= base; } while (v);
      while (k < prec && k < 30) t[k++] = '0';
      if (zero) while (k + neg < width && k < 30) t[k++] = '0';
      if (neg) t[k++] = '-';
      for (int i = k; i < width; i++) put(&o, ' ');
      while (k) put(&o, t[--k]);
    } else if (*f == 'f' || *f == 'g' || *f == 'e') {
      double d = va_arg(ap, double);
      uint64_t bits;
      __builtin_memcpy(&bits, &d, 8);
      if (sx_is_symbolic(bits)) {
        if (*f != 'f' || !put_fixed(&o, bits, prec)) put(&o, '#');
        continue;
      }
      char t[400];
      sx_fmt_double_(t, sizeof t, prec, bits, *f);
      for (int i = 0; t[i]; i++) put(&o, t[i]);
    }
  }
  if (n) buf[o.k < n - 1 ? o.k : n - 1] = 0;
  return (int)o.k;
}
int snprintf(char* b, size_t n, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(b, n, f, ap);
  va_end(ap);
  return r;
}
int sprintf(char* b, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(b, 1 << 20, f, ap);
  va_end(ap);
  return r;
}
int printf(const char* f, ...) { (void)f; return 0; }
int fprintf(void* o, const char* f, ...) { (void)o; (void)f; return 0; }

long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
