// C library pieces, branch-free where possible so that symbolic characters do not fork.
typedef unsigned long size_t;
#define nullptr ((void *)0)
int isspace(int c) { return (c == 32) | ((unsigned)(c - 9) < 5u); }
int isprint(int c) { return (unsigned)(c - 32) < 95u; }
int isdigit(int c) { return (unsigned)(c - 48) < 10u; }
int isalpha(int c) { return (unsigned)((c | 32) - 97) < 26u; }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isupper(int c) { return (unsigned)(c - 65) < 26u; }
int islower(int c) { return (unsigned)(c - 97) < 26u; }
int ispunct(int c) { return ((unsigned)(c - 33) < 94u) & !isalnum(c); }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int isgraph(int c) { return (unsigned)(c - 33) < 94u; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void *)(q + i); return nullptr; }
char *strchr(const char *p, int c) { for (;; p++) { if (*p == (char)c) return (char *)p; if (!*p) return nullptr; } }
char *strrchr(const char *p, int c) { const char *r = nullptr; for (;; p++) { if (*p == (char)c) r = p; if (!*p) return (char *)r; } }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }

static int the_errno; int *__errno_location(void) { return &the_errno; }
size_t strnlen(const char *p, size_t n) { size_t i = 0; while (i < n && p[i]) i++; return i; }
char *strncpy(char *d, const char *p, size_t n) { size_t i = 0; for (; i < n && p[i]; i++) d[i] = p[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcpy(char *d, const char *p) { size_t i = 0; for (; p[i]; i++) d[i] = p[i]; d[i] = 0; return d; }
char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return nullptr; } }
static unsigned long num(const char *p, char **e, int base, int sgn) {
  const char *s = p; int neg = 0; unsigned long v = 0; size_t k = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if (base == 16 && p[0] == '0' && (p[1] | 32) == 'x') p += 2;
  if (!base) base = 10;
  for (;; p++, k++) { int c = (unsigned char)*p, d = isdigit(c) ? c - '0' : isalpha(c) ? (c | 32) - 'a' + 10 : 99; if (d >= base) break; v = v * (unsigned long)base + (unsigned long)d; }
  if (e) *e = (char *)(k ? p : s);
  return neg ? 0 - v : v;
}
long strtol(const char *p, char **e, int b) { return (long)num(p, e, b, 1); }
long long strtoll(const char *p, char **e, int b) { return (long long)num(p, e, b, 1); }
unsigned long strtoul(const char *p, char **e, int b) { return num(p, e, b, 0); }
unsigned long long strtoull(const char *p, char **e, int b) { return num(p, e, b, 0); }
long __isoc23_strtol(const char *p, char **e, int b) { return (long)num(p, e, b, 1); }
long long __isoc23_strtoll(const char *p, char **e, int b) { return (long long)num(p, e, b, 1); }
unsigned long __isoc23_strtoul(const char *p, char **e, int b) { return num(p, e, b, 0); }
unsigned long long __isoc23_strtoull(const char *p, char **e, int b) { return num(p, e, b, 0); }
typedef struct { int quot, rem; } div_t; typedef struct { long quot, rem; } ldiv_t;
div_t div(int a, int b) { div_t r = {a / b, a % b}; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r = {a / b, a % b}; return r; }
ldiv_t lldiv(long a, long b) { ldiv_t r = {a / b, a % b}; return r; }
double modf(double x, double *i) { double t = __builtin_trunc(x); *i = t; return x - t; }
double ldexp(double x, int n) { for (; n > 0; n--) x *= 2; for (; n < 0; n++) x /= 2; return x; }
void qsort(void *p, size_t n, size_t w, int (*c)(const void *, const void *)) {
  char *q = p; for (size_t i = 1; i < n; i++) for (size_t j = i; j && c(q + (j - 1) * w, q + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = q[j * w + k]; q[j * w + k] = q[(j - 1) * w + k]; q[(j - 1) * w + k] = t; }
}
