/* Models of the C library functions the library calls, executed symbolically like
   any other code.  C locale. */
#include <stddef.h>
#include <limits.h>
int verif_errno;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  for (;; a++, b++) {
    unsigned char x = *a, y = *b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) {
    unsigned char x = *a, y = *b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *p = a, *q = b;
  for (; n; p++, q++, n--) if (*p != *q) return *p < *q ? -1 : 1;
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) {
  const unsigned char *p = a, *q = b;
  for (; n; p++, q++, n--) if (*p != *q) return 1;
  return 0;
}
void *memchr(const void *a, int c, size_t n) {
  const unsigned char *p = a;
  for (; n; p++, n--) if (*p == (unsigned char)c) return (void *)p;
  return 0;
}
char *strchr(const char *s, int c) {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
static int dig(int c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
  return 99;
}
static int sp(int c) { return (c == ' ') | ((unsigned)(c - 9) <= 4); }
/* returns 1 on overflow */
static int parse(const char *s, char **end, int base, int *neg, unsigned long long *out) {
  const char *p = s;
  unsigned long long v = 0;
  int over = 0, any = 0;
  *neg = 0;
  while (sp(*p)) p++;
  if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig((unsigned char)p[2]) < 16) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) {
    int d;
    if (base == 10) { d = (unsigned char)*p - '0'; if ((unsigned)d > 9) break; }
    else { d = dig((unsigned char)*p); if (d >= base) break; }
    any = 1;
    if (!over) {
      if (v > (ULLONG_MAX - (unsigned)d) / (unsigned)base) over = 1;
      else v = v * (unsigned)base + (unsigned)d;
    }
  }
  if (end) *end = (char *)(any ? p : s);
  *out = v;
  return over;
}
unsigned long long strtoull(const char *s, char **end, int base) {
  int neg; unsigned long long v;
  if (parse(s, end, base, &neg, &v)) { verif_errno = 34; return ULLONG_MAX; }
  return neg ? 0 - v : v;
}
long long strtoll(const char *s, char **end, int base) {
  int neg; unsigned long long v;
  int o = parse(s, end, base, &neg, &v);
  if (neg) { if (o || v > 0x8000000000000000ull) { verif_errno = 34; return LLONG_MIN; } return (long long)(0 - v); }
  if (o || v > 0x7fffffffffffffffull) { verif_errno = 34; return LLONG_MAX; }
  return (long long)v;
}
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtoll(s, 0, 10); }
long labs(long x) { return x < 0 ? -x : x; }
long long llabs(long long x) { return x < 0 ? -x : x; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strncat(char *d, const char *s, size_t n) {
  char *p = d + strlen(d);
  while (n-- && *s) *p++ = *s++;
  *p = 0;
  return d;
}
char *strstr(const char *s, const char *t) {
  size_t n = strlen(t);
  for (;; s++) {
    if (!strncmp(s, t, n)) return (char *)s;
    if (!*s) return 0;
  }
}
void *memrchr(const void *a, int c, size_t n) {
  const unsigned char *p = a;
  while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n);
  return 0;
}
void *rawmemchr(const void *a, int c) { const unsigned char *p = a; while (*p != (unsigned char)c) p++; return (void *)p; }
void *mempcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; while (n--) *p++ = *q++; return p; }
int strcasecmp(const char *a, const char *b) {
  for (;; a++, b++) {
    int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
    if (x != y) return x - y;
    if (!x) return 0;
  }
}
int strncasecmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) {
    int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0;
}
static unsigned long long bits_of(double d) { union { double d; unsigned long long u; } x; x.d = d; return x.u; }
static double of_bits(unsigned long long u) { union { double d; unsigned long long u; } x; x.u = u; return x.d; }
double frexp(double d, int *e) {
  unsigned long long u = bits_of(d), f = u & 0xfffffffffffffull;
  int x = (u >> 52) & 2047;
  if (x == 2047 || (x == 0 && f == 0)) { *e = 0; return d; }
  if (x == 0) {
    x = 1;
    while (!(f >> 52)) { f <<= 1; x--; }
    f &= 0xfffffffffffffull;
  }
  *e = x - 1022;
  return of_bits((u & 0x8000000000000000ull) | 1022ull << 52 | f);
}
int ilogb(double d) {
  unsigned long long u = bits_of(d);
  int e;
  if (((u >> 52) & 2047) == 2047) return (u & 0xfffffffffffffull) ? (int)0x80000000 : 0x7fffffff;
  if (!(u << 1)) return (int)0x80000000;
  frexp(d, &e);
  return e - 1;
}
double fmin(double a, double b) { return a != a ? b : b != b ? a : a < b ? a : b; }
double fmax(double a, double b) { return a != a ? b : b != b ? a : a > b ? a : b; }
int __signbit(double d) { return (int)(bits_of(d) >> 63); }
int __isnan(double d) { return d != d; }
int __isinf(double d) { unsigned long long u = bits_of(d); return (u << 1) == 0xffe0000000000000ull ? (u >> 63 ? -1 : 1) : 0; }
int __finite(double d) { return ((bits_of(d) >> 52) & 2047) != 2047; }
/* The integer, character and string subset of printf; the executor passes the variable
   arguments as an array of 64-bit words.  Returns -1000000 on anything else. */
int verif_format(char *buf, size_t cap, const char *f, const unsigned long long *a) {
  size_t n = 0;
#define PUT(ch) do { if (n + 1 < cap) buf[n] = (char)(ch); n++; } while (0)
  for (; *f; f++) {
    int zero = 0, left = 0, plus = 0, width = 0, prec = -1, lng = 0, len = 0, neg = 0, base = 10, i;
    char tmp[24];
    unsigned long long v;
    if (*f != '%') { PUT(*f); continue; }
    f++;
    for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') plus = 1; else break; }
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { prec = 0; f++; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng++; else if (*f == 'h') lng--; else break; }
    if (*f == '%') { PUT('%'); continue; }
    if (*f == 'c') { for (i = 1; i < width && !left; i++) PUT(' '); PUT((unsigned char)*a++); for (i = 1; i < width && left; i++) PUT(' '); continue; }
    if (*f == 's') {
      const char *s = (const char *)*a++;
      int l = 0;
      while ((prec < 0 || l < prec) && s[l]) l++;
      for (i = l; i < width && !left; i++) PUT(' ');
      for (i = 0; i < l; i++) PUT(s[i]);
      for (i = l; i < width && left; i++) PUT(' ');
      continue;
    }
    v = *a++;
    if (*f == 'd' || *f == 'i') {
      long long s = lng > 0 ? (long long)v : lng == 0 ? (int)v : lng == -1 ? (short)v : (signed char)v;
      neg = s < 0;
      v = neg ? 0 - (unsigned long long)s : (unsigned long long)s;
    } else if (*f == 'u' || *f == 'x' || *f == 'X' || *f == 'o') {
      v = lng > 0 ? v : lng == 0 ? (unsigned)v : lng == -1 ? (unsigned short)v : (unsigned char)v;
      base = *f == 'u' ? 10 : *f == 'o' ? 8 : 16;
      plus = 0;
    } else return -1000000;
    while (v || (len == 0 && prec != 0)) {
      int d = base == 10 ? v % 10 : base == 16 ? v & 15 : v & 7;
      tmp[len++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10;
      v = base == 10 ? v / 10 : base == 16 ? v >> 4 : v >> 3;
    }
    {
      int sign = neg || plus, total = sign + (len > prec ? len : prec);
      if (!left && !(zero && prec < 0)) for (i = total; i < width; i++) PUT(' ');
      if (sign) PUT(neg ? '-' : '+');
      if (!left && zero && prec < 0) for (i = total; i < width; i++) PUT('0');
      for (i = len; i < prec; i++) PUT('0');
      for (i = len; i > 0; i--) PUT(tmp[i - 1]);
      if (left) for (i = total; i < width; i++) PUT(' ');
    }
  }
  if (cap) buf[n < cap ? n : cap - 1] = 0;
  return (int)n;
}

/* Threads: one conversion runs at a time here; locks and once-flags do what they do then. */
int pthread_mutex_lock(void *m) { return 0; }
int pthread_mutex_trylock(void *m) { return 0; }
int pthread_mutex_unlock(void *m) { return 0; }
int pthread_rwlock_rdlock(void *m) { return 0; }
int pthread_rwlock_wrlock(void *m) { return 0; }
int pthread_rwlock_unlock(void *m) { return 0; }
int pthread_once(int *c, void (*f)(void)) { if (!*c) { *c = 2; f(); } return 0; }
size_t wcslen(const int *s) { size_t n = 0; while (s[n]) n++; return n; }
typedef struct { int quot, rem; } div_r;
typedef struct { long quot, rem; } ldiv_r;
div_r div(int a, int b) { div_r r = {a / b, a % b}; return r; }
ldiv_r ldiv(long a, long b) { ldiv_r r = {a / b, a % b}; return r; }
ldiv_r lldiv(long a, long b) { ldiv_r r = {a / b, a % b}; return r; }
/* The out-of-line parts of the standard containers (an unbalanced tree is still a search tree). */
typedef struct rb { int color; struct rb *parent, *left, *right; } rb;
void rb_insert(_Bool left, rb *x, rb *p, rb *h) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void rb_insert(_Bool left, rb *x, rb *p, rb *h) {
  x->parent = p;
  x->left = x->right = 0;
  x->color = 1;
  if (left) {
    p->left = x;
    if (p == h) { h->parent = x; h->right = x; }
    else if (p == h->left) h->left = x;
  } else {
    p->right = x;
    if (p == h->right) h->right = x;
  }
}
static rb *rb_next(rb *x) {
  if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
  rb *y = x->parent;
  while (x == y->right) { x = y; y = y->parent; }
  return x->right != y ? y : x;
}
static rb *rb_prev(rb *x) {
  if (x->color == 0 && x->parent->parent == x) return x->right;
  if (x->left) { x = x->left; while (x->right) x = x->right; return x; }
  rb *y = x->parent;
  while (x == y->left) { x = y; y = y->parent; }
  return y;
}
rb *rb_inc(rb *x) __asm__("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
rb *rb_inc(rb *x) { return rb_next(x); }
rb *rb_incc(rb *x) __asm__("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
rb *rb_incc(rb *x) { return rb_next(x); }
rb *rb_dec(rb *x) __asm__("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
rb *rb_dec(rb *x) { return rb_prev(x); }
rb *rb_decc(rb *x) __asm__("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
rb *rb_decc(rb *x) { return rb_prev(x); }
typedef struct ln { struct ln *next, *prev; } ln;
void list_hook(ln *x, ln *p) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void list_hook(ln *x, ln *p) { x->next = p; x->prev = p->prev; p->prev->next = x; p->prev = x; }
void list_unhook(ln *x) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void list_unhook(ln *x) { x->prev->next = x->next; x->next->prev = x->prev; }
typedef struct { float load; size_t next; } hp;
size_t hp_next(hp *h, size_t n) __asm__("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
size_t hp_next(hp *h, size_t n) {
  static const size_t P[] = {2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229};
  size_t i = 0;
  while (i < 17 && P[i] < n) i++;
  h->next = P[i];
  return P[i];
}
typedef struct { _Bool first; size_t second; } hp_r;
hp_r hp_need(hp *h, size_t bkt, size_t elt, size_t ins) __asm__("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
hp_r hp_need(hp *h, size_t bkt, size_t elt, size_t ins) {
  hp_r r = {0, 0};
  if (elt + ins > h->next) {
    size_t m = elt + ins;
    if (!h->next && m < 11) m = 11;
    if (m >= bkt) { r.first = 1; r.second = hp_next(h, m + 1 > bkt * 2 ? m + 1 : bkt * 2); return r; }
    h->next = bkt;
  }
  return r;
}
