// Miniature C library with an in-memory file system; the compiler's bitcode is
// linked against it instead of glibc. Only what a compiler can observe is modelled.
#include "symx.h"
#include <stdarg.h>
typedef struct VF VF;
struct VF { int used; char *name; unsigned char *d; size_t len, cap; };
struct FILE_ { VF *f; size_t pos; int wr; int err, eof; int std; };
typedef struct FILE_ FILE;
#define MAXF 64
static VF files[MAXF];
static FILE std_[3];
FILE *stdin = &std_[0], *stdout = &std_[1], *stderr = &std_[2];
static VF outf;
static int errno_;
int *__errno_location(void) { return &errno_; }
void *malloc(size_t); void *realloc(void *, size_t); void free(void *); void *calloc(size_t, size_t);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); void *memmove(void *, const void *, size_t);
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *p = a, *q = b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (; ; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
char *strerror(int e) { (void)e; return "error"; }
int isdigit(int c) { return c >= '0' && c <= '9'; } int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); } int isalnum(int c) { return isalpha(c) || isdigit(c); } int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } int isprint(int c) { return c >= 32 && c < 127; } int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; } int ispunct(int c) { return isgraph(c) && !isalnum(c); } int isblank(int c) { return c == ' ' || c == '\t'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; } int toupper(int c) { return islower(c) ? c - 32 : c; }
static unsigned short ctab[384]; static const unsigned short *ctabp; static int ctab_init;
static int clo[384], cup[384]; static const int *clop, *cupp;
static void ctinit(void) { if (ctab_init) return; ctab_init = 1; for (int i = -128; i < 256; i++) { int c = i < 0 ? i + 256 : i; unsigned short m = 0; if (c < 128) { if (isupper(c)) m |= 1 << 8; if (islower(c)) m |= 1 << 9; if (isalpha(c)) m |= 1 << 10; if (isdigit(c)) m |= 1 << 11; if (isxdigit(c)) m |= 1 << 12; if (isspace(c)) m |= 1 << 13; if (isprint(c)) m |= 1 << 14; if (isgraph(c)) m |= 1 << 15; if (isblank(c)) m |= 1; if (iscntrl(c)) m |= 2; if (ispunct(c)) m |= 4; if (isalnum(c)) m |= 8; } ctab[i + 128] = m; clo[i + 128] = tolower(i); cup[i + 128] = toupper(i); } ctabp = ctab + 128; clop = clo + 128; cupp = cup + 128; }
const unsigned short **__ctype_b_loc(void) { ctinit(); return &ctabp; }
const int **__ctype_tolower_loc(void) { ctinit(); return &clop; } const int **__ctype_toupper_loc(void) { ctinit(); return &cupp; }
unsigned long long strtoull(const char *s, char **end, int base) { const char *p = s; while (isspace(*p)) p++; int neg = 0; if (*p == '-' || *p == '+') neg = *p++ == '-'; if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10; unsigned long long v = 0; int any = 0, ov = 0; for (;; p++) { int d; if (isdigit(*p)) d = *p - '0'; else if (isalpha(*p)) d = tolower(*p) - 'a' + 10; else break; if (d >= base) break; any = 1; if (v > (0xffffffffffffffffull - d) / base) ov = 1; v = v * base + d; } if (end) *end = (char *)(any ? p : s); if (ov) { errno_ = 34; return ~0ull; } return neg ? -v : v; }
unsigned long strtoul(const char *s, char **e, int b) { return strtoull(s, e, b); }
long strtol(const char *s, char **e, int b) { return (long)strtoull(s, e, b); } long long strtoll(const char *s, char **e, int b) { return (long long)strtoull(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); } long atol(const char *s) { return strtol(s, 0, 10); }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
char *getenv(const char *n) { (void)n; return 0; }
void qsort(void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { char *p = b; char *t = malloc(s + 1); for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * s, p + j * s) > 0; j--) { memcpy(t, p + j * s, s); memcpy(p + j * s, p + (j - 1) * s, s); memcpy(p + (j - 1) * s, t, s); } free(t); }
void *bsearch(const void *k, const void *b, size_t n, size_t s, int (*cmp)(const void *, const void *)) { for (size_t i = 0; i < n; i++) { void *e = (char *)b + i * s; if (!cmp(k, e)) return e; } return 0; }
typedef long time_t; struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long off; const char *z; };
time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
struct tm *localtime(const time_t *t) { static struct tm m; (void)t; m.tm_sec = 20; m.tm_min = 13; m.tm_hour = 22; m.tm_mday = 14; m.tm_mon = 10; m.tm_year = 123; return &m; }
struct tm *gmtime(const time_t *t) { return localtime(t); }
void exit(int c) { symx_exit(c); } void _exit(int c) { symx_exit(c); } void abort(void) { symx_abort("abort()"); }
int atexit(void (*f)(void)) { (void)f; return 0; }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { (void)l; (void)f; (void)fn; symx_note(e); symx_abort("assertion failed"); }
// ---------------------------------------------------------------- files
static VF *findf(const char *n) { for (int i = 0; i < MAXF; i++) if (files[i].used && !strcmp(files[i].name, n)) return &files[i]; return 0; }
static VF *newf(const char *n) { for (int i = 0; i < MAXF; i++) if (!files[i].used) { files[i].used = 1; files[i].name = strdup(n); files[i].d = 0; files[i].len = files[i].cap = 0; return &files[i]; } symx_fail("too many files"); return 0; }
static void vput(VF *f, size_t pos, const void *p, size_t n) { if (pos + n > f->cap) { size_t c = f->cap ? f->cap * 2 : 256; while (c < pos + n) c *= 2; unsigned char *nd = calloc(c, 1); if (f->len) memcpy(nd, f->d, f->len); f->d = nd; f->cap = c; } if (n) memcpy(f->d + pos, p, n); if (pos + n > f->len) f->len = pos + n; }
void hx_file(const char *path, const void *data, size_t len) { VF *f = findf(path); if (!f) f = newf(path); f->len = 0; vput(f, 0, data, len); f->len = len; }
void hx_text(const char *path, const char *t) { hx_file(path, t, strlen(t)); }
void hx_rmfiles(void) { for (int i = 0; i < MAXF; i++) files[i].used = 0; }
unsigned char *hx_output(const char *path, size_t *len) { VF *f = findf(path); if (!f) { if (len) *len = 0; return 0; } if (len) *len = f->len; vput(f, f->len, "", 1); f->len--; return f->d; }
char *hx_stdout(size_t *len) { if (len) *len = outf.len; vput(&outf, outf.len, "", 1); outf.len--; return (char *)outf.d; }
FILE *fopen(const char *n, const char *m) {
  int wr = m[0] == 'w' || m[0] == 'a'; VF *f = findf(n);
  if (!f && !wr && (!strncmp(n, "include/", 8) || n[0] == '/')) { // host headers, read-only
    char buf[512]; size_t k = 0; if (n[0] != '/') { char *r = symx_sarg(); while (*r && *r != ';') buf[k++] = *r++; buf[k++] = '/'; } for (size_t i = 0; n[i] && k < 500; i++) buf[k++] = n[i]; buf[k] = 0;
    if (n[0] == '/' && strncmp(n, "/usr/include/", 13)) { errno_ = 2; return 0; }
    size_t len = 0; void *p = symx_host_read(buf, &len); if (p) { f = newf(n); f->d = p; f->len = len; f->cap = len; } }
  if (!f && wr) { f = newf(n); }
  if (!f) { errno_ = 2; return 0; }
  if (m[0] == 'w') f->len = 0;
  FILE *r = calloc(1, sizeof *r); r->f = f; r->wr = wr; r->pos = m[0] == 'a' ? f->len : 0; return r; }
int fclose(FILE *f) { if (!f->std && f != stdout && f != stderr) free(f); return 0; }
int fflush(FILE *f) { (void)f; return 0; } int ferror(FILE *f) { return f->err; } int feof(FILE *f) { return f->eof; }
size_t fread(void *p, size_t s, size_t n, FILE *f) { if (!f->f) return 0; size_t want = s * n, av = f->f->len > f->pos ? f->f->len - f->pos : 0; if (want > av) { want = av; f->eof = 1; } if (want) memcpy(p, f->f->d + f->pos, want); f->pos += want; return s ? want / s : 0; }
static void fput(FILE *f, const void *p, size_t n) { if (f == stdout || f == stderr) { vput(&outf, outf.len, p, n); return; } vput(f->f, f->pos, p, n); f->pos += n; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { fput(f, p, s * n); return n; }
int fgetc(FILE *f) { unsigned char c; return fread(&c, 1, 1, f) == 1 ? c : -1; } int getc(FILE *f) { return fgetc(f); }
int fseek(FILE *f, long o, int w) { f->pos = w == 0 ? (size_t)o : w == 1 ? f->pos + o : f->f->len + o; f->eof = 0; return 0; }
long ftell(FILE *f) { return f->pos; } void rewind(FILE *f) { f->pos = 0; f->eof = 0; }
int remove(const char *n) { VF *f = findf(n); if (f) f->used = 0; return f ? 0 : -1; }
int fputc(int c, FILE *f) { char ch = c; fput(f, &ch, 1); return (unsigned char)c; } int putc(int c, FILE *f) { return fputc(c, f); } int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { fput(f, s, strlen(s)); return 0; } int puts(const char *s) { fputs(s, stdout); fputc('\n', stdout); return 0; }
void perror(const char *s) { fputs(s, stderr); }
// ---------------------------------------------------------------- printf
int hx_rawnum, hx_nraw; uint64_t hx_raw[4096]; // symbolic decimal numbers are written as byte 2 and a 6-digit index into hx_raw (byte 3: in another format)
struct sink { FILE *f; char *b; size_t cap, n; };
static void emit(struct sink *k, const char *p, size_t n) { if (k->f) fput(k->f, p, n); else for (size_t i = 0; i < n; i++) if (k->n + i + 1 < k->cap) k->b[k->n + i] = p[i]; k->n += n; }
static void pad(struct sink *k, char c, int n) { while (n-- > 0) emit(k, &c, 1); }
static void fmt(struct sink *k, const char *s, va_list ap) {
  for (; *s; s++) {
    if (*s != '%') { const char *e = s; while (*e && *e != '%') e++; emit(k, s, e - s); s = e - 1; continue; }
    s++; int left = 0, zero = 0, plus = 0, alt = 0, sp = 0; for (;; s++) { if (*s == '-') left = 1; else if (*s == '0') zero = 1; else if (*s == '+') plus = 1; else if (*s == '#') alt = 1; else if (*s == ' ') sp = 1; else break; }
    int w = 0, pr = -1; if (*s == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } s++; } else while (isdigit(*s)) w = w * 10 + *s++ - '0';
    if (*s == '.') { s++; pr = 0; if (*s == '*') { pr = va_arg(ap, int); s++; } else while (isdigit(*s)) pr = pr * 10 + *s++ - '0'; }
    int l = 0; for (;; s++) { if (*s == 'l') l++; else if (*s == 'z' || *s == 'j' || *s == 't') l = 2; else if (*s == 'h') l--; else break; }
    char tmp[72]; const char *o = tmp; int n = 0; char pre[4]; int np = 0;
    switch (*s) {
    case '%': emit(k, "%", 1); continue;
    case 'c': { char c = va_arg(ap, int); if (!left) pad(k, ' ', w - 1); emit(k, &c, 1); if (left) pad(k, ' ', w - 1); continue; }
    case 's': { const char *p = va_arg(ap, const char *); if (!p) p = "(null)"; size_t m = pr >= 0 ? strnlen(p, pr) : strlen(p); if (!left) pad(k, ' ', w - (int)m); emit(k, p, m); if (left) pad(k, ' ', w - (int)m); continue; }
    case 'f': case 'g': case 'e': case 'G': case 'E': { double d = va_arg(ap, double); (void)d; emit(k, "<float>", 7); continue; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
      uint64_t v = va_arg(ap, uint64_t); int neg = 0; char cv = *s;
      if (cv == 'p') { cv = 'x'; l = 2; alt = 1; }
      if (cv == 'd' || cv == 'i') { int64_t q = l >= 1 ? (int64_t)v : l == 0 ? (int64_t)(int32_t)v : l == -1 ? (int64_t)(int16_t)v : (int64_t)(int8_t)v; v = q; if (symx_is_symbolic(v)) { if (k->f == stdout || k->f == stderr) { emit(k, "<sym>", 5); continue; } if (hx_rawnum) { char rw[7]; rw[0] = !w && pr < 0 && cv != 'x' && cv != 'X' && cv != 'o' ? 2 : 3; if (hx_nraw == 4096) symx_fail("symbolic numbers"); for (int b = 0, id = hx_nraw; b < 6; b++, id /= 10) rw[6 - b] = '0' + id % 10; hx_raw[hx_nraw++] = v; emit(k, rw, 7); continue; } v = symx_concretize(v); q = v; } if (q < 0) { neg = 1; v = -(uint64_t)q; } }
      else { v = l >= 1 ? v : l == 0 ? (uint32_t)v : l == -1 ? (uint16_t)v : (uint8_t)v; if (symx_is_symbolic(v)) { if (k->f == stdout || k->f == stderr) { emit(k, "<sym>", 5); continue; } if (hx_rawnum) { char rw[7]; rw[0] = !w && pr < 0 && cv != 'x' && cv != 'X' && cv != 'o' ? 2 : 3; if (hx_nraw == 4096) symx_fail("symbolic numbers"); for (int b = 0, id = hx_nraw; b < 6; b++, id /= 10) rw[6 - b] = '0' + id % 10; hx_raw[hx_nraw++] = v; emit(k, rw, 7); continue; } v = symx_concretize(v); } }
      int base = cv == 'o' ? 8 : (cv == 'x' || cv == 'X') ? 16 : 10; const char *dg = cv == 'X' ? "0123456789ABCDEF" : "0123456789abcdef"; int i = 72; uint64_t t = v;
      while (t) { tmp[--i] = dg[t % base]; t /= base; } if (!v && pr != 0) tmp[--i] = '0';
      o = tmp + i; n = 72 - i; if (neg) pre[np++] = '-'; else if (plus && base == 10 && cv != 'u') pre[np++] = '+'; else if (sp && cv == 'd') pre[np++] = ' '; if (alt && base == 16 && v) { pre[np++] = '0'; pre[np++] = cv == 'X' ? 'X' : 'x'; }
      int z = pr > n ? pr - n : 0; if (pr < 0 && zero && !left && w > n + np) z = w - n - np;
      if (!left) pad(k, ' ', w - n - np - z); emit(k, pre, np); pad(k, '0', z); emit(k, o, n); if (left) pad(k, ' ', w - n - np - z); continue; }
    default: symx_fail("printf conversion");
    }
  }
  if (!k->f && k->cap) k->b[k->n < k->cap ? k->n : k->cap - 1] = 0;
}
int vfprintf(FILE *f, const char *s, va_list ap) { struct sink k = {f, 0, 0, 0}; fmt(&k, s, ap); return k.n; }
int vprintf(const char *s, va_list ap) { return vfprintf(stdout, s, ap); }
int vsnprintf(char *b, size_t n, const char *s, va_list ap) { struct sink k = {0, b, n, 0}; fmt(&k, s, ap); return k.n; }
int vsprintf(char *b, const char *s, va_list ap) { return vsnprintf(b, (size_t)1 << 40, s, ap); }
#define VA(r, call) va_list ap; va_start(ap, r); int q = call; va_end(ap); return q
int fprintf(FILE *f, const char *s, ...) { VA(s, vfprintf(f, s, ap)); }
int printf(const char *s, ...) { VA(s, vfprintf(stdout, s, ap)); }
int sprintf(char *b, const char *s, ...) { VA(s, vsprintf(b, s, ap)); }
int snprintf(char *b, size_t n, const char *s, ...) { VA(s, vsnprintf(b, n, s, ap)); }
// ---------------------------------------------------------------- running the compiler
int cc_main(int argc, char **argv);
struct ra { int argc; char **argv; };
static int cc_tramp(void *p) { struct ra *a = p; return cc_main(a->argc, a->argv) & 0xff; }
static char *crash_msg = "";
const char *hx_crash(void) { return crash_msg; }
void hx_variant(int k) { if (k) symx_order(1); } int hx_variants(void) { return 1; } // --uninit: fresh symbols in every allocation
unsigned char *hx_as(const char *t, size_t n, size_t *len) { (void)t; (void)n; *len = 0; return 0; }
uint64_t hx_budget = 1500000000ull; // instructions until a run counts as hanging
int cc_run(const char *const *argv) {
  static char *av[64]; int n = 0; av[n++] = "cc"; for (; argv[n - 1] && n < 62; n++) av[n] = strdup(argv[n - 1]); av[n] = 0;
  struct ra a = {n, av}; symx_reset_globals(); outf.len = 0; errno_ = 0; outf.used = 1;
  symx_budget(hx_budget); int r = symx_try(cc_tramp, &a); symx_budget(0);
  crash_msg = r >= CC_CRASH ? symx_last_error() : "";
  return r;
}
int cc_runl(const char *x, ...) { const char *av[32]; int n = 0; va_list ap; va_start(ap, x); for (; x && n < 31; x = va_arg(ap, const char *)) av[n++] = x; va_end(ap); av[n] = 0; return cc_run(av); }

// strtod: concrete text goes to the host; text with symbolic digits is converted as an exactly representable integer
// scaled by a power of ten (or two) in one operation, which is the correctly rounded value for up to 15 digits.
double symx_strtod(const char *s, char **end);
static int sd_hex(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static double sd_conc(const char *s, char **end) { size_t n = strlen(s); char *t = malloc(n + 1), *e2; for (size_t i = 0; i < n; i++) t[i] = (char)symx_concretize((uint8_t)s[i]); t[n] = 0; double r = symx_strtod(t, &e2); if (end) *end = (char *)s + (e2 - t); return r; } // not modelled: one path per text
double strtod(const char *s, char **end) {
  int sym = 0; for (const char *q = s; symx_is_symbolic((uint8_t)*q) || *q; q++) if (symx_is_symbolic((uint8_t)*q)) sym = 1;
  if (!sym) return symx_strtod(s, end);
  static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  int hex = 0, n = 0, frac = 0, dot = 0; uint64_t m = 0; const char *p = s;
  if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { hex = 1; p += 2; }
  for (;; p++) { if (*p == '.' && !dot) { dot = 1; continue; } int is = hex ? sd_hex(*p) >= 0 : (*p >= '0' && *p <= '9'); if (!is) break; int d = sd_hex(*p); m = m * (hex ? 16 : 10) + d; n++; frac += dot; }
  if (n > (hex ? 13 : 15)) return sd_conc(s, end);
  long e = 0; int neg = 0; const char *q = p;
  if (n && (hex ? (*q == 'p' || *q == 'P') : (*q == 'e' || *q == 'E'))) { q++; if (*q == '+') q++; else if (*q == '-') { neg = 1; q++; } int any = 0; while (*q >= '0' && *q <= '9') { e = e * 10 + (int)(symx_concretize((uint8_t)*q) - '0'); q++; any = 1; if (e > 400) return sd_conc(s, end); } if (any) p = q; else e = 0; }
  if (neg) e = -e;
  if (end) *end = (char *)(n ? p : s);
  double r = (double)m;
  if (hex) { e -= 4 * frac; if (e > 900 || e < -900) return sd_conc(s, end); double t = 1; long k = e < 0 ? -e : e; while (k--) t *= 2; return e < 0 ? r / t : r * t; }
  e -= frac; if (e > 22 || e < -22) return sd_conc(s, end);
  return e < 0 ? r / p10[-e] : e > 0 ? r * p10[e] : r; }
