// Native replay: the same harness, with recorded values, against the real compiler binary and the real CPU.
#define _GNU_SOURCE
#include "emu.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
struct val { char name[64]; int n; uint64_t *v; };
static struct val vals[512]; static int nvals; static int failed, nchecks;
static void loadvals(const char *p) { FILE *f = fopen(p, "r"); if (!f) return; char nm[64]; int n; while (nvals < 512 && fscanf(f, "%63s %d", nm, &n) == 2) { struct val *v = &vals[nvals++]; strcpy(v->name, nm); v->n = n; v->v = calloc(n + 1, 8); for (int i = 0; i < n; i++) if (fscanf(f, "%lu", &v->v[i]) != 1) break; } fclose(f); }
void symx_make_symbolic(void *p, size_t n, const char *name) { for (int i = 0; i < nvals; i++) if (!strcmp(vals[i].name, name)) { if (name[0] == '@') memcpy(p, &vals[i].v[0], n < 8 ? n : 8); else for (size_t k = 0; k < n; k++) ((uint8_t *)p)[k] = (int)k < vals[i].n ? vals[i].v[k] : 0; return; } memset(p, 0, n); }
void symx_assume(int c) { if (!c) { printf("ASSUMPTION-FALSE\n"); fflush(stdout); _exit(failed ? 1 : 77); } }
void symx_check(int c, const char *m) { nchecks++; if (!c) { failed = 1; printf("FAILED %s\n", m); fflush(stdout); } }
int symx_is_symbolic(uint64_t v) { (void)v; return 0; }
int symx_arg(void) { return atoi(getenv("HX_ARG")); } int symx_arg2(void) { return atoi(getenv("HX_ARG2")); } uint64_t symx_seed(void) { return strtoull(getenv("HX_SEED"), 0, 10); }
char *symx_sarg(void) { return getenv("HX_SARG"); }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_note(const char *s) { printf("note: %s\n", s); } void symx_note_int(const char *s, int64_t v) { printf("note: %s=%ld\n", s, v); }
int symx_try(int (*fn)(void *), void *arg) { return fn(arg); }
void symx_exit(int c) { exit(c); } void symx_reset_globals(void) {}
void *symx_host_read(const char *path, size_t *size) { FILE *f = fopen(path, "rb"); if (!f) return 0; fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); char *p = malloc(n + 1); *size = fread(p, 1, n, f); p[n] = 0; fclose(f); return p; }
static char *lowregion;
void *symx_map_fixed(uint64_t a, uint64_t n) { if (!lowregion) { lowregion = mmap((void *)0x20000000, 0x1000000, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); if (lowregion == MAP_FAILED) { perror("mmap"); _exit(3); } } if (a < 0x20000000 || a >= 0x21000000) { uint64_t lo = a & ~0xfffull; if (mmap((void *)lo, a + n - lo, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | 0x100000 /* MAP_FIXED_NOREPLACE */, -1, 0) != (void *)lo) return 0; } return (void *)a; }
void symx_fail(const char *m) { printf("FAIL %s\n", m); fflush(stdout); _exit(3); } void symx_abort(const char *m) { printf("ABORT %s\n", m); fflush(stdout); _exit(1); }
void symx_reach(const char *s) { (void)s; } char *symx_last_error(void) { return ""; } int symx_may(int c) { return c != 0; }
size_t symx_obj_size(const void *p) { (void)p; return 0; } void symx_trace(const char *s, uint64_t v) { (void)s; (void)v; } int symx_has_uninit(const void *p, size_t n) { (void)p; (void)n; return 0; } void symx_kill(void) { _exit(failed ? 1 : 77); } void symx_order(int d) { (void)d; } void symx_budget(uint64_t n) { (void)n; }
// ---- files and the compiler
void hx_file(const char *path, const void *d, size_t n) { char b[300]; for (size_t k = 0; path[k] && k < 299; k++) { b[k] = path[k]; if (path[k] == '/' && k) { b[k] = 0; mkdir(b, 0777); b[k] = '/'; } } FILE *f = fopen(path, "wb"); fwrite(d, 1, n, f); fclose(f); }
void hx_text(const char *path, const char *t) { hx_file(path, t, strlen(t)); }
void hx_rmfiles(void) {}
unsigned char *hx_output(const char *p, size_t *n) { size_t k = 0; unsigned char *r = symx_host_read(p, &k); if (n) *n = k; return r; }
static char *out; static size_t outn; char *hx_stdout(size_t *n) { if (n) *n = outn; return out; }
int hx_rawnum, hx_nraw; uint64_t hx_raw[1]; unsigned char *hx_as(const char *t, size_t n, size_t *len) { hx_file("gnu.s", t, n); int r = system("as gnu.s -o gnu.o 2> gnu.err"); if (r) { *len = 1; return (unsigned char *)""; } return hx_output("gnu.o", len); }
uint64_t hx_budget; static char crashmsg[64]; const char *hx_crash(void) { return crashmsg; }
// variant 0: zeroed memory; others: heap and stack filled with a pattern (values of the model first)
static int variant; void hx_variant(int k) { variant = k; }
static const struct val *uval(void) { for (int i = 0; i < nvals; i++) if (!strcmp(vals[i].name, "uninit")) return &vals[i]; return 0; }
static const int pats[] = {0xaa, 0x01, 0xff, 0x61}; int hx_variants(void) { const struct val *u = uval(); return 4 + (u ? u->n : 0); }
int cc_run(const char *const *argv) {
  const char *av[64]; int n = 0; av[n++] = getenv(variant && getenv("HX_CC2") ? "HX_CC2" : "HX_CC"); if (variant) { char b[16]; int p = variant <= 4 ? pats[variant - 1] : (int)uval()->v[variant - 5]; sprintf(b, "%d", (p ^ 0xff) & 0xff ? (p ^ 0xff) & 0xff : 1); setenv("MALLOC_PERTURB_", b, 1); } else unsetenv("MALLOC_PERTURB_");
   for (; argv[n - 1] && n < 62; n++) av[n] = argv[n - 1]; av[n] = 0;
  fflush(stdout); pid_t p = fork();
  if (!p) { alarm(20); int fd = open("hx.stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); int nu = open("hx.stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(nu, 2); execv(av[0], (char *const *)av); _exit(126); }
  int st; waitpid(p, &st, 0); out = symx_host_read("hx.stdout", &outn); if (!out) out = "";
  if (WIFSIGNALED(st)) { sprintf(crashmsg, "signal %d", WTERMSIG(st)); return CC_CRASH; }
  if (WEXITSTATUS(st) == 99) { strcpy(crashmsg, "AddressSanitizer report"); return CC_CRASH; }
  crashmsg[0] = 0; return WEXITSTATUS(st); }
int cc_runl(const char *x, ...) { const char *av[32]; int n = 0; va_list ap; va_start(ap, x); for (; x && n < 31; x = va_arg(ap, const char *)) av[n++] = x; va_end(ap); av[n] = 0; return cc_run(av); }
uint64_t host_symbol(const char *n) { if (!strcmp(n, "memcpy")) return (uint64_t)memcpy; if (!strcmp(n, "memset")) return (uint64_t)memset; if (!strcmp(n, "memmove")) return (uint64_t)memmove; if (!strcmp(n, "strlen")) return (uint64_t)strlen; if (!strcmp(n, "abort")) return (uint64_t)abort; return 0; }
// ---- calling machine code
uint64_t nt_r[16], nt_xl[32], nt_rspsave, nt_fn, nt_sp, nt_rspafter, nt_flags;
__asm__(".text\n.globl nt_tramp\nnt_tramp:\n"
"push %rbx\npush %rbp\npush %r12\npush %r13\npush %r14\npush %r15\nmov %rsp, nt_rspsave(%rip)\n"
"movups nt_xl+0(%rip),%xmm0\nmovups nt_xl+16(%rip),%xmm1\nmovups nt_xl+32(%rip),%xmm2\nmovups nt_xl+48(%rip),%xmm3\nmovups nt_xl+64(%rip),%xmm4\nmovups nt_xl+80(%rip),%xmm5\nmovups nt_xl+96(%rip),%xmm6\nmovups nt_xl+112(%rip),%xmm7\nmovups nt_xl+128(%rip),%xmm8\nmovups nt_xl+144(%rip),%xmm9\nmovups nt_xl+160(%rip),%xmm10\nmovups nt_xl+176(%rip),%xmm11\nmovups nt_xl+192(%rip),%xmm12\nmovups nt_xl+208(%rip),%xmm13\nmovups nt_xl+224(%rip),%xmm14\nmovups nt_xl+240(%rip),%xmm15\n"
"mov nt_sp(%rip),%rsp\nmov nt_r+0(%rip),%rax\nmov nt_r+8(%rip),%rcx\nmov nt_r+16(%rip),%rdx\nmov nt_r+24(%rip),%rbx\nmov nt_r+40(%rip),%rbp\nmov nt_r+48(%rip),%rsi\nmov nt_r+56(%rip),%rdi\nmov nt_r+64(%rip),%r8\nmov nt_r+72(%rip),%r9\nmov nt_r+80(%rip),%r10\nmov nt_r+88(%rip),%r11\nmov nt_r+96(%rip),%r12\nmov nt_r+104(%rip),%r13\nmov nt_r+112(%rip),%r14\nmov nt_r+120(%rip),%r15\n"
"call *nt_fn(%rip)\n"
"mov %rsp,nt_rspafter(%rip)\nmov nt_rspsave(%rip),%rsp\nmov %rax,nt_r+0(%rip)\npushfq\npop %rax\nmov %rax,nt_flags(%rip)\ncld\nmov %rcx,nt_r+8(%rip)\nmov %rdx,nt_r+16(%rip)\nmov %rbx,nt_r+24(%rip)\nmov %rbp,nt_r+40(%rip)\nmov %rsi,nt_r+48(%rip)\nmov %rdi,nt_r+56(%rip)\nmov %r8,nt_r+64(%rip)\nmov %r9,nt_r+72(%rip)\nmov %r10,nt_r+80(%rip)\nmov %r11,nt_r+88(%rip)\nmov %r12,nt_r+96(%rip)\nmov %r13,nt_r+104(%rip)\nmov %r14,nt_r+112(%rip)\nmov %r15,nt_r+120(%rip)\n"
"movups %xmm0,nt_xl+0(%rip)\nmovups %xmm1,nt_xl+16(%rip)\nmovups %xmm2,nt_xl+32(%rip)\nmovups %xmm3,nt_xl+48(%rip)\nmovups %xmm4,nt_xl+64(%rip)\nmovups %xmm5,nt_xl+80(%rip)\nmovups %xmm6,nt_xl+96(%rip)\nmovups %xmm7,nt_xl+112(%rip)\nmovups %xmm8,nt_xl+128(%rip)\nmovups %xmm9,nt_xl+144(%rip)\nmovups %xmm10,nt_xl+160(%rip)\nmovups %xmm11,nt_xl+176(%rip)\nmovups %xmm12,nt_xl+192(%rip)\nmovups %xmm13,nt_xl+208(%rip)\nmovups %xmm14,nt_xl+224(%rip)\nmovups %xmm15,nt_xl+240(%rip)\n"
"pop %r15\npop %r14\npop %r13\npop %r12\npop %rbp\npop %rbx\nret\n");
void nt_tramp(void);
static sigjmp_buf jb; static volatile int incall; static char faultmsg[64]; const char *hx_fault(void) { return faultmsg; }
static void onsig(int s) { if (incall) { __asm__ volatile("cld"); siglongjmp(jb, s); } printf("FAILED harness signal %d\n", s); fflush(stdout); _exit(1); }
void hx_call(struct call *q) {
  static char *stk; if (!stk) { stk = mmap(0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0); }
  memset(stk, 0xa5, 1 << 20); if (q->symstack) { uint8_t pat[8]; symx_make_symbolic(pat, 8, "stack"); for (int k = 0; k < 1 << 20; k += 8) memcpy(stk + k, pat, 8); } uint64_t top = (uint64_t)stk + (1 << 20) - 4096; uint64_t sp = top - 8 * ((q->nstk + 1) & ~1); for (int k = 0; k < q->nstk; k++) ((uint64_t *)sp)[k] = q->stk[k]; if (q->shadow) sp -= 32;
  static const uint8_t cs[] = {RBX, RBP, R12, R13, R14, R15};
  for (int k = 0; k < 16; k++) { nt_r[k] = q->r[k]; nt_xl[2 * k] = q->xl[k]; nt_xl[2 * k + 1] = q->xh[k]; }
  for (int k = 0; k < 6; k++) nt_r[cs[k]] = 0x5a5a000011110000ull + cs[k];
  if (q->shadow) { nt_r[RSI] = 0x5a5a000011110000ull + RSI; nt_r[RDI] = 0x5a5a000011110000ull + RDI; for (int k = 6; k < 16; k++) { nt_xl[2 * k] = 0x7777000000000000ull + k; nt_xl[2 * k + 1] = 0x7777000000000000ull + k; } }
  nt_fn = q->fn; nt_sp = sp; int sg; q->crash = 0; faultmsg[0] = 0; incall = 1;
  if (!(sg = sigsetjmp(jb, 1))) { alarm(10); nt_tramp(); alarm(0); incall = 0; } else { incall = 0; alarm(0); q->crash = CC_CRASH; sprintf(faultmsg, "signal %d", sg); return; }
  q->bad_preserve = 0; q->bad_xmm = 0; for (int k = 0; k < 6; k++) q->bad_preserve |= (nt_r[cs[k]] != 0x5a5a000011110000ull + cs[k]) << cs[k];
  if (q->shadow) { q->bad_preserve |= (nt_r[RSI] != 0x5a5a000011110000ull + RSI) << RSI; q->bad_preserve |= (nt_r[RDI] != 0x5a5a000011110000ull + RDI) << RDI; for (int k = 6; k < 16; k++) q->bad_xmm |= ((nt_xl[2 * k] != 0x7777000000000000ull + k) | (nt_xl[2 * k + 1] != 0x7777000000000000ull + k)) << k; }
  q->bad_preserve |= (nt_rspafter != sp) << RSP;
  for (int k = 0; k < 16; k++) { q->r[k] = nt_r[k]; q->xl[k] = nt_xl[2 * k]; q->xh[k] = nt_xl[2 * k + 1]; } }
int hx_main(void);
int main(int argc, char **argv) { loadvals(argv[1]); struct sigaction sa = {0}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGTRAP, &sa, 0); sigaction(SIGALRM, &sa, 0); sigaction(SIGABRT, &sa, 0); (void)argc; hx_main(); printf("checks %d\n", nchecks); fflush(stdout); _exit(failed ? 1 : 0); }
