// Intrinsics of the symbolic engine (and their native-replay equivalents).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void symx_make_symbolic(void *p, size_t n, const char *name);
void symx_assume(int c);
void symx_check(int c, const char *msg);
int symx_is_symbolic(uint64_t v);
int symx_arg(void);
int symx_arg2(void);
uint64_t symx_seed(void);
char *symx_sarg(void);
uint64_t symx_concretize(uint64_t v);
void symx_note(const char *s);
void symx_note_int(const char *s, int64_t v);
int symx_try(int (*fn)(void *), void *arg);
void symx_exit(int code) __attribute__((noreturn));
void symx_reset_globals(void);
void *symx_host_read(const char *path, size_t *size);
void *symx_map_fixed(uint64_t addr, uint64_t size);
void symx_fail(const char *msg);
void symx_abort(const char *msg) __attribute__((noreturn));
void symx_reach(const char *s);
char *symx_last_error(void);
int symx_may(int c);
size_t symx_obj_size(const void *p);
void symx_trace(const char *s, uint64_t v);
int symx_has_uninit(const void *p, size_t n);
void symx_kill(void) __attribute__((noreturn));
void symx_order(int down); // following allocations lie at descending addresses
void symx_budget(uint64_t ninstr);

// ---- harness API (rt.c in the engine, native.c in replay)
void hx_file(const char *path, const void *data, size_t len); // define an input file
void hx_text(const char *path, const char *text);
void hx_rmfiles(void);
unsigned char *hx_output(const char *path, size_t *len); // a file after the run; NULL if absent
char *hx_stdout(size_t *len);
extern uint64_t hx_budget; extern int hx_rawnum, hx_nraw; extern uint64_t hx_raw[];
unsigned char *hx_as(const char *text, size_t n, size_t *len); // the object that the GNU assembler makes of a text (native replay only); *len == 1: it is rejected
void hx_variant(int k); int hx_variants(void); // what uninitialised memory holds in the following run: variants 0 .. hx_variants()
int cc_run(const char *const *argv); // NULL terminated; returns exit status, or >= 0x10000 for a crash
int cc_runl(const char *a, ...);     // arguments after "cc", NULL terminated
const char *hx_crash(void);          // description of the last crash

#define CC_CRASH 0x10000
#define REACH(s) symx_reach(s)
#ifdef __cplusplus
}
#endif
