// Executing machine code: an x86-64 interpreter (in the engine) or the CPU (native replay).
#pragma once
#include "symx.h"
struct cpu { uint64_t r[16]; uint64_t xl[16], xh[16]; uint64_t rip; int fk, fw; uint64_t fa, fb, fr; int fcf; uint64_t steps; };
enum { RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI, R8, R9, R10, R11, R12, R13, R14, R15 };
// One call of machine code. Registers and stack arguments are filled in by the caller.
struct call {
  uint64_t fn;
  uint64_t r[16];            // in/out, index as above (rsp ignored)
  uint64_t xl[16], xh[16];   // in/out
  uint64_t stk[64]; int nstk; // stack arguments in 8-byte slots, lowest address first
  int shadow;                // 1: Microsoft x64 32-byte shadow space below the stack arguments
  int symstack;              // 1: the stack holds an arbitrary 8-byte pattern (symbolic), once per run
  // results
  int crash;                 // nonzero: fault
  int bad_preserve;          // bit mask of callee-saved integer registers that changed (bit RSP: stack pointer)
  int bad_xmm;               // callee-saved xmm (Microsoft) that changed
  int bad_df;
};
void hx_call(struct call *c);
const char *hx_fault(void);

// Object files
struct sym { char *name; uint64_t addr; int def; };
struct image { uint64_t base, next, end; struct sym syms[3000]; int nsyms; };
void ld_init(struct image *im);
int ld_elf(struct image *im, const unsigned char *d, size_t n, int tag);  // load one relocatable object; 0 on success
uint64_t ld_exec(struct image *im, const unsigned char *d, size_t n); // a static executable: entry point, 0 on failure
const char *ld_wellformed(const unsigned char *d, size_t n);
int ld_binding(const unsigned char *d, size_t n, const char *name);
int ld_coff(struct image *im, const unsigned char *d, size_t n, int tag);
int ld_link(struct image *im); // resolve; 0 on success
uint64_t ld_sym(struct image *im, const char *name);
const char *ld_error(void);
