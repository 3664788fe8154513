// Translation-validation table shared by the generated reference file and the generic harness.
#pragma once
#include "symx.h"
#include "emu.h"
// argument kinds: one letter each
//  b _Bool, c/C s8/u8, s/S s16/u16, i/I s32/u32, l/L 64-bit, f float, d double, p pointer to a buffer
struct tvret { uint64_t i; uint64_t x; };
struct tvfn {
  const char *name;                 // symbol in the compiled object
  const char *desc;                 // source text shown in messages
  void (*ref)(uint64_t *a, struct tvret *r);  // the same source compiled by the reference compiler
  int (*pre)(uint64_t *a);          // precondition (defined behaviour), may be NULL
  const char *args;                 // kinds
  char ret;                         // kind, or 'v'
  int bufsz;                        // bytes behind every 'p' argument
  unsigned conc;                    // bit k: argument k takes every value on a path of its own
  const char *slots;                // comma separated names of 8-byte slots of the first buffer, or NULL
};
extern const struct tvfn tv_fns[]; extern const int tv_nfns; extern const char *const tv_pre[], *const tv_tail[], *const *const tv_src[];  // source text: prelude, epilogue and one entry per function
