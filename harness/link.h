// Programs of several files, linked by the compiler under test or by a standard linker, compared with a reference.
#pragma once
#include "symx.h"
#include "emu.h"
struct kname { int file; const char *name; int binding; int align; }; // 0 absent or local, 1 undefined, 2 defined globally, 4 undefined or absent
struct kcase { const char *name; int nfiles; const char *src[4]; const char *const *sets; int nholes; const char *mode; const char *flags;
  int (*pre)(const uint8_t *h); const struct kname *names; int nnames; uint64_t (*ref)(const uint8_t *h, uint64_t a, uint64_t b); };
// mode: one letter per file, then the linker: c file given as source, o as object compiled before; X built-in linker, S standard (static) linker, M the same with all files compiled by one command
extern const struct kcase k_cases[]; extern const int k_ncases;
