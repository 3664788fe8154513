#pragma once
#include "symx.h"
#include "emu.h"
struct iosig { const char *desc; int nargs; const unsigned *off; // offset of every argument in the buffers
  unsigned insz, retsz; int retmem; // return value through a hidden pointer
  void (*norm)(int k, unsigned char *d, const unsigned char *s); // copies the value bytes of argument k (-1: return value), not the padding
  int (*pre)(const unsigned char *in, const unsigned char *ret); int (*ret_in_rax); };
extern const struct iosig io_sigs[]; extern const int io_nsigs; extern const char *const io_src[]; extern const char *const io_peer; extern const int io_ms;
