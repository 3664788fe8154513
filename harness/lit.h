// Source templates with symbolic characters: the compiler under test reads a text in which every hole (byte 1) is a
// (byte 2 NAME byte 2 starts another file)
// symbolic byte restricted to a set of ranges; a reference function says what must come out.
#pragma once
#include "symx.h"
#include "emu.h"
struct lexp { int accept;           // 1 must be accepted, 0 must be diagnosed, 2 either, 3 outside the property
  int n; struct { const char *sym; int size; uint8_t *b; } s[24];
  int textlen; char *text;            // expected output text (-E, -S), when textlen >= 0
  int (*cmp)(struct lexp *, const char *, size_t); // or a comparison of the output text
  char *alt; int altlen; const char *altargs; int altstdout;
  int altE;                           // the text preprocessed by -E must give the same object
  const char *out;                    // name of the object (t.o)
  int nf; struct { const char *name; const char *text; int len; } f[8]; }; // expected contents of other files (len < 0: the file must not exist)  // an equivalent text (NULL: the output of the first run when altstdout) that must give the same outcome and object; altargs: arguments for it
struct lcase { const char *name; const char *src; const char *args; const char *const *sets; int nholes; void (*ref)(const uint8_t *h, struct lexp *e); };
void *malloc(unsigned long); unsigned long strlen(const char *);
extern const struct lcase l_cases[]; extern const int l_ncases;
static inline void ex_int(struct lexp *e, const char *sym, int size, uint64_t v) { int k = e->n++; e->s[k].sym = sym; e->s[k].size = size; e->s[k].b = malloc(size + 1); for (int i = 0; i < size; i++) e->s[k].b[i] = v >> 8 * i; }
static inline void ex_bytes(struct lexp *e, const char *sym, int size, const void *p) { int k = e->n++; e->s[k].sym = sym; e->s[k].size = size; e->s[k].b = malloc(size + 1); for (int i = 0; i < size; i++) e->s[k].b[i] = ((const uint8_t *)p)[i]; }
static inline void ex_file(struct lexp *e, const char *name, const char *text) { int k = e->nf++; e->f[k].name = name; e->f[k].text = text; e->f[k].len = text ? (int)strlen(text) : -1; }
