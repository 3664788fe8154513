// Reference macro preprocessor: Prosser's algorithm (the one the standard's wording was taken from) over hide sets, for texts of
// #define, #undef and plain lines without comments. mp_run fills the token list out[]; its result: 0 fine, 1 must be
// diagnosed, 3 undefined or unspecified behaviour.
#pragma once
#include "lit.h"
enum { MK_ID = 1, MK_NUM, MK_STR, MK_CHR, MK_P, MK_PM };
struct mt { struct mt *next; uint8_t kind, len, ws, nl; uint32_t hs; char s[44]; };
struct mm { char name[8]; uint8_t nlen, live, func, va, np; char par[6][12]; uint8_t plen[6]; struct mt *body; };
static struct mt mp_pool[1500]; static int mp_n, mp_mode, mp_err, mp_nm; static struct mm mp_m[16];
static struct mt *mp_new(void) { if (mp_n == 1500) { mp_err = 3; mp_n = 0; } struct mt *t = &mp_pool[mp_n++]; t->next = 0; t->hs = 0; t->ws = t->nl = 0; t->len = t->kind = 0; return t; }
static struct mt *mp_dup(const struct mt *a) { struct mt *t = mp_new(); *t = *a; t->next = 0; return t; }
static int mp_idc(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static int mp_dig(int c) { return c >= '0' && c <= '9'; }
static int mp_is(const struct mt *t, const char *s) { int n = strlen(s); if (!t || t->len != n) return 0; for (int k = 0; k < n; k++) if (t->s[k] != s[k]) return 0; return 1; }
static const char *const mp_punct[] = {"...", "<<=", ">>=", "##", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "#", "(", ")", ",", "+", "-", "*", "/", "%", "<", ">", "=", "!", "&", "|", "^", "~", "?", ":", ";", "[", "]", "{", "}", ".", 0};
// one token at p (no white space in front); its length, 0 at a newline or the end
static int mp_lex(const char *p, int n, int *kind) {
  if (!n || p[0] == '\n') return 0; int c = p[0], k;
  int q = 0; if (c == '"' || c == '\'') q = 1; else if (c == 'L' || c == 'U' || c == 'u') { if (n > 1 && (p[1] == '"' || p[1] == '\'')) q = 2; else if (c == 'u' && n > 2 && p[1] == '8' && p[2] == '"') q = 3; }
  if (q) { char e = p[q - 1]; for (k = q; k < n && p[k] != e && p[k] != '\n'; k++) if (p[k] == '\\') k++; *kind = e == '"' ? MK_STR : MK_CHR; if (k >= n || p[k] != e) return 0; return k + 1; }
  if (mp_idc(c)) { for (k = 1; k < n && (mp_idc(p[k]) || mp_dig(p[k])); k++); *kind = MK_ID; return k; }
  if (mp_dig(c) || (c == '.' && n > 1 && mp_dig(p[1]))) { for (k = 1; k < n; k++) { if ((p[k] == '+' || p[k] == '-') && (p[k - 1] == 'e' || p[k - 1] == 'E' || p[k - 1] == 'p' || p[k - 1] == 'P')) continue; if (!(mp_idc(p[k]) || mp_dig(p[k]) || p[k] == '.')) break; } *kind = MK_NUM; return k; }
  *kind = MK_P; for (int i = 0; mp_punct[i]; i++) { int l = strlen(mp_punct[i]), ok = l <= n; for (k = 0; ok && k < l; k++) ok = p[k] == mp_punct[i][k]; if (ok) return l; }
  return 0; }
static int mp_find(const struct mt *t) { if (t->kind != MK_ID) return -1; for (int i = 0; i < mp_nm; i++) if (mp_m[i].live && mp_m[i].nlen == t->len) { int ok = 1; for (int k = 0; k < t->len; k++) ok = ok && mp_m[i].name[k] == t->s[k]; if (ok) return i; } return -1; }
static int mp_par(const struct mm *m, const struct mt *t) { if (!m->func || t->kind != MK_ID) return -1; for (int i = 0; i < m->np; i++) if (m->plen[i] == t->len) { int ok = 1; for (int k = 0; k < t->len; k++) ok = ok && m->par[i][k] == t->s[k]; if (ok) return i; } return -1; }
static struct mt *mp_line(const char *p, int n, int *used) { struct mt *first = 0, **tail = &first; int i = 0, ws = 0; while (i < n && p[i] != '\n') { if (p[i] == ' ' || p[i] == '\t') { ws = 1; i++; continue; } if (p[i] == '\\' && i + 1 < n && p[i + 1] == '\n') { i += 2; continue; } struct mt *t = mp_new(); int kind = 0, l = mp_lex(p + i, n - i, &kind); if (!l || l > 40) { mp_err = 3; l = 1; } t->kind = kind; t->len = l; for (int k = 0; k < l && k < 40; k++) t->s[k] = p[i + k]; t->ws = ws; ws = 0; *tail = t; tail = &t->next; i += l; } *used = i < n ? i + 1 : i; return first; }
static struct mt *mp_expand(struct mt *in, int depth);
static int mp_valid(const char *s, int n) { int kind = 0; return n && mp_lex(s, n, &kind) == n; }
static struct mt *mp_paste(struct mt *a, struct mt *b) { if (a->kind == MK_PM) { struct mt *r = mp_dup(b); r->ws = a->ws; return r; } if (b->kind == MK_PM) return mp_dup(a);
  struct mt *r = mp_dup(a); if (a->len + b->len > 40) { mp_err = 3; return r; } for (int k = 0; k < b->len; k++) r->s[a->len + k] = b->s[k]; r->len = a->len + b->len; int kind = 0; if (mp_lex(r->s, r->len, &kind) != r->len) mp_err = 3; r->kind = kind; r->hs = a->hs & b->hs; return r; }
static struct mt *mp_stringize(struct mt *a) { struct mt *r = mp_new(); r->kind = MK_STR; int n = 0, first = 1; char *s = r->s; s[n++] = '"'; for (; a; a = a->next) { if (n > 36) { mp_err = 3; break; } if (!first && (a->ws || a->nl)) s[n++] = ' '; first = 0; for (int k = 0; k < a->len; k++) { if (n > 38) { mp_err = 3; break; } if ((a->kind == MK_STR || a->kind == MK_CHR) && (a->s[k] == '"' || a->s[k] == '\\')) s[n++] = '\\'; s[n++] = a->s[k]; } } s[n++] = '"'; r->len = n; return r; }
static struct mt *mp_subst(struct mm *m, struct mt **ap, uint32_t hs, struct mt *name, struct mt *rest, int depth) {
  struct mt *first = 0, *last = 0, *prev_operand = 0; int chain = 0;
#define MP_ADD(T) do { struct mt *t_ = (T); if (last) last->next = t_; else first = t_; last = t_; } while (0)
  for (struct mt *b = m->body; b; b = b->next) {
    if (m->func && mp_is(b, "#") && b->kind == MK_P) { int p = b->next ? mp_par(m, b->next) : -1; if (p < 0) { mp_err = mp_err ? mp_err : 1; return 0; } struct mt *s = mp_stringize(ap[p]); s->ws = b->ws; MP_ADD(s); b = b->next; chain = 0; continue; }
    if (mp_is(b, "##") && b->kind == MK_P && last && b->next) {
      struct mt *nx = b->next; int p = mp_par(m, nx); if (mp_is(nx, "#") && m->func) { mp_err = 3; return 0; }
      struct mt *r; if (p >= 0) { if (ap[p]) r = ap[p]; else { r = mp_new(); r->kind = MK_PM; } } else r = nx;
      struct mt *g = mp_paste(last, r); char ws = last->ws; if (chain && r->kind != MK_PM && prev_operand && prev_operand->kind != MK_PM) { char t[88]; int n = 0; for (int k = 0; k < prev_operand->len; k++) t[n++] = prev_operand->s[k]; for (int k = 0; k < r->len; k++) t[n++] = r->s[k]; if (!mp_valid(t, n)) mp_err = 3; } // another order of pasting is allowed
      *last = *g; last->next = 0; last->ws = ws; prev_operand = r; chain = 1; if (p >= 0 && ap[p]) for (struct mt *a = ap[p]->next; a; a = a->next) { MP_ADD(mp_dup(a)); prev_operand = a; chain = 0; }
      b = nx; if (mp_err == 3) return 0; continue; }
    int p = mp_par(m, b);
    if (p >= 0 && b->next && mp_is(b->next, "##") && b->next->kind == MK_P) { int f = 1; if (!ap[p]) { struct mt *t = mp_new(); t->kind = MK_PM; t->ws = b->ws; MP_ADD(t); } for (struct mt *a = ap[p]; a; a = a->next) { struct mt *t = mp_dup(a); if (f) t->ws = b->ws; f = 0; MP_ADD(t); } prev_operand = last ? mp_dup(last) : 0; chain = 1; continue; }
    if (p >= 0) { struct mt *c = 0, **ct = &c; for (struct mt *a = ap[p]; a; a = a->next) { *ct = mp_dup(a); ct = &(*ct)->next; } c = mp_expand(c, depth + 1); if (mp_err) return 0; int f = 1; while (c) { struct mt *nx = c->next; c->next = 0; if (f) c->ws = b->ws; f = 0; MP_ADD(c); c = nx; } chain = 0; continue; }
    MP_ADD(mp_dup(b)); prev_operand = mp_dup(b); chain = 1; }
  struct mt *r = 0, **rt = &r; int f = 1; for (struct mt *t = first; t; t = t->next) { if (t->kind == MK_PM) continue; t->hs |= hs; if (f) { t->ws = name->ws; t->nl = name->nl; } f = 0; *rt = t; rt = &t->next; }
  *rt = rest; return r; }
static struct mt *mp_expand(struct mt *in, int depth) {
  struct mt *out = 0, **tail = &out; if (depth > 12) { mp_err = 3; return 0; }
  while (in && !mp_err) {
    int i = mp_find(in); if (i < 0 || (in->hs >> i & 1)) { *tail = in; tail = &in->next; in = in->next; *tail = 0; continue; }
    struct mm *m = &mp_m[i]; if (!m->func) { in = mp_subst(m, 0, in->hs | 1u << i, in, in->next, depth); continue; }
    if (!(in->next && mp_is(in->next, "("))) { *tail = in; tail = &in->next; in = in->next; *tail = 0; continue; }
    struct mt *ap[6] = {0}, **at = &ap[0], *p = in->next->next, *rp; int n = 0, lev = 0, any = 0;
    for (;; p = p->next) { if (!p) { mp_err = 1; return 0; } if (mp_is(p, ")") && !lev) break; any = 1; if (mp_is(p, ",") && !lev && !(m->va && n == m->np - 1)) { if (++n >= 6) { mp_err = 1; return 0; } at = &ap[n]; continue; } if (mp_is(p, "(")) lev++; if (mp_is(p, ")")) lev--; struct mt *d = mp_dup(p); *at = d; at = &d->next; }
    rp = p; int got = n + 1; if (!m->np) { if (any) { mp_err = 1; return 0; } } else if (m->va && got == m->np - 1) { mp_err = 3; return 0; } else if (got != m->np) { if (m->va && m->np == 1) ; else { mp_err = 1; return 0; } }
    uint32_t hs = (mp_mode ? in->hs : in->hs & rp->hs) | 1u << i; in = mp_subst(m, ap, hs, in, rp->next, depth); }
  if (depth == 0 || !in) ; return out; }
static struct mt *mp_all(const char *t, int n) {
  mp_n = 0; mp_nm = 0; mp_err = 0; int i = 0; struct mt *text = 0, **tail = &text;
  while (i < n) { int u; struct mt *l = mp_line(t + i, n - i, &u); i += u; if (mp_err) return 0; if (!l) continue;
    if (mp_is(l, "#")) { struct mt *d = l->next;
      if (mp_is(d, "define")) { struct mt *nm = d->next; if (!nm || nm->kind != MK_ID || mp_is(nm, "defined") || mp_is(nm, "__VA_ARGS__")) { mp_err = 1; return 0; } if (nm->len > 8 || mp_nm == 16) { mp_err = 3; return 0; }
        struct mm *m = &mp_m[mp_nm]; memset(m, 0, sizeof *m); m->nlen = nm->len; for (int k = 0; k < nm->len; k++) m->name[k] = nm->s[k]; struct mt *b = nm->next;
        if (b && !b->ws && mp_is(b, "(")) { m->func = 1; b = b->next; if (mp_is(b, ")")) b = b->next; else for (;;) { if (!b) { mp_err = 1; return 0; } if (m->np == 6) { mp_err = 3; return 0; }
            if (mp_is(b, "...")) { m->va = 1; for (int k = 0; k < 11; k++) m->par[m->np][k] = "__VA_ARGS__"[k]; m->plen[m->np++] = 11; b = b->next; if (!mp_is(b, ")")) { mp_err = 1; return 0; } b = b->next; break; }
            if (b->kind != MK_ID || b->len > 12 || mp_is(b, "__VA_ARGS__")) { mp_err = 1; return 0; } if (mp_par(m, b) >= 0) { mp_err = 1; return 0; } for (int k = 0; k < b->len; k++) m->par[m->np][k] = b->s[k]; m->plen[m->np++] = b->len; b = b->next; if (mp_is(b, ")")) { b = b->next; break; } if (!mp_is(b, ",")) { mp_err = 1; return 0; } b = b->next; } }
        else if (b && !b->ws) { mp_err = 3; return 0; }
        for (struct mt *x = b; x; x = x->next) { if (mp_is(x, "__VA_ARGS__") && !m->va) { mp_err = 1; return 0; } if (mp_is(x, "##") && x->kind == MK_P && (x == b || !x->next)) { mp_err = 1; return 0; } if (m->func && mp_is(x, "#") && x->kind == MK_P && (!x->next || mp_par(m, x->next) < 0)) { mp_err = 1; return 0; } }
        m->body = b; if (b) b->ws = 0; int old = mp_find(nm); if (old >= 0) { struct mm *o = &mp_m[old]; int same = o->func == m->func && o->va == m->va && o->np == m->np; for (int k = 0; same && k < m->np; k++) { same = o->plen[k] == m->plen[k]; for (int j = 0; same && j < m->plen[k]; j++) same = o->par[k][j] == m->par[k][j]; } struct mt *x = o->body, *y = b; for (; same && x && y; x = x->next, y = y->next) { same = x->len == y->len && (x == o->body || x->ws == y->ws); for (int j = 0; same && j < x->len; j++) same = x->s[j] == y->s[j]; } if (!same || x || y) { mp_err = 3; return 0; } } // a warning is enough
        else { m->live = 1; mp_nm++; } continue; }
      if (mp_is(d, "undef")) { if (!d->next || d->next->kind != MK_ID) { mp_err = 1; return 0; } int o = mp_find(d->next); if (o >= 0) mp_m[o].live = 0; continue; }
      mp_err = 3; return 0; }
    l->nl = 1; *tail = l; while (*tail) tail = &(*tail)->next;
    int at = i; while (at < n && (t[at] == ' ' || t[at] == '\t')) at++;
    if (at < n && t[at] != '#') continue; // the text up to the next directive is one group
    { struct mt *x = text; text = mp_expand(x, 0); tail = &text; if (mp_err) return 0; static struct mt *acc; (void)acc; // groups end with ';', so that no invocation spans a directive
      for (struct mt *y = text; y; y = y->next) y->hs = ~0u; while (*tail) tail = &(*tail)->next; } }
  return text; }
static int mp_same(struct mt *a, struct mt *b) { for (; a && b; a = a->next, b = b->next) { if (a->len != b->len) return 0; for (int k = 0; k < a->len; k++) if (a->s[k] != b->s[k]) return 0; } return !a && !b; }
static struct mt *mp_out;
// the tokens of the output text, in the order of the expected ones
static int mp_cmp(struct lexp *e, const char *o, size_t n) { (void)e; struct mt *t = mp_out; size_t i = 0; for (;;) { while (i < n && (o[i] == ' ' || o[i] == '\n' || o[i] == '\t')) i++; if (i >= n) return !t; if (!t) return 0; int kind, l = mp_lex(o + i, n - i, &kind); if (l != t->len) return 0; for (int k = 0; k < l; k++) if (o[i + k] != t->s[k]) return 0; i += l; t = t->next; } }
static struct mt mp_save[400];
static int mp_run(struct lexp *e, const char *tmpl, int n, const uint8_t *h) {
  char *t = malloc(n + 1); int q = 0; for (int k = 0; k < n; k++) t[k] = tmpl[k] == 1 ? (char)h[q++] : tmpl[k]; t[n] = 0;
  mp_mode = 0; struct mt *a = mp_all(t, n); int err = mp_err; struct mt *c = 0, **ct = &c; int k = 0; for (struct mt *x = a; x; x = x->next) { if (k == 400) { err = 3; break; } mp_save[k] = *x; mp_save[k].next = 0; *ct = &mp_save[k]; ct = &mp_save[k++].next; }
  mp_mode = 1; struct mt *b = mp_all(t, n); if (err == 3 || mp_err == 3) e->accept = 3; else if (err != mp_err || (!err && !mp_same(c, b))) e->accept = 3; else if (err) e->accept = 0; else { mp_out = c; e->cmp = mp_cmp; }
  return err; }
