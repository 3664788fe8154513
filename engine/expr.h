// Hash-consed bit-vector expressions (width 1..64) with simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <cmath>
#include <bitset>
#include <algorithm>
#include <functional>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint16_t u16; typedef uint8_t u8;

enum Kind : u8 {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_SHL, K_LSHR, K_ASHR, K_AND, K_OR, K_XOR,
  K_EQ, K_ULT, K_SLT, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_SELECT,
  // floating point over IEEE bit patterns
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FLT, K_FLE, K_FEQ, K_FNAN,
  K_FEXT, K_FTRUNC, K_SI2F, K_UI2F, K_F2SI, K_F2UI,
  K_COUNT
};

struct VarSet { std::vector<int> v; };

struct Expr {
  Kind k; u8 w; u32 id; u64 c;
  Expr *a, *b, *d;
  VarSet *vs;
  std::bitset<256> *truth; // memo for single 8-bit variable w=1 exprs
  void *z3 = nullptr, *z3u = nullptr, *z3v = nullptr; // cached ast; with floating operators uninterpreted
};

static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct Table { std::vector<u64> vals; int ew; }; // constant table for SELECT
struct VarInfo { std::string name; int w; int group; int idx; };

struct ExprCtx {
  std::vector<Table> tables;
  std::vector<VarInfo> vars;
  struct Key { Kind k; u8 w; u64 c; Expr *a, *b, *d; bool operator==(const Key &o) const { return k==o.k&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
  struct KH { size_t operator()(const Key &x) const {
    u64 h = x.k * 0x9E3779B97F4A7C15ull ^ x.w * 0xC2B2AE3D27D4EB4Full ^ x.c * 0x165667B19E3779F9ull;
    auto mix = [&](Expr *e) { h ^= (e ? (u64)e->id + 1 : 0); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(x.a); mix(x.b); mix(x.d); return h; } };
  std::unordered_map<Key, Expr *, KH> tab;
  std::map<std::vector<int>, VarSet *> vsets;
  std::map<std::pair<VarSet *, VarSet *>, VarSet *> vunion;
  VarSet *emptyvs;
  u32 nid = 0;
  ExprCtx() { emptyvs = mkvs({}); tab.reserve(1 << 16); }
  VarSet *mkvs(std::vector<int> v) { auto it = vsets.find(v); if (it != vsets.end()) return it->second; VarSet *s = new VarSet{v}; vsets[v] = s; return s; }
  VarSet *uni(VarSet *x, VarSet *y) {
    if (x == y || y == emptyvs) return x; if (x == emptyvs) return y;
    if (x > y) std::swap(x, y);
    auto it = vunion.find({x, y}); if (it != vunion.end()) return it->second;
    std::vector<int> r; std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
    return vunion[{x, y}] = mkvs(r);
  }
  Expr *raw(Kind k, int w, u64 c, Expr *a, Expr *b, Expr *d) {
    Key key{k, (u8)w, c, a, b, d};
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    Expr *e = new Expr{k, (u8)w, nid++, c, a, b, d, nullptr, nullptr, nullptr, nullptr, nullptr};
    VarSet *s = emptyvs; if (k == K_VAR) s = mkvs({(int)c});
    if (a) s = uni(s, a->vs); if (b) s = uni(s, b->vs); if (d) s = uni(s, d->vs);
    e->vs = s; tab[key] = e; return e;
  }
  Expr *cst(u64 v, int w) { return raw(K_CONST, w, v & maskw(w), 0, 0, 0); }
  Expr *var(const std::string &name, int w, int group, int idx) { vars.push_back({name, w, group, idx}); return raw(K_VAR, w, vars.size() - 1, 0, 0, 0); }

  static float f32(u64 v) { u32 x = v; float f; memcpy(&f, &x, 4); return f; }
  static double f64(u64 v) { double f; memcpy(&f, &v, 8); return f; }
  static u64 b32(float f) { u32 x; memcpy(&x, &f, 4); return x; }
  static u64 b64(double f) { u64 x; memcpy(&x, &f, 8); return x; }
  static bool nan_(u64 v, int w) { return w == 32 ? std::isnan(f32(v)) : std::isnan(f64(v)); }
  // evaluate an operator on constants
  static u64 evalop(Kind k, int w, u64 cc, u64 x, int xw, u64 y, int yw, u64 z) {
    u64 m = maskw(w);
    switch (k) {
    case K_ADD: return (x + y) & m; case K_SUB: return (x - y) & m; case K_MUL: return (x * y) & m;
    case K_UDIV: return y ? x / y : m; case K_UREM: return y ? x % y : x;
    case K_SDIV: { i64 a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (u64)(a / b) & m; }
    case K_SREM: { i64 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
    case K_SHL: return y >= (u64)w ? 0 : (x << y) & m; case K_LSHR: return y >= (u64)w ? 0 : x >> y;
    case K_ASHR: return (u64)(sx(x, w) >> (y >= (u64)w ? 63 : y)) & m;
    case K_AND: return x & y; case K_OR: return x | y; case K_XOR: return x ^ y;
    case K_EQ: return x == y; case K_ULT: return x < y; case K_SLT: return sx(x, xw) < sx(y, xw);
    case K_ITE: return x ? y : z;
    case K_CONCAT: return (x << yw) | y; case K_EXTRACT: return (x >> cc) & m;
    case K_ZEXT: return x; case K_SEXT: return (u64)sx(x, xw) & m;
    case K_FADD: return w == 32 ? b32(f32(x) + f32(y)) : b64(f64(x) + f64(y));
    case K_FSUB: return w == 32 ? b32(f32(x) - f32(y)) : b64(f64(x) - f64(y));
    case K_FMUL: return w == 32 ? b32(f32(x) * f32(y)) : b64(f64(x) * f64(y));
    case K_FDIV: return w == 32 ? b32(f32(x) / f32(y)) : b64(f64(x) / f64(y));
    case K_FLT: return xw == 32 ? f32(x) < f32(y) : f64(x) < f64(y);
    case K_FLE: return xw == 32 ? f32(x) <= f32(y) : f64(x) <= f64(y);
    case K_FEQ: return xw == 32 ? f32(x) == f32(y) : f64(x) == f64(y);
    case K_FNAN: return nan_(x, xw);
    case K_FEXT: return b64((double)f32(x)); case K_FTRUNC: return b32((float)f64(x));
    case K_SI2F: return w == 32 ? b32((float)(i64)x) : b64((double)(i64)x);
    case K_UI2F: return w == 32 ? b32((float)x) : b64((double)x);
    case K_F2SI: { double dd = xw == 32 ? (double)f32(x) : f64(x); if (!(dd >= -9223372036854775808.0 && dd < 9223372036854775808.0)) return 0x8000000000000000ull; return (u64)(i64)dd; }
    case K_F2UI: { double dd = xw == 32 ? (double)f32(x) : f64(x); if (!(dd > -1.0 && dd < 18446744073709551616.0)) return 0x8000000000000000ull; return (u64)dd; }
    default: fprintf(stderr, "evalop %d\n", k); abort();
    }
  }
  bool isc(Expr *e) { return e->k == K_CONST; }
  bool isc(Expr *e, u64 v) { return e->k == K_CONST && e->c == v; }
  bool comm(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ || k == K_FEQ || k == K_FADD || k == K_FMUL; }

  Expr *extract(Expr *e, int lo, int w) {
    if (lo == 0 && w == e->w) return e;
    switch (e->k) {
    case K_CONST: return cst(e->c >> lo, w);
    case K_EXTRACT: return extract(e->a, lo + e->c, w);
    case K_CONCAT: { int lw = e->b->w; if (lo >= lw) return extract(e->a, lo - lw, w); if (lo + w <= lw) return extract(e->b, lo, w);
      return concat(extract(e->a, 0, lo + w - lw), extract(e->b, lo, lw - lo)); }
    case K_ZEXT: { int aw = e->a->w; if (lo >= aw) return cst(0, w); if (lo + w <= aw) return extract(e->a, lo, w); if (lo == 0) return zext(e->a, w); return zext(extract(e->a, lo, aw - lo), w); }
    case K_SEXT: { int aw = e->a->w; if (lo + w <= aw) return extract(e->a, lo, w); if (lo == 0) return sext(e->a, w); break; }
    case K_AND: case K_OR: case K_XOR: return bin(e->k, extract(e->a, lo, w), extract(e->b, lo, w));
    case K_ADD: case K_SUB: case K_MUL: if (lo == 0) return bin(e->k, extract(e->a, 0, w), extract(e->b, 0, w));
      if (lo + w < e->w) return extract(bin(e->k, extract(e->a, 0, lo + w), extract(e->b, 0, lo + w)), lo, w); break;
    case K_SHL: if (isc(e->b)) { u64 s = e->b->c; if (s < e->w) { if (lo >= (int)s) return extract(e->a, lo - s, w); if (lo + w <= (int)s) return cst(0, w); } } break;
    case K_LSHR: if (isc(e->b)) { u64 s = e->b->c; if (lo + w + s <= e->w) return extract(e->a, lo + s, w); if (lo + s >= e->w) return cst(0, w); } break;
    case K_ASHR: if (isc(e->b)) { u64 s = e->b->c; if (lo + w + s <= e->w) return extract(e->a, lo + s, w); } break;
    case K_ITE: if (isc(e->b) || isc(e->d)) return ite(e->a, extract(e->b, lo, w), extract(e->d, lo, w)); break;
    case K_SELECT: { // narrow table
      if (lo == 0 || true) { Table t; t.ew = w; for (u64 v : tables[e->c].vals) t.vals.push_back((v >> lo) & maskw(w)); return select(t, e->a); } break; }
    default:;
    }
    return raw(K_EXTRACT, w, lo, e, 0, 0);
  }
  Expr *trunc(Expr *e, int w) { return extract(e, 0, w); }
  Expr *concat(Expr *h, Expr *l) {
    int w = h->w + l->w;
    if (isc(h) && isc(l)) return cst((h->c << l->w) | l->c, w);
    if (isc(h, 0)) return zext(l, w);
    if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->a == l->a && h->c == l->c + l->w) return extract(h->a, l->c, w);
    if (h->k == K_EXTRACT && h->a == l && h->c == l->w) return extract(l, 0, w);
    // concat(zext(x), l) => zext(concat(x,l))
    if (h->k == K_ZEXT) return zext(concat(h->a, l), w);
    // concat(extract(sext(x)) ...) : high part of sext
    if (h->k == K_CONCAT) { Expr *t = h->b; // try merge h->b with l
      if ((t->k == K_EXTRACT && l->k == K_EXTRACT && t->a == l->a && t->c == l->c + l->w) || (isc(t) && isc(l))) return concat(h->a, concat(t, l)); }
    if (l->k == K_CONCAT) { Expr *t = l->a; if ((h->k == K_EXTRACT && t->k == K_EXTRACT && h->a == t->a && h->c == t->c + t->w) || (isc(h) && isc(t))) return concat(concat(h, t), l->b); }
    if (h->k == K_EXTRACT && h->a->k == K_SEXT && h->c == l->w && h->a->a == l && h->c + h->w <= h->a->w) return sext(l, w);
    if (h->k == K_EXTRACT && h->a->k == K_SEXT && l->k == K_SEXT && l->a == h->a->a && h->c == l->w) return sext(l->a, w);
    return raw(K_CONCAT, w, 0, h, l, 0);
  }
  Expr *zext(Expr *e, int w) {
    if (w == e->w) return e; if (w < e->w) return extract(e, 0, w);
    if (isc(e)) return cst(e->c, w);
    if (e->k == K_ZEXT) return zext(e->a, w);
    if (e->k == K_SELECT) { Table t = tables[e->c]; t.ew = w; return select(t, e->a); }
    if (e->k == K_ITE && isc(e->b) && isc(e->d)) return ite(e->a, zext(e->b, w), zext(e->d, w));
    return raw(K_ZEXT, w, 0, e, 0, 0);
  }
  Expr *sext(Expr *e, int w) {
    if (w == e->w) return e; if (w < e->w) return extract(e, 0, w);
    if (isc(e)) return cst((u64)sx(e->c, e->w), w);
    if (e->k == K_SEXT) return sext(e->a, w);
    if (e->k == K_ZEXT) return zext(e->a, w);
    if (e->k == K_CONCAT && isc(e->a) && w - e->b->w <= 64) return concat(cst((u64)sx(e->a->c, e->a->w), w - e->b->w), e->b);
    if (e->k == K_SELECT) { Table t = tables[e->c]; int ow = t.ew; for (auto &v : t.vals) v = (u64)sx(v, ow) & maskw(w); t.ew = w; return select(t, e->a); }
    if (e->k == K_ITE && isc(e->b) && isc(e->d)) return ite(e->a, sext(e->b, w), sext(e->d, w));
    return raw(K_SEXT, w, 0, e, 0, 0);
  }
  std::map<std::pair<int, std::vector<u64>>, int> tabids;
  Expr *select(const Table &t, Expr *idx) {
    if (idx->w < 24 && t.vals.size() > (1ull << idx->w)) { Table n = t; n.vals.resize(1ull << idx->w); return select(n, idx); }
    bool same = true; for (u64 v : t.vals) if (v != t.vals[0]) { same = false; break; }
    if (same) return cst(t.vals[0], t.ew);
    if (isc(idx)) return cst(idx->c < t.vals.size() ? t.vals[idx->c] : 0, t.ew);
    if (idx->k == K_CONCAT && isc(idx->a) && idx->b->w < 16) { Table n; n.ew = t.ew; u64 hi = idx->a->c << idx->b->w; for (u64 i = 0; i < (1ull << idx->b->w); i++) n.vals.push_back(hi + i < t.vals.size() ? t.vals[hi + i] : 0); return select(n, idx->b); }
    auto key = std::make_pair(t.ew, t.vals); auto it = tabids.find(key); int id;
    if (it == tabids.end()) { id = tables.size(); tables.push_back(t); tabids[key] = id; } else id = it->second;
    return raw(K_SELECT, t.ew, id, idx, 0, 0);
  }
  Expr *ite(Expr *c, Expr *t, Expr *f) {
    if (isc(c)) return c->c ? t : f; if (t == f) return t;
    if (t->w == 1) {
      if (isc(t) && isc(f)) return t->c ? c : bnot(c);
      if (isc(t, 1)) return bin(K_OR, c, f); if (isc(t, 0)) return bin(K_AND, bnot(c), f);
      if (isc(f, 0)) return bin(K_AND, c, t); if (isc(f, 1)) return bin(K_OR, bnot(c), t);
    }
    if (c->k == K_XOR && c->w == 1 && isc(c->b, 1)) return ite(c->a, f, t);
    // sign extension spelt as a comparison and a subtraction
    if (f->k == K_ZEXT && t->k == K_ADD && t->a == f && isc(t->b)) { Expr *y = f->a; int n = y->w; if (t->b->c == (maskw(f->w) & ~maskw(n)) && ((c->k == K_ULT && c->b == y && isc(c->a, (1ull << (n - 1)) - 1)) || (c->k == K_EXTRACT && c->a == y && c->w == 1 && c->c == n - 1))) return sext(y, f->w); }
    if (f->k == K_ZEXT && t->k == K_CONCAT && isc(t->a, maskw(t->a->w)) && t->b == f->a) { Expr *y = f->a; int n = y->w; if ((c->k == K_ULT && c->b == y && isc(c->a, (1ull << (n - 1)) - 1)) || (c->k == K_EXTRACT && c->a == y && c->w == 1 && (int)c->c == n - 1)) return sext(y, f->w); }
    return raw(K_ITE, t->w, 0, c, t, f);
  }
  Expr *bnot(Expr *e) { return bin(K_XOR, e, cst(1, 1)); }
  Expr *eq(Expr *a, Expr *b) { return bin(K_EQ, a, b); }
  Expr *bin(Kind k, Expr *a, Expr *b) {
    int w = a->w; bool cmp = (k == K_EQ || k == K_ULT || k == K_SLT || k == K_FLT || k == K_FLE || k == K_FEQ);
    int rw = cmp ? 1 : w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %d %d\n", k, a->w, b->w); abort(); }
    if (isc(a) && isc(b)) return cst(evalop(k, rw, 0, a->c, a->w, b->c, b->w, 0), rw);
    if (comm(k)) { if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b); }
    u64 m = maskw(w);
    switch (k) {
    case K_ADD:
      if (isc(b, 0)) return a;
      if (isc(b) && a->k == K_ADD && isc(a->b)) return bin(K_ADD, a->a, cst(a->b->c + b->c, w));
      if (isc(b) && a->k == K_ITE && isc(a->b) && isc(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
      if (!isc(b) && a->k == K_ADD && isc(a->b)) return bin(K_ADD, bin(K_ADD, a->a, b), a->b);
      if (!isc(b) && b->k == K_ADD && isc(b->b)) return bin(K_ADD, bin(K_ADD, a, b->a), b->b);
      if (b->k == K_SUB && b->b == a) return b->a; if (a->k == K_SUB && a->b == b) return a->a;
      if (isc(b) && a->k == K_SUB && isc(a->a)) return bin(K_SUB, cst(a->a->c + b->c, w), a->b);
      // sums without carries are concatenations; constant high parts move out of a sum
      if (isc(b) && a->k == K_ZEXT && a->a->k == K_CONCAT && isc(a->a->a) && (b->c & maskw(a->a->b->w)) == 0) { int lw = a->a->b->w; return concat(cst((b->c >> lw) + a->a->a->c, w - lw), a->a->b); }
      if (!isc(b)) for (int s = 0; s < 2; s++) { Expr *x = s ? b : a, *y = s ? a : b; Expr *z = x->k == K_ZEXT ? x->a : x; if (z->k == K_CONCAT && isc(z->a)) return bin(K_ADD, bin(K_ADD, y, zext(z->b, w)), cst(z->a->c << z->b->w, w)); }
      if (isc(b) && a->k == K_CONCAT && (b->c & maskw(a->b->w)) == 0) return concat(bin(K_ADD, a->a, cst(b->c >> a->b->w, a->a->w)), a->b);
      if (isc(b) && w <= 32 && a->k == K_ZEXT && (b->c & maskw(a->a->w)) == 0) return concat(cst(b->c >> a->a->w, w - a->a->w), a->a);
      for (int s = 0; s < 2; s++) { Expr *x = s ? b : a, *y = s ? a : b; if (x->k == K_CONCAT && isc(x->b, 0) && y->k == K_ZEXT && y->a->w <= x->b->w) return concat(x->a, zext(y->a, x->b->w)); if (x->k == K_ZEXT && x->a->k == K_CONCAT && isc(x->a->b, 0) && y->k == K_ZEXT && y->a->w <= x->a->b->w) return zext(concat(x->a->a, zext(y->a, x->a->b->w)), w); }
      break;
    case K_SUB:
      if (a == b) return cst(0, w); if (isc(b)) return bin(K_ADD, a, cst(0 - b->c, w));
      if (a->k == K_ADD && a->a == b) return a->b; if (a->k == K_ADD && a->b == b) return a->a;
      if (a->k == K_ADD && isc(a->b)) return bin(K_ADD, bin(K_SUB, a->a, b), a->b);
      if (b->k == K_ADD && isc(b->b)) return isc(a) ? bin(K_SUB, cst(a->c - b->b->c, w), b->a) : bin(K_ADD, bin(K_SUB, a, b->a), cst(0 - b->b->c, w));
      if (b->k == K_SUB && isc(b->a)) return bin(K_ADD, bin(K_ADD, a, b->b), cst(0 - b->a->c, w));
      break;
    case K_MUL: if (isc(b, 0)) return b; if (isc(b, 1)) return a;
      if (isc(b) && (b->c & (b->c - 1)) == 0) return bin(K_SHL, a, cst(__builtin_ctzll(b->c), w));
      if (isc(b) && a->k == K_MUL && isc(a->b)) return bin(K_MUL, a->a, cst(a->b->c * b->c, w)); break;
    case K_UDIV: if (isc(b, 1)) return a; break;
    case K_SDIV: if (isc(b, 1)) return a; break;
    case K_AND: if (isc(b, 0)) return b; if (isc(b, m)) return a; if (a == b) return a;
      if (isc(b) && a->k == K_AND && isc(a->b)) return bin(K_AND, a->a, cst(a->b->c & b->c, w));
      if (isc(b)) { // low mask => zext(extract)
        u64 v = b->c; if ((v & (v + 1)) == 0) { int n = 64 - __builtin_clzll(v); return zext(extract(a, 0, n), w); }
        if (a->k == K_ZEXT && (v >> a->a->w) == 0 ) return zext(bin(K_AND, a->a, cst(v, a->a->w)), w);
        if (a->k == K_ZEXT) return zext(bin(K_AND, a->a, cst(v, a->a->w)), w);
        if (a->k == K_CONCAT) return concat(bin(K_AND, a->a, cst(v >> a->b->w, a->a->w)), bin(K_AND, a->b, cst(v, a->b->w)));
        // contiguous mask in the middle => extract then shift
      }
      if (w == 1 && ((a->k == K_XOR && isc(a->b, 1) && a->a == b) || (b->k == K_XOR && isc(b->b, 1) && b->a == a))) return cst(0, 1);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(bin(k, a->a, b->a), w);
      break;
    case K_OR: if (isc(b, 0)) return a; if (isc(b, m)) return b; if (a == b) return a;
      if (w == 1 && ((a->k == K_XOR && isc(a->b, 1) && a->a == b) || (b->k == K_XOR && isc(b->b, 1) && b->a == a))) return cst(1, 1);
      { // disjoint: x | (y << n) with x zext from <= n bits => concat
        for (int s = 0; s < 2; s++) { Expr *x = s ? b : a, *y = s ? a : b;
          if (x->k == K_ZEXT && y->k == K_SHL && isc(y->b) && y->b->c >= x->a->w && y->b->c < (u64)w) {
            int n = y->b->c; return concat(extract(y->a, 0, w - n), zext(x->a, n)); }
          if (x->k == K_ZEXT && y->k == K_CONCAT && y->b->k == K_CONST && y->b->c == 0 && y->b->w >= x->a->w) return concat(y->a, zext(x->a, y->b->w));
        }
        if (a->k == K_CONCAT && isc(b)) return concat(bin(K_OR, a->a, cst(b->c >> a->b->w, a->a->w)), bin(K_OR, a->b, cst(b->c, a->b->w)));
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w && (isc(a->b) || isc(b->b) || isc(a->a) || isc(b->a))) return concat(bin(K_OR, a->a, b->a), bin(K_OR, a->b, b->b));
        if (a->k == K_ZEXT && b->k == K_CONCAT && b->b->w >= a->a->w) return concat(b->a, bin(K_OR, zext(a->a, b->b->w), b->b));
        if (b->k == K_ZEXT && a->k == K_CONCAT && a->b->w >= b->a->w) return concat(a->a, bin(K_OR, zext(b->a, a->b->w), a->b));
      }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(bin(k, a->a, b->a), w);
      if (a->k == K_ZEXT && isc(b) && (b->c >> a->a->w) == 0) return zext(bin(k, a->a, cst(b->c, a->a->w)), w);
      for (int s = 0; s < 2; s++) { Expr *x = s ? b : a, *y = s ? a : b; // only the low bits meet
        if (y->k == K_ZEXT && (x->k == K_VAR || x->k == K_EXTRACT || (x->k == K_ZEXT && x->a->w > y->a->w))) { int n = y->a->w; return concat(extract(x, n, w - n), bin(k, extract(x, 0, n), y->a)); } }
      break;
    case K_XOR: if (isc(b, 0)) return a; if (a == b) return cst(0, w);
      if (isc(b) && a->k == K_XOR && isc(a->b)) return bin(K_XOR, a->a, cst(a->b->c ^ b->c, w));
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return zext(bin(k, a->a, b->a), w);
      if (a->k == K_ZEXT && isc(b) && (b->c >> a->a->w) == 0) return zext(bin(k, a->a, cst(b->c, a->a->w)), w);
      if (w == 1 && isc(b, 1) && a->k == K_ITE && isc(a->b) && isc(a->d)) return ite(a->a, bnot(a->b), bnot(a->d));
      break;
    case K_SHL: if (isc(b, 0)) return a; if (isc(a, 0)) return a;
      if (isc(b)) { if (b->c >= (u64)w) return cst(0, w); return concat(extract(a, 0, w - b->c), cst(0, b->c)); } break;
    case K_LSHR: if (isc(b, 0)) return a; if (isc(a, 0)) return a;
      if (isc(b)) { if (b->c >= (u64)w) return cst(0, w); return zext(extract(a, b->c, w - b->c), w); } break;
    case K_ASHR: if (isc(b, 0)) return a; if (isc(a, 0)) return a;
      if (isc(b)) { u64 s = b->c >= (u64)w ? w - 1 : b->c; return sext(extract(a, s, w - s), w); } break;
    case K_EQ:
      if (a == b) return cst(1, 1);
      if (w == 1) { if (isc(b, 1)) return a; if (isc(b, 0)) return bnot(a); }
      if (isc(b)) {
        if (a->k == K_ZEXT) { if (b->c >> a->a->w) return cst(0, 1); return eq(a->a, cst(b->c, a->a->w)); }
        if (a->k == K_SEXT) { if ((u64)sx(b->c & maskw(a->a->w), a->a->w) != (u64)sx(b->c, w)) return cst(0, 1); return eq(a->a, cst(b->c, a->a->w)); }
        if (a->k == K_ITE && (isc(a->b) || isc(a->d))) { return ite(a->a, eq(a->b, b), eq(a->d, b)); }
        if (a->k == K_ADD && isc(a->b)) return eq(a->a, cst(b->c - a->b->c, w));
        if (a->k == K_XOR && isc(a->b)) return eq(a->a, cst(b->c ^ a->b->c, w));
        if (a->k == K_SUB && b->c == 0) return eq(a->a, a->b);
        if (a->k == K_CONCAT) return bin(K_AND, eq(a->a, cst(b->c >> a->b->w, a->a->w)), eq(a->b, cst(b->c, a->b->w)));
        if (a->k == K_SELECT) { Table t; t.ew = 1; for (u64 v : tables[a->c].vals) t.vals.push_back(v == b->c); return select(t, a->a); }
        if (a->k == K_OR && b->c == 0) return bin(K_AND, eq(a->a, b), eq(a->b, b));
      } else {
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      }
      break;
    case K_ULT:
      if (isc(b) && a->k == K_CONCAT && isc(a->a)) { u64 h = b->c >> a->b->w; return a->a->c < h ? cst(1, 1) : a->a->c > h ? cst(0, 1) : bin(k, a->b, cst(b->c, a->b->w)); }
      if (isc(a) && b->k == K_CONCAT && isc(b->a)) { u64 h = a->c >> b->b->w; return h < b->a->c ? cst(1, 1) : h > b->a->c ? cst(0, 1) : bin(k, cst(a->c, b->b->w), b->b); }
      if (a == b || isc(b, 0)) return cst(0, 1); if (isc(b, 1)) return eq(a, cst(0, w)); if (isc(a, m)) return cst(0, 1);
      if (isc(b) && a->k == K_ZEXT) { if (b->c >> a->a->w) return cst(1, 1); return bin(k, a->a, cst(b->c, a->a->w)); }
      if (isc(a) && b->k == K_ZEXT) { if (a->c >> b->a->w) return cst(0, 1); return bin(k, cst(a->c, b->a->w), b->a); }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(k, a->a, b->a);
      if (isc(b) && a->k == K_SELECT) { Table t; t.ew = 1; for (u64 v : tables[a->c].vals) t.vals.push_back(v < b->c); return select(t, a->a); }
      if (isc(a) && b->k == K_SELECT) { Table t; t.ew = 1; for (u64 v : tables[b->c].vals) t.vals.push_back(a->c < v); return select(t, b->a); }
      break;
    case K_SLT: if (a == b) return cst(0, 1);
      if (isc(b) && a->k == K_CONCAT && isc(a->a)) { i64 x = sx(a->a->c, a->a->w), h = sx(b->c, w) >> a->b->w; return x < h ? cst(1, 1) : x > h ? cst(0, 1) : bin(K_ULT, a->b, cst(b->c, a->b->w)); }
      if (isc(a) && b->k == K_CONCAT && isc(b->a)) { i64 x = sx(b->a->c, b->a->w), h = sx(a->c, w) >> b->b->w; return h < x ? cst(1, 1) : h > x ? cst(0, 1) : bin(K_ULT, cst(a->c, b->b->w), b->b); }
      if (isc(b, 0) && a->k != K_ZEXT && a->k != K_SELECT) return extract(a, w - 1, 1);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return bin(K_ULT, a->a, b->a);
      if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return bin(K_SLT, a->a, b->a);
      if (a->k == K_ZEXT && isc(b)) { if (sx(b->c, w) <= 0) return cst(0, 1); return bin(K_ULT, a, b); }
      if (b->k == K_ZEXT && isc(a)) { if (sx(a->c, w) < 0) return cst(1, 1); return bin(K_ULT, a, b); }
      if (a->k == K_SEXT && isc(b)) { int aw = a->a->w; i64 v = sx(b->c, w); i64 lo = -(1ll << (aw - 1)), hi = (1ll << (aw - 1)) - 1; if (v > hi) return cst(1, 1); if (v <= lo) return cst(0, 1); return bin(K_SLT, a->a, cst(b->c, aw)); }
      if (b->k == K_SEXT && isc(a)) { int aw = b->a->w; i64 v = sx(a->c, w); i64 lo = -(1ll << (aw - 1)), hi = (1ll << (aw - 1)) - 1; if (v >= hi) return cst(0, 1); if (v < lo) return cst(1, 1); return bin(K_SLT, cst(a->c, aw), b->a); }
      if (isc(b) && a->k == K_SELECT) { Table t; t.ew = 1; for (u64 v : tables[a->c].vals) t.vals.push_back(sx(v, w) < sx(b->c, w)); return select(t, a->a); }
      if (isc(a) && b->k == K_SELECT) { Table t; t.ew = 1; for (u64 v : tables[b->c].vals) t.vals.push_back(sx(a->c, w) < sx(v, w)); return select(t, b->a); }
      break;
    case K_FEQ: break;
    case K_FSUB: if (isc(b) && !nan_(b->c, w)) return bin(K_FADD, a, cst(b->c ^ (1ull << (w - 1)), w)); break;
    case K_FMUL: if (isc(b, w == 32 ? b32(1.0f) : b64(1.0))) return a; break;
    case K_FDIV: if (isc(b)) { double d = w == 32 ? (double)f32(b->c) : f64(b->c); int ex; if (std::isfinite(d) && d != 0 && std::fabs(std::frexp(d, &ex)) == 0.5 && ex > -100 && ex < 100) return bin(K_FMUL, a, cst(w == 32 ? b32((float)(1 / d)) : b64(1 / d), w)); } break;
    default:;
    }
    // arithmetic over a 256-entry select and a constant stays a select
    if (isc(b) && a->k == K_SELECT && k < K_EQ && tables[a->c].vals.size() <= 256) {
      Table t; t.ew = w; for (u64 v : tables[a->c].vals) t.vals.push_back(evalop(k, w, 0, v, w, b->c, w, 0)); return select(t, a->a); }
    return raw(k, rw, 0, a, b, 0);
  }
  Expr *un(Kind k, Expr *a, int w) {
    // unsigned 64-bit <-> floating conversions in terms of the signed ones (round to odd, then double;
    // subtract 2^63 beyond the signed range): identities of IEEE arithmetic
    if (k == K_UI2F && a->w == 64 && !isc(a)) { Expr *p = un(K_SI2F, a, w); if (a->k == K_ZEXT) return p;
      Expr *h = un(K_SI2F, bin(K_OR, bin(K_LSHR, a, cst(1, 64)), bin(K_AND, a, cst(1, 64))), w); return ite(bin(K_SLT, a, cst(0, 64)), bin(K_FADD, h, h), p); }
    if (k == K_F2UI && w == 64 && !isc(a)) { Expr *t = un(K_F2SI, a, 64), *u = un(K_F2SI, bin(K_FSUB, a, cst(a->w == 32 ? b32(9223372036854775808.0f) : b64(9223372036854775808.0), a->w)), 64);
      return bin(K_OR, t, bin(K_AND, u, bin(K_ASHR, t, cst(63, 64)))); }
    if (isc(a)) return cst(evalop(k, w, 0, a->c, a->w, 0, 0, 0), w); return raw(k, w, 0, a, 0, 0); }

  // evaluation under an assignment (memo by generation)
  std::vector<u64> memo; std::vector<u32> memogen; u32 gen = 0;
  u64 eval(Expr *e, const std::vector<u64> &as) {
    gen++; if (memo.size() < nid) { memo.resize(nid + 4096); memogen.resize(nid + 4096, 0); }
    return ev(e, as);
  }
  u64 ev(Expr *e, const std::vector<u64> &as) {
    if (e->k == K_CONST) return e->c;
    if (e->k == K_VAR) return e->c < as.size() ? as[e->c] & maskw(e->w) : 0;
    if (memogen[e->id] == gen) return memo[e->id];
    u64 r;
    if (e->k == K_SELECT) { u64 i = ev(e->a, as); auto &t = tables[e->c].vals; r = i < t.size() ? t[i] : 0; }
    else if (e->k == K_ITE) r = ev(e->a, as) ? ev(e->b, as) : ev(e->d, as);
    else r = evalop(e->k, e->w, e->c, ev(e->a, as), e->a->w, e->b ? ev(e->b, as) : 0, e->b ? e->b->w : 0, 0);
    memogen[e->id] = gen; memo[e->id] = r; return r;
  }
};
