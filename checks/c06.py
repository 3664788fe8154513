"""C06: statements, control flow, sequencing."""
import random
import core, tv
from tv import *

PRE = '''static int P_s(int *r, int k, int v) { *r = *r * 7 + k; return v; }
static long P_sl(int *r, int k, long v) { *r = *r * 7 + k; return v; }
static void P_sv(int *r, int k) { *r = *r * 5 + k; }
'''
U = [('unsigned char', 'a'), ('unsigned char', 'b')]
def shapes():
    p = Prog('shapes', PRE)
    def f(body, params=U, desc=None, pre=None): p.fn('int', params, 'int r = 1; %s return r;' % body, desc=desc or body[:150], pre=pre)
    def T(k): return 'r = r * 7 + %d;' % k
    # if / else binding
    f('if (a & 1) if (b & 1) %s else %s' % (T(1), T(2))); f('if (a & 1) { if (b & 1) %s } else %s' % (T(1), T(2)))
    f('if (a > 3) ; else %s %s' % (T(1), T(2))); f('if (a) if (b) %s else if (a > b) %s else %s %s' % (T(1), T(2), T(3), T(4)))
    # loops
    f('int n = a & 3; while (n) { %s n--; } %s' % (T(1), T(2))); f('int n = a & 3; while (n--) %s' % T(3)); f('int n = a & 3; do %s while (n--);' % T(3))
    f('int n = a & 3; do { if (n == 1) continue; %s if (n == 2) break; %s } while (n-- > 0); %s' % (T(1), T(2), T(3)))
    f('for (int i = 0; i < (a & 3); i++) { for (int i = 0; i < (b & 1); i++) { %s } r += i; }' % T(2)); f('int i; for (i = 0; ; i++) { if (i == (a & 3)) break; %s } r += i * 1000;' % T(1))
    f('int i = 0; for (; i < (a & 3);) { i += 1; if (i & b) continue; %s }' % T(4)); f('int i = 0; for (;;) { if (i++ >= (a & 3)) break; if (i == (b & 3)) continue; %s }' % T(5))
    f('int i, j; for (i = 0, j = 3; i < j; i++, j -= a & 1) { %s if (b & 1) continue; %s }' % (T(1), T(2)))
    f('for (int i = 0; i < 3; i++) { int k = a; while (k & 1) { %s if (b & 1) break; k >>= 1; if (k & 4) goto out; } if (b & 2) continue; %s } out: r += 5;' % (T(1), T(2)))
    f('int i = 0; while (1) { while (1) { if (i++ > (a & 3)) break; if (b & 1) continue; %s } if (i > 4) break; %s }' % (T(1), T(2)))
    f('int i = a & 3; again: %s if (i--) goto again; goto end; %s end: %s' % (T(1), T(2), T(3))); f('if (a & 1) goto x; if (b & 1) goto y; %s x: %s y: %s' % (T(1), T(2), T(3)))
    f('goto mid; while (a & 1) { %s mid: %s if (b & 1) break; a >>= 1; }' % (T(1), T(2))); f('{ goto l1; l2: %s goto l3; l1: %s goto l2; } l3: %s' % (T(1), T(2), T(3)))
    # switch
    f('switch (a) { case 1: %s case 2: %s break; case 200: %s default: %s case 7: %s }' % tuple(T(k) for k in (1, 2, 3, 4, 5)))
    f('switch (a) { default: %s case 3: %s break; case 4: %s }' % (T(1), T(2), T(3))); f('switch (a & 3) { case 0: case 1: %s break; case 2: { %s } }' % (T(1), T(2))); f('switch (a) { } %s' % T(1)); f('switch (a) { default: ; } %s' % T(1))
    f('switch (a & 1) case 1: %s %s' % (T(1), T(2))); f('switch (a) default: %s %s' % (T(1), T(2))); f('switch (a & 3) { case 1: if (b & 1) default: %s %s }' % (T(1), T(2))); f('switch (a & 3) { case 1: if (b & 1) case 2: %s %s }' % (T(1), T(2)))
    f('switch (a & 3) { case 0: switch (b & 3) { case 0: %s break; case 1: %s default: %s } %s break; case 1: %s }' % tuple(T(k) for k in (1, 2, 3, 4, 5)))
    f('int n = (a & 7) + 1; switch (n & 3) { case 0: do { %s case 3: %s case 2: %s case 1: %s } while ((n -= 4) > 0); }' % tuple(T(k) for k in (1, 2, 3, 4)), desc='duff')
    f('for (int i = 0; i < 3; i++) { switch (a & 3) { case 1: %s continue; case 2: break; case 3: if (b & 1) continue; %s } if (b & 2) continue; switch (b & 3) { case 3: continue; default: %s } %s }' % tuple(T(k) for k in (1, 2, 3, 4)))
    f('int i = 0; while (i++ < 3) { switch ((a + i) & 3) { case 1: %s continue; case 2: break; case 3: while (1) { if (b & 1) break; %s break; } } %s }' % tuple(T(k) for k in (1, 2, 4)))
    f('int i = 3; do { switch ((a + i) & 1) { case 1: %s continue; } %s } while (--i);' % (T(1), T(2))); f('switch (a) { case 5: for (;;) { case 6: %s if (b & 1) break; %s break; } default: %s }' % (T(1), T(2), T(3)))
    f("switch (a) { case 'a': %s break; case 'b' + 1: %s break; case sizeof(int): %s break; case 1 ? 9 : 8: %s break; case (unsigned char)300: %s }" % tuple(T(k) for k in (1, 2, 3, 4, 5)))
    f('int x = 0; switch (a & 3) { int y; case 1: y = 5; x += y; break; case 2: y = 6; x = y; } r += x;')
    for t in INT:
        if t == '_Bool': cs = ['0', '1', '256']
        else: cs = {1: ['-1', '127', '-128', '255', '128', '300'], 2: ['-1', '32767', '-32768', '65535', '65536'], 4: ['-1', '2147483647', '2147483648u', '7'], 8: ['-1', '4294967296L', '4294967295u', '-4294967296L', '1', '0x7fffffffffffffffL', '-2147483648L']}[size(t)]
        p.fn('int', [(t, 'a')], 'switch (a) { %s default: return 99; }' % ' '.join('case %s: return %d;' % (c, k) for k, c in enumerate(cs)), desc='switch %s' % t)
        p.fn('int', [(t, 'a'), (t, 'b')], 'int r = 0; if (a) r |= 1; if (!a) r |= 2; if (a && b) r |= 4; if (a || b) r |= 8; r |= a ? 16 : 32; while (b) { r |= 64; break; } for (; a; ) { r |= 128; break; } do { if (r & 256) break; r |= 256; } while (b); return r;', desc='truth of %s' % t)
    p.fn('int', [('char *', 'a'), ('int', 'z')], 'char *q = z ? a : 0; int r = 0; if (q) r |= 1; if (!q) r |= 2; if (q && z) r |= 4; r |= q ? 16 : 32; while (q) { r |= 64; q = 0; } return r;', bufsz=8, desc='truth of pointers')
    # sequencing with side effects
    for e in ['P_s(&r, 1, a & 1) && P_s(&r, 2, b & 1)', 'P_s(&r, 1, a & 1) || P_s(&r, 2, b & 1)', 'P_s(&r, 1, a & 1) && P_s(&r, 2, b & 1) || P_s(&r, 3, a & 2)', 'P_s(&r, 1, a & 1) || P_s(&r, 2, b & 1) && P_s(&r, 3, a & 2)',
              'P_s(&r, 1, a & 1) ? P_s(&r, 2, 5) : P_s(&r, 3, 6)', 'P_s(&r, 1, a & 1), P_s(&r, 2, 3)', '!P_s(&r, 1, a & 1) && !P_s(&r, 2, b & 1)', '(P_s(&r, 1, a & 1) || P_s(&r, 2, b & 1)) && P_s(&r, 3, a & 2)', 'P_s(&r, 1, a & 1) ? P_s(&r, 2, b & 1) ? 1 : 2 : P_s(&r, 4, 3)',
              'a & 1 ? (P_sv(&r, 1), 3) : (P_sv(&r, 2), 4)', '(a & 1 ? P_sv(&r, 1) : P_sv(&r, 2), 9)', 'P_sl(&r, 1, (long)(a & 1) << 40) && P_sl(&r, 2, (long)(b & 1) << 33)', '(r = r * 3, r + a) > 10 && (r++, b)', '0 && P_s(&r, 1, 1)', '1 || P_s(&r, 1, 1)', 'sizeof(P_s(&r, 1, 1))', '1 ? a : P_s(&r, 1, 1)', '0 ? P_s(&r, 1, 1) : b',
              '(a & 1) == 0 || (b & 1) == 0', '(a && b) + (a || b) * 2 + !a * 4', '-(a < b) + ~(a && b)', '(a < b) == (b > a)', 'a < b < 2']:
        f('int q = (%s); r += q * 1000;' % e, desc=e); f('if (%s) r += 77; else r += 33;' % e, desc='if ' + e); f('int n = 2; while (n-- && (%s)) r ^= 3;' % e, desc='while ' + e)
    f('int x = a; x = x++ , x; r = x;', desc='comma'); f('int i = a; int j = i++ + 1; r = i * 300 + j;'); f('int i = a; i += i++ ? 1 : 2, i *= 3; r = i;', desc='comma2') if 0 else None
    f('int x = a, y = b, z; z = x = y; r = x * 1000 + y + z;', desc='chain'); f('int x = a; x += x -= b; r = x;', desc='x += x -= b')
    f('int v[4] = {0}; int i = a & 1; v[i++] = 5; v[i] = 7; r = v[0] + v[1] * 10 + v[2] * 100 + i * 1000;', desc='v[i++]'); f('int v[3] = {1, 2, 3}; int *q = v; int x = *q++; int y = *++q; r = x * 100 + y * 10 + (q - v) + a;', desc='*q++')
    f('if (a & 1) return 3; else return 4; %s' % T(1)); f('while (1) { if (a & 1) return 5; if (b & 1) break; return 6; } %s' % T(1)); f('return a & 1 ? 2 : 3; { int q = 4; r = q; }')
    f('{ ; ; {} { ; } } %s ;' % T(1)); f('{ int r = 5; { int r = 6; r++; } a += r; } r = a;'); f('int x = 3; { x = 4; int x = 5; x++; } r = x * 100 + a;')
    f('for (int i = 0, n = a & 3; i < n; i++) { static const int t[4] = {1, 3, 5, 7}; r = r * 2 + t[i]; }'); f('(void)a; (void)0; a; r = b;')
    return p

def phis():
    p = Prog('loops', PRE + 'static void P_st(int *q, int v) { *q = *q * 3 + v; }\nstatic int P_ld(int *q) { return *q; }\n')
    U3 = [('unsigned char', 'n'), ('unsigned char', 'a'), ('unsigned char', 'b'), ('unsigned char', 'c')]
    def f(b, params=U3, **k): p.fn('int', params, b, desc=k.pop('desc', b[:150]), **k)
    for upd in ['t = a; a = b; b = t;', 't = a; a = b; b = c; c = t;', 't = a + b; a = b; b = t;', 'c = b; b = a; a = n;', 't = a; a = b & 1 ? c : b; c = t;', 'if (b & 1) { t = a; a = c; c = t; } b >>= 1;', 'c = a; a = a ^ 5;', 't = c; c = a; if (t & 1) a = b; b = t;']:
        f('int t = 0; n &= 3; while (n--) { %s } return a ^ b << 8 ^ c << 16 ^ t << 24;' % upd); f('int t = 0; n &= 3; do { %s } while (n--); return a ^ b << 8 ^ c << 16 ^ t << 24;' % upd)
        f('int t = 0; for (int i = 0; i < (n & 3); i++) { if (n & 4) continue; for (int j = 0; j < (n >> 3 & 1) + 1; j++) { %s } } return a ^ b << 8 ^ c << 16 ^ t << 24;' % upd)
    P3 = [('int *', 'p'), ('int', 'c'), ('int', 'd')]
    for b in ['int t = *p; if (c) *p = d; return t;', 'int t = *p; if (c & 1) P_st(p, d); return t * 3 + *p;', 'int t = p[0], u = p[1]; if (c) { p[0] = u; p[1] = t; } return t ^ u << 1 ^ p[0] << 2 ^ p[1] << 3;', 'int t = *p; for (int i = 0; i < (c & 3); i++) { *p += d; if (i == 1) t ^= *p; } return t;',
              'int t; if (c & 1) t = *p; else t = p[1]; *p = d; p[1] = c; return t;', 'int t = P_ld(p); P_st(p, d); int u = P_ld(p); if (c) P_st(p, 1); return t * 3 + u * 5 + *p;', 'int t = p[c & 1]; p[d & 1] = 5; int u = p[c & 1]; return t * 3 + u;', 'int x = 5, *q = c & 1 ? &x : p; int t = x; *q = d; return t * 3 + x + *p;',
              'int x = c; int *q = &x; while (d & 3) { *q += d; d--; } return x;', 'int x[3] = { c, d, 7 }; int t = x[1]; if (c & 1) x[1] = 3; else x[2] = t; return x[0] ^ x[1] << 1 ^ x[2] << 2 ^ t << 3;', 'int t = *p / (d | 1); *p = 9; if (c) return t; return t + *p;', '*p = c; if (d & 1) goto l; *p += 1; l: *p += 2; int t = *p; *p = 0; return t;',
              'int t = *p; if (c & 1) { if (c & 2) *p = 1; else *p = 2; } else if (c & 4) return t; *p += t; return t;', 'volatile int v = c; int t = v; v = d; if (c & 1) v = t; return t * 3 + v;', 'int r = 0; switch (c & 3) { case 0: r = *p; *p = 1; case 1: r += *p; *p = 2; break; default: *p = d; } return r * 3 + *p;']:
        f(b, P3, bufsz=16, pre='d > 0' if '/' in b else None)
    return p

def locals_():
    """local objects whose address is taken, stored, compared or used under another type, across branches and loops"""
    p = Prog('locals', PRE + 'static void *P_keep(void *p) { return p; }\nstatic void P_put(int *p, int v) { *p = v; }\n')
    P = [('int', 'a'), ('long', 'b'), ('unsigned char', 'k')]
    for b in ['void *p = &p; void **q = p; if (k & 1) *q = 0; return p == 0;', 'void *p; p = &p; *(void **)p = 0; return p == 0;', 'void *p; for (int i = 0; i < (k & 3); i++) { p = &p; if (i == 1) *(void **)p = q; } return 0;'.replace('*(void **)p = q', '*(void **)p = 0'), 'long p = (long)&p; *(long *)p = b; return p;', 'struct s { struct s *n; int v; } x = { &x, a }; if (k & 1) x.n->v = 5; return x.n->n->v;',
              'int x = a, *p = &x; *p = 3; return x;', 'int x = a, y = k, *p = k & 1 ? &x : &y; *p += 5; return x * 3 + y;', 'int x = a, *p = &x, **q = &p, y = 7; if (k & 1) *q = &y; *p = 9; return x + y * 3;', 'int x = a; *(char *)&x = k; return x;', 'int x = a; if (k & 1) *((short *)&x + 1) = k; return x;', 'int x = a; return *(signed char *)&x;', 'unsigned x = a; return *(unsigned short *)&x;', 'long x = b; return *(int *)&x;', 'long x = b; *(int *)&x = a; return x;', 'int x = a; signed char c = *(signed char *)&x; x = 0; return c;', 'char x[4] = { 0 }; *(int *)x = a; return x[k & 3];', 'long x = b; int y = *((int *)&x + 1); x = 1; return y;', 'unsigned x = a; x = *(unsigned char *)&x; return x;', 'long x = 0; *(short *)&x = a; *((short *)&x + 2) = k; return x;',
              'int x; for (int i = 0; i < 3; i++) { if (i) a += x; x = i + k; } return a;', 'int x = a; { int x = 3; P_put(&x, 5); a += x; } return x * 3 + a;', 'int x; if (k & 1) x = a; else P_put(&x, 4); return x;', 'int r = 0; for (int i = 0; i < 2; i++) { int x = i; int *p = P_keep(&x); *p += a; r = r * 5 + x; } return r;', 'int *p = 0; int r = 0; for (int i = 0; i < 3; i++) { int x = i; if (i == 1) p = &x; if (p) { if (i == 1) *p = 7; } r = r * 3 + x; } return r + a;',
              'struct { int a; char b; } s = { a, k }, t = s; s.a = 1; if (k & 1) s = t; return s.a + s.b;', 'struct { long a, b; } s = { a, b }; long *p = &s.a; p[k & 1] = 5; return s.a * 3 + s.b;', 'union { int i; struct { char a, b, c, d; } s; } u; u.i = a; u.s.b = k; return u.i;', 'int x = a, y = x++, z = ++x; return x * 100 + y * 10 + z;', 'int x = a; int *p = &x; int y = (*p)++ + k; return x * 5 + y;', 'int x = a; goto m; l: return x; m: x += k; { int *p = &x; *p ^= 1; } goto l;', 'int x = a; switch (k & 3) { int y; case 0: y = 1; x += y; case 1: y = 2; P_put(&y, x); x = y + 1; break; default: y = 3; x -= y; } return x;', 'int x[2] = { a, k }; int *p = x; int t = *p++; *p = t; return x[1] * 3 + (p - x);', 'double d = a; long l = *(long *)&d; if (k & 1) *(char *)&d = 1; return l ^ *(long *)&d;', 'float f = k; int i = *(int *)&f; return i;', 'int i = a; float f = *(float *)&i; return *(int *)&f;',
              'void *p = &a; *(int *)p = 5; return a;', 'int *p = &a; if (b & 1) p = (int *)&b; *p = k; return a + b;', 'k = 300; return k;', 'a = (char)a; if (a < 0) a = -a; return a;', 'char c = a; if (c == a) return 1; return c;', 'short s = a; int r = 0; while (s & 7) { r++; s++; } return r + s;', '_Bool t = a; if (b) t = t + 5; return t + 1;', 'int x = a; int y; y = x = k; x = y = x + 1; return x + y;', 'int x = k; x = x ? x - 1 : 5; x = x ? x : 9; return x;', 'int v[3] = { a, 2, k }; int t = v[0]; v[0] = v[2]; v[2] = t; int *p = &v[1]; p[-1] += p[1]; return v[0] * 3 + v[2];']:
        p.fn('long', P, b, desc=b[:150])
    return p

class Gen:
    def __init__(s, seed): s.R = random.Random(seed)
    def cond(s):
        R = s.R; v = R.choice(s.vars); w = R.choice(s.vars)
        return R.choice(['%s & %d' % (v, 1 << R.randrange(4)), '%s > %d' % (v, R.randrange(200)), '%s == %s' % (v, w), '%s < %s' % (v, w), '!%s' % v, '%s' % v, '(%s & 1) && (%s & 2)' % (v, w), '(%s & 1) || (%s & 4)' % (v, w), 'P_s(&r, %d, %s & 2)' % (R.randrange(9), v), '(r & 1) ^ (%s & 1)' % v, 'r > 50', '(%s & 3) != (%s & 3)' % (v, w)])
    def tr(s):
        s.k += 1; return s.R.choice(['r = r * 3 + %d;', 'r += %d;', 'r ^= %d;', 'P_s(&r, %d, 0);', 'P_sv(&r, %d);', 'r = (r << 1) - %d;']) % s.k
    def block(s, d, loop, sw, n=None):
        return ' '.join(s.stmt(d, loop, sw) for _ in range(n or s.R.randint(1, 3)))
    def body(s, d, loop, sw):
        return s.stmt(d, loop, sw) if s.R.random() < .35 else '{ %s }' % s.block(d, loop, sw)
    def stmt(s, d, loop, sw):
        R = s.R; x = R.random(); s.n += 1
        if d == 0 or x < .22 or s.n > 26: return s.tr()
        if x < .42:
            a = 'if (%s) %s' % (s.cond(), s.body(d - 1, loop, sw)) if R.random() < .4 else 'if (%s) { %s } else %s' % (s.cond(), s.block(d - 1, loop, sw), s.body(d - 1, loop, sw)); return a if a.startswith('if') and 'else' in a else a + (' else ; ' if R.random() < .3 else '') if not a.rstrip().endswith('else') else a
        if x < .52:
            i = 'i%d' % s.n; k = R.randrange(4); lim = R.choice(['(%s & 3)' % R.choice(s.vars), '2', '(%s & 1) + 1' % R.choice(s.vars)])
            if k == 0: return '{ int %s = %s; while (%s--) %s }' % (i, lim, i, s.body(d - 1, True, sw))
            if k == 1: return '{ int %s = %s; do { %s } while (%s-- > 0); }' % (i, lim, s.block(d - 1, True, sw), i)
            if k == 2: return 'for (int %s = 0; %s < %s; %s++) %s' % (i, i, lim, i, s.body(d - 1, True, sw))
            return '{ int %s = 0; for (;;) { if (%s++ >= %s) break; %s } }' % (i, i, lim, s.block(d - 1, True, sw))
        if x < .66:
            v = R.choice(s.vars); cs = R.sample(range(8), R.randint(1, 4)); parts = []
            dflt = R.randrange(len(cs) + 1) if R.random() < .7 else -1
            for j, c in enumerate(cs):
                if j == dflt: parts.append('default: %s' % s.block(d - 1, loop, True, 1))
                parts.append('case %d: %s%s' % (c, s.block(d - 1, loop, True, R.randint(1, 2)), ' break;' if R.random() < .6 else ''))
            if R.random() < .2: parts.append('do { %s case %d: %s } while (0);' % (s.tr(), 8, s.tr()))
            if dflt == len(cs): parts.append('default: ;')
            return 'switch (%s & %s) { %s }' % (v, R.choice(['7', '15', '3']), ' '.join(parts))
        if x < .75 and (loop or sw): return 'if (%s) %s; %s' % (s.cond(), 'break' if not loop or R.random() < .5 else 'continue', s.tr())
        if x < .79 and (loop or sw): return '{ %s %s; %s }' % (s.tr(), 'break' if not loop or R.random() < .5 else 'continue', s.tr())
        if x < .84: return 'if (%s) goto end;' % s.cond()
        if x < .87:
            l = 'l%d' % s.n; return '{ if (%s) goto %s; %s %s: %s }' % (s.cond(), l, s.block(d - 1, loop, sw), l, s.tr())
        if x < .9:
            l = 'l%d' % s.n; return '{ int g%d = 0; %s: %s if (g%d++ < 2 && (%s)) goto %s; }' % (s.n, l, s.tr(), s.n, s.cond(), l)
        if x < .92: return 'if (%s) return r;' % s.cond()
        if x < .96: return '(%s) ? (%s) : (%s);' % (s.cond(), s.tr()[:-1], s.tr()[:-1]) if 0 else 'r += (%s) ? (r ^= 5, %d) : (r *= 3, %d);' % (s.cond(), s.n, s.n + 3) if 0 else 'r = (%s) ? r * 2 + %d : r - %d;' % (s.cond(), s.n, s.n)
        return '{ int q = r; %s r += q; }' % s.block(d - 1, loop, sw)
    def fn(s):
        s.vars = ['a', 'b', 'c'][:s.R.randint(1, 3)]; s.k = 0; s.n = 0
        return 'int r = 1; %s end: return r;' % s.block(3, False, False, s.R.randint(2, 4))

def rnd(seed, n, name):
    p = Prog(name, PRE); g = Gen(seed)
    for k in range(n):
        b = g.fn(); p.fn('int', [('unsigned char', v) for v in g.vars], b, desc='%s#%d' % (name, k))
    return p

def falloff():
    p = Prog('falloff', PRE + '''static int P_fi(int *r, int x) { if (x & 1) return x; *r += 3; }
static double P_fd(int *r, int x) { switch (x & 3) { case 1: return x; case 2: *r += 5; } }
static long *P_fp(int *r, long *x, int c) { while (c & 1) return x; *r += 9; }
struct P_S { long a[3]; }; static struct P_S P_fs(int *r, int x) { struct P_S s = {{x, x + 1, *r}}; if (x & 2) return s; *r ^= 77; }
''')
    for e in ('P_fi(&r, a); P_fi(&r, b);', 'if (a & 1) r = P_fi(&r, a); else P_fi(&r, b & ~1);', 'P_fd(&r, a); P_fd(&r, b); if ((a & 3) == 1) r += (int)P_fd(&r, a);', 'long l = b; P_fp(&r, &l, a); if (a & 1) r += *P_fp(&r, &l, a);', 'P_fs(&r, a); P_fs(&r, b); if (b & 2) r += P_fs(&r, b).a[2];'):
        p.fn('int', U, 'int r = 1; %s return r;' % e, desc='falling off the end: ' + e)
    return p

def check():
    c = core.Check('C06', 'translation_validation')
    c.bounds = ['all values of up to 3 byte-sized (or one/two of any integer type) parameters', 'all statement forms nested to depth 3, loops of at most 4 iterations, random programs of about 25 statements', 'order of execution observed through an accumulator']
    c.outside = ['computed goto, case ranges and statement expressions (not supported)', 'evaluation orders C leaves unspecified']
    jobs(c, shapes(), per=14)
    jobs(c, phis(), per=14)
    jobs(c, locals_(), per=12)
    jobs(c, falloff())
    for k in range(6 if core.TIER == 'quick' else 60):
        for j in jobs(c, rnd(core.SEED * 1009 + k, 12, 'random%d' % k), per=12): pass
    return c
