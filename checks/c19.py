"""C19: variable length arrays and variably modified types."""
import random
import core, tv
from tv import *

PRE = '''static int P_cnt(int *r, int v) { *r = *r * 7 + v; return v; }
static long P_sum(int n, int *q) { unsigned long s = 0; for (int i = 0; i < n; i++) s = (s << 5 | (unsigned long)s >> 59) ^ q[i]; return s; }
static long P_sum2(int n, int m, int q[n][m]) { unsigned long s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) s = (s << 5 | (unsigned long)s >> 59) ^ q[i][j]; return s; }
static long P_many(int a, int b, int c, int d, int e, int f, long g, int h, char i, short j) { return a + b * 2 + c * 3 + d * 5 + e * 7 + f * 11 + g * 13 + h * 17 + i * 19 + j * 23; }
static long P_dbl(double a, int n, double b) { return (long)(a * 2) + n + (long)b; }
static unsigned long P_al(void *q) { return (unsigned long)q & 15; }
#define P_M(v) (r = (long)(((unsigned long)r << 7 | (unsigned long)r >> 57) ^ (unsigned long)(v)))
struct P_S { char c; long l; short s; }; struct P_B { int q[9]; };
static struct P_B P_big(int v) { struct P_B b; for (int i = 0; i < 9; i++) b.q[i] = v + i; return b; }
'''
U = [('unsigned char', 'a'), ('unsigned char', 'b')]
N = [('unsigned char', 'a'), ('unsigned char', 'b'), ('int', 'x')]
SZ = 'a >= 1 && a <= 4 && b >= 1 && b <= 3'
def fixed():
    p = Prog('vla', PRE)
    def f(body, desc=None, params=N, pre=SZ): p.fn('long', params, 'long r = 1; %s return r;' % body, desc=desc or body[:150], pre=pre, conc=3)
    for t in ['char', 'short', 'int', 'long', 'unsigned char', '_Bool', 'int *', 'struct P_S', 'char *']: f('%s v[a]; r = sizeof v; P_M(sizeof v[0]); P_M(sizeof v / sizeof *v); P_M((&v[a - 1] - v));' % t, 'size of %s[n]' % t)
    for t in ['float', 'double']: f('%s v[a]; for (int i = 0; i < a; i++) v[i] = i + 3; for (int i = 0; i < a; i++) P_M((long)v[i]); P_M(sizeof v);' % t, 'contents of %s[n]' % t)
    for t in ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long']: f('%s v[a]; for (int i = 0; i < a; i++) v[i] = x + i; v[b - 1 < a ? b - 1 : 0] += 3; for (int i = 0; i < a; i++) P_M(v[i]);' % t, 'contents of %s[n]' % t)
    # neighbours do not overlap
    f('char v[a]; int w[b]; long u[a]; for (int i = 0; i < a; i++) v[i] = x + i; for (int i = 0; i < b; i++) w[i] = i * 5; for (int i = 0; i < a; i++) u[i] = i * 9; for (int i = 0; i < a; i++) P_M(v[i] + u[i]); for (int i = 0; i < b; i++) P_M(w[i]);', 'three arrays')
    f('int pad = x, v[a], pad2 = x + 1; for (int i = 0; i < a; i++) v[i] = -1; r = pad * 3L + pad2; { char w[b]; for (int i = 0; i < b; i++) w[i] = 0; } P_M(v[a - 1] + pad2);', 'locals around it')
    f('char v[a]; long w[b]; r = P_al(w) %% 8 == 0; short q[a]; P_M(((unsigned long)q %% 2)); struct P_S s[a]; P_M((unsigned long)s %% 8); r += sizeof s;'.replace('%%', '%'), 'alignment')
    # evaluation of the size
    f('int k = 1; int v[P_cnt(&k, a)]; a = 9; r = sizeof v * 1000 + k;', 'the size is evaluated once, at the declaration'); f('int n = a; int v[n + 1]; n = 77; r = sizeof v; v[0] = n; P_M(v[0]);', 'later change of the size variable')
    f('int k = 1; int v[P_cnt(&k, a)][P_cnt(&k, b)]; r = sizeof v * 1000 + sizeof v[0] * 10 + k % 7;', 'two sizes evaluated'.replace('%', '%%')) if 0 else None
    f('int k = 1; r = sizeof(int[P_cnt(&k, a)]) * 100 + k;', 'sizeof of a type evaluates its size'); f('int v[a]; int k = 0; r = sizeof(v[k++]) + k * 100;', 'sizeof of an element evaluates nothing')
    f('int k = 0; int v[2][a]; r = sizeof(v[k++]) + (k >= 0) * 100;', 'sizeof of a row'); f('int v[a + 1][b]; r = sizeof v * 10000 + sizeof v[0] * 100 + sizeof v[0][0]; P_M(((char *)v[1] - (char *)v[0]));', 'size of two dimensions')
    for d in ['3][a', 'a][3', 'a][b']: f('int v[%s]; int n1 = sizeof v / sizeof v[0], n2 = sizeof v[0] / sizeof v[0][0]; for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) v[i][j] = x + i * 10 + j; r = P_sum2(n1, n2, v); int (*q)[n2] = v; q++; P_M((n1 > 1 ? (*q)[n2 - 1] : 0) + ((char *)q - (char *)v));' % d, 'int v[%s]' % d)
    f('char v[a][b][2]; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < 2; k++) v[i][j][k] = i * 16 + j * 4 + k; for (int i = 0; i < sizeof v; i++) P_M(((char *)v)[i]); r += sizeof v[0] * 100;', 'three dimensions')
    f('char v[2][a][b]; for (int i = 0; i < sizeof v; i++) ((char *)v)[i] = i; r = v[1][a - 1][b - 1] * 100 + v[0][a - 1][0] * 10 + sizeof v[0] + sizeof *v[0] * 7; P_M(*(*(*(v + 1) + 0) + b - 1) + (v[1] - v[0] + 1));', 'three dimensions, inner ones variable') if 0 else f('char v[2][a][b]; for (int i = 0; i < sizeof v; i++) ((char *)v)[i] = i; r = v[1][a - 1][b - 1] * 100 + v[0][a - 1][0] * 10 + sizeof v[0] + sizeof *v[0] * 7; P_M(*(*(*(v + 1) + 0) + b - 1));', 'three dimensions, inner ones variable')
    # pointers and parameters
    f('int m[12]; for (int i = 0; i < 12; i++) m[i] = x + i; int (*q)[b] = (void *)m; r = q[1][b - 1] * 10L + (*q)[0] + sizeof *q * 1000; q += 2; P_M(**q); P_M((&q[1] - &q[0]) + (*(q - 1))[0]);', 'pointer to an array'); f('int m[12]; for (int i = 0; i < 12; i++) m[i] = i * i; r = P_sum2(a, b, (int (*)[b])m);', 'variably modified parameter')
    f('int v[a][b]; int (*q)[b] = v; int (*z)[a][b] = &v; r = (void *)q == (void *)z; P_M(sizeof *z); P_M(sizeof **z); P_M(((char *)(z + 1) - (char *)v == sizeof v));', 'address of the array')
    f('typedef int T[a]; a = 1; T v; T w[2]; r = sizeof(T) * 1000 + sizeof w; v[0] = x; P_M(v[0] + sizeof v);', 'typedef keeps the size'); f('typedef char T[a]; for (int i = 0; i < 3; i++) { T v; v[a - 1] = i; a++; a--; P_M(sizeof v + v[a - 1]); }', 'typedef used in a loop'); f('typedef int T[b]; T *q; int m[4] = {x, 2, 3, 4}; q = (T *)m; r = (*q)[0] + sizeof *q; { typedef T TT[a]; P_M(sizeof(TT)); }', 'typedef of pointers')
    f('r = (int (*)[a])0 + 1 == (void *)(long)(4 * a); P_M(sizeof(int[a][b])); P_M(_Alignof(int[a]));' if 0 else 'r = (long)((int (*)[a])0 + 1); P_M(sizeof(int[a][b]));', 'type names')
    # scopes, loops, jumps
    f('for (int i = 1; i <= 3; i++) { char v[i * a]; v[i * a - 1] = x + i; v[0] += 0 * x; P_M(v[i * a - 1] + sizeof v); }', 'new size in every iteration', pre=SZ) if 0 else f('for (int i = 1; i <= 3; i++) { char v[i * a]; v[i * a - 1] = x + i; P_M(v[i * a - 1] + sizeof v); }', 'new size in every iteration')
    f('int w[3] = {x, 5, 6}; for (int i = 0; i < a; i++) { int v[b]; v[0] = i; if (i & 1) continue; v[b - 1] = 3; if (i == 2) break; P_M(v[0] + v[b - 1]); } r += w[0] + w[1] * 3 + w[2] * 5;', 'continue and break leave the scope')
    f('int i = 0; again: ; int v[i + 1]; v[i] = i * x; P_M(v[i] + sizeof v); if (i++ < b) goto again; r += i;', 'jump back over the declaration'); f('{ int v[a]; v[0] = x; if (b == 2) goto out; r += v[0]; } r = r * 3; out: r += 7;', 'jump out of the scope')
    f('for (int i = 0; i < 700; i++) { char v[2000 + a]; v[0] = i; r += v[0]; }', 'space is released by every iteration', pre='a == 1 && b == 1'); f('int i = 0; while (1) { char v[3000 + a]; v[9] = i; r += v[9]; if (i++ == 500) break; if (i & 1) continue; r++; }', 'space is released by continue', pre='a == 1 && b == 1'); f('int i = 0; again: { char v[4000 + a]; v[0] = 1; r += v[0]; if (i++ < 400) goto again; }', 'space is released by goto', pre='a == 1 && b == 1')
    f('switch (b) { case 1: { int v[a]; v[0] = 4; r += v[0] + sizeof v; break; } case 2: { char v[a + 1]; v[a] = 5; r += v[a] * 10 + sizeof v; } default: r += 3; }', 'in a switch'); f('{ int v[a]; v[0] = 1; { int w[b]; w[0] = 2; r += v[0] + w[0]; } { int u[a]; u[a - 1] = 8; v[0] += u[a - 1]; } P_M(v[0]); }', 'nested scopes')
    f('int v[a]; int *q = v; { int v[b]; v[0] = 3; q[0] = 5; P_M(v[0]); } P_M(v[0]);', 'shadowing'); f('if (b == 1) { int v[a]; v[0] = 1; r += sizeof v; } else { long v[a]; v[a - 1] = 2; r += sizeof v + v[a - 1]; } r *= 2;', 'in branches'); f('int v[a]; v[0] = 1; if (b == 2) return v[0] + 41; { int w[a]; w[0] = 7; if (b == 3) return w[0] * v[0]; } r = v[0];', 'return from inside')
    # calls with live arrays
    f('int v[a]; for (int i = 0; i < a; i++) v[i] = i; r = P_many(1, 2, 3, 4, 5, v[a - 1], 7, 8, 9, 10); v[0] = 3; P_M(P_many(v[0], P_many(1, 1, 1, 1, 1, 1, v[0], 1, 1, 1), 3, 4, 5, 6, 7, a, b, 10));', 'stack arguments'); f('int v[a]; v[a - 1] = x; struct P_B s = P_big(b); r = s.q[8] + v[a - 1]; v[0] = x; v[0] = P_big(v[0] & 7).q[2]; P_M(v[0]);', 'structures returned in memory')
    f('int v[a]; for (int i = 0; i < a; i++) v[i] = x; r = P_dbl(1.5, a, 2.0) + P_sum(a, v);', 'floating arguments'); f('int v[P_sum(a > 2 ? 2 : 1, (int[]){1, 1}) + a]; r = sizeof v;', 'calls in the size'); f('int v[a]; long s = 0; for (int i = 0; i < a; i++) v[i] = P_cnt(&x, i & 3); r = P_sum(a, v) + (x & 255);', 'calls in a loop', pre=SZ + ' && x >= 0 && x < 100')
    f('struct P_S s[a]; for (int i = 0; i < a; i++) { s[i].c = i; s[i].l = x + i; s[i].s = -i; } struct P_S t = s[a - 1]; s[0] = t; r = s[0].c + s[0].l * 3 + s[0].s * 5 + sizeof s;', 'structures'); f('char v[a * b]; char *q = v + a * b; while (q > v) { q--; *q = q - v; } for (int i = 0; i < a * b; i++) P_M(v[i]);', 'filled from the end')
    f('int v[a], *q = &v[a - 1], w[b]; *q = 5; w[0] = *q + 1; r = v[a - 1] * 10 + w[0]; r += sizeof w;', 'several declarators'); f('int v[1 ? a : b], w[(a, b)], u[a > b ? a : b]; r = sizeof v * 10000 + sizeof w * 100 + sizeof u;', 'size expressions')
    for t in ['char', 'unsigned char', 'short', 'long', 'unsigned long', 'unsigned', '_Bool']: f('%s n = a; int v[n]; v[n - 1] = 3; r = sizeof v + v[n - 1];' % t, 'size of type ' + t)
    f('enum { K = 3 }; const int c = 2; int v[c], w[K]; v[c - 1] = 4; w[2] = 5; r = sizeof v + sizeof w * 10 + v[1] + w[2] + a;', 'constant objects as sizes')
    # arrays of growing and shrinking size in the same iteration: those declared later must move
    SM = 'a >= 1 && a <= 2 && b >= 1 && b <= 2'
    for g1, g2 in [('i * a', 'b'), ('(4 - i) * a', 'b'), ('b', 'i * a'), ('i * a', 'i * b')]:
        f('for (int i = 1; i <= 3; i++) { int n = %s, m = %s, v[n]; for (int k = 0; k < n; k++) v[k] = x + k; int w[m]; for (int k = 0; k < m; k++) w[k] = ~k; for (int k = 0; k < n; k++) P_M(v[k]); for (int k = 0; k < m; k++) P_M(w[k]); }' % (g1, g2), 'two arrays per iteration, sizes %s and %s' % (g1, g2), pre=SM)
        f('for (int i = 1; i <= 3; i++) { int n = %s, m = %s, v[n]; for (int k = 0; k < n; k++) v[k] = x + k; for (int j = 1; j < 3; j++) { int w[m * j]; for (int k = 0; k < m * j; k++) w[k] = ~k; P_M(w[m - 1]); } char u[m]; u[m - 1] = 4; for (int k = 0; k < n; k++) P_M(v[k]); }' % (g1, g2), 'an array, a nested loop and another array, sizes %s and %s' % (g1, g2), pre=SM)
    f('int i = 1; again: { int n = i * a, v[n]; for (int k = 0; k < n; k++) v[k] = x - k; int w[b], u[i]; for (int k = 0; k < b; k++) w[k] = k; for (int k = 0; k < i; k++) u[k] = 9; for (int k = 0; k < n; k++) P_M(v[k]); for (int k = 0; k < b; k++) P_M(w[k]); } if (i++ < 3) goto again;', 'three arrays between label and goto', pre=SM)
    return p
PRE2 = PRE + '''static long P_p1(int n, int v[n]) { return sizeof v * 100 + v[n - 1]; }
static long P_p2(int n, int v[static 1][n]) { return v[1][n - 1] + sizeof *v * 100; }
static long P_p3(int n, int m, char v[n][m][2]) { return sizeof *v * 1000 + sizeof **v * 100 + v[n - 1][m - 1][1]; }
static long P_p4(int n, int (*q)[n]) { q++; return (*q)[0] + sizeof *q * 10; }
static long P_p5(int n, int v[n + 1][n * 2]) { return sizeof v[0] + v[1][0] * 100; }
static long P_p6(int n, int v[*][*]); static long P_p7(int n, int v[const restrict n]); 
static long P_p7(int n, int v[const restrict n]) { return v[0] + n; }
static long P_rec(int n) { if (!n) return 1; int v[n]; for (int i = 0; i < n; i++) v[i] = n * 10 + i; long r = P_rec(n - 1); for (int i = 0; i < n; i++) P_M(v[i]); return r; }
'''
def params():
    p = Prog('vlapar', PRE2)
    def f(body, desc=None, params=N, pre=SZ): p.fn('long', params, 'long r = 1; %s return r;' % body, desc=desc or body[:150], pre=pre, conc=3)
    M = 'int m[24]; for (int i = 0; i < 24; i++) m[i] = x + i * i; '
    f(M + 'r = P_p1(a, m);'); f(M + 'r = P_p2(a, (int (*)[a])m);'); f('char m[24]; for (int i = 0; i < 24; i++) m[i] = i; r = P_p3(a, b, (char (*)[b][2])m);'); f(M + 'r = P_p4(b, (void *)m);'); f(M + 'r = P_p5(b, (void *)m);'); f(M + 'r = P_p7(a, m);'); f('r = P_rec(a);', 'recursion')
    f('int v[a][b]; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) v[i][j] = x - i * j; r = P_sum2(a, b, v); P_M(P_p4(b, v - 0));', pre=SZ + ' && a > 1')
    return p
def rand(R, n):
    p = Prog('rnd', PRE)
    for k in range(n):
        names = []; d = ''; use = ''
        def size(): return R.choice(['a', 'b', 'a + 1', 'b * 2', 'a + b', '2', '3'])
        def block(depth):
            t = ''; mine = []
            for _ in range(R.choice([1, 2])):
                v = 'v%d' % len(names); ty = R.choice(['char', 'int', 'long', 'short', 'unsigned char']); two = R.random() < .3; s1 = size(); s2 = size()
                names.append(v); mine.append((v, two, s1, s2)); t += '%s %s[%s]%s; ' % (ty, v, s1, '[%s]' % s2 if two else '')
                t += 'for (int i = 0; i < %s; i++) ' % s1 + ('for (int j = 0; j < %s; j++) %s[i][j] = (x >> i & 7) * 3 + j; ' % (s2, v) if two else '%s[i] = (x >> i & 15) + i; ' % v)
            x = R.random()
            if depth and x < .5: t += '{ %s } ' % block(depth - 1)
            elif depth and x < .8: t += 'for (int k%d = 0; k%d < %s; k%d++) { %s %s } ' % (depth, depth, R.choice(['2', 'b']), depth, block(depth - 1), R.choice(['', '', 'if (k%d == 1) break; ' % depth, 'if (r & 1) continue; ']))
            else: t += 'P_M(P_many(a, b, 1, 2, 3, 4, r & 255, 6, 7, 8)); '
            for v, two, s1, s2 in mine: t += 'P_M(sizeof %s + %s); ' % (v, '%s[%s - 1][%s - 1] + %s[0][%s - 1] + sizeof *%s' % (v, s1, s2, v, s2, v) if two else '%s[%s - 1] + %s[0]' % (v, s1, v))
            return t
        p.fn('long', N, 'long r = 1; %s return r;' % block(2), desc='random nest %d' % k, pre='a >= 1 && a <= 3 && b >= 1 && b <= 2', conc=3)
    return p
def check():
    c = core.Check('C19'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 61 + 19)
    c.bounds = ['array sizes from two symbolic bytes (1..4, 1..3) and symbolic contents; fixed functions per rule and random nests of blocks and loops with arrays of up to two dimensions; up to 700 iterations for the release of space']
    c.outside = ['arrays larger than the stack', 'sizes that are not positive (undefined)', 'order of evaluation between the sizes of one declarator']
    tv.jobs(c, fixed(), per=4); tv.jobs(c, params(), per=4); tv.jobs(c, rand(R, 16 if quick else 250), per=2)
    return c
