"""C18: what is written depends on the source text and the options only."""
import random, re, glob, sys
import core, lit
from lit import H, Cases
sys.path.insert(0, core.VERIF + '/tools')
import c22_tables as TB
import c15
CO = '-c\n-o\nt.o'
PROGS = {
 'data': 'struct s { char c; int i; char d; double f; struct { char a; long b; } n[2]; } v = {1, 2, 3, 1.5, {{4, 5}}}, w = {.d = 1}, *p = &v, z; char *s[] = {"abc", 0, "def"}; static int t[5] = {[3] = %s}; const char k[] = "k"; int *q = &t[2]; union { char a; long b; } u = {3}; _Bool b = 1; float f = 1.25f; long double l; struct { int a : 3; long long b : 40; char c : 2; } bf = {1, 2, 1}; enum { A, B } e = B; extern int x; int *xp = &x + 2;',
 'locals': 'struct s { char c; int i; char d; double f; }; int g(struct s, ...); int f(int a) { struct s x = {1, %s}, y = x, z; int r[4] = {a}, n; z = y; char t[] = "abc"; union { char a; long b; } u = {1}; struct { int a : 3, b : 5; } bf = {a, 1}; n = g(z, y.f, r, t, u.a); static int k = 3; k += n; return (struct s){.i = a}.i + bf.a + k; }',
 'control': 'int f(int a, int *p) { int r = 0; for (int i = 0; i < a; i++) { if (i % 2) continue; switch (i) { case 1: r++; case %s: r += 2; break; default: r = -1; } while (r > 100) { r /= 2; if (p[r]) break; } do r++; while (r < 0 && p); l: if (r == 5) goto l; } return a ? r : a && r || p[0]; } static int h(void) { return 1; } int m(void) { return h() + f(1, 0); }',
 'floats': 'double f(double a, float b, int c) { float x = a; double y = b + c; unsigned long u = a; long s = b; y += u; x -= s; if (a < b) y = -y; return x * y / %s.5 + (a == b) + !a; } float g(float *p) { *p += 1; return (*p)++; }',
 'calls': 'struct a { char c[3]; }; struct b { long x, y, z; }; struct d { double x; float y; }; struct a fa(struct b, struct d, int, ...); struct b fb(struct a *p) { struct b r = {p->c[0], %s}; return r; } int f(struct d d) { struct b b = fb(0); struct a a = fa(b, d, 1, 2.0, d, b); int (*p)(struct d) = f; return a.c[1] + p(d) + fb(&a).z; } int v(int n, ...) { __builtin_va_list l; __builtin_va_start(l, n); struct d d = __builtin_va_arg(l, struct d); long k = __builtin_va_arg(l, long); __builtin_va_end(l); return d.x + k; }',
 'vla': 'int g(int *); int f(int n) { int a[n], b[n][%s]; for (int i = 0; i < n; i++) { char c[i + 1]; c[i] = a[i] = b[i][0]; g(a); } return sizeof b + a[n - 1]; }',
 'macros': '#define CAT(a, b) a##b\n#define STR(x) #x\n#define V(f, ...) f(__VA_ARGS__)\nint CAT(x, %s) = __LINE__; char *s = STR(a "b\\n" \'c\' + 1) __FILE__; int V(CAT, y, z);\n#if defined CAT && (3 > 2)\nint k;\n#else\nint j;\n#endif\n#undef STR\n#define STR 3\nint r = STR;\n#pragma pack(push, 1)\nstruct p { char a; int b; } p;\n#pragma pack(pop)\n',
 'strings': 'char a[] = "x" "y\\x41\\101", *b = u8"z"; int w[] = L"abc\\u00e9"; unsigned short u[] = u"q", *v = u"q2"; char *c = "tail", *d = "tail", e[8] = "%s"; int f(void) { return "abc"[1] + L"x"[0] + \'a\' + L\'b\'; }',
 'operators': 'unsigned char uc; short s; unsigned u; long l; unsigned long ul; _Bool b; int *p; int f(void) { uc += %s; s <<= 2; u >>= 3; l *= uc; ul /= l; b = ul; l %= 7; u ^= ~s; p += l; p -= 1; l = p - (int *)0; uc++; --s; b |= u & 1; return p[l] + (u, s) + sizeof(l) + -u + !b + (uc < s) + (l >= ul); }',
 'generic': 'int f(long x, double d) { return _Generic(x, int: 1, long: %s, default: 3) + _Generic(d, double: 1, default: 2) + sizeof(struct { char a; int b; }) + _Alignof(double) + __builtin_offsetof(struct { char a; int b; }, b); } _Alignas(16) int al; _Static_assert(sizeof(int) == 4, "x"); _Noreturn void nr(void); inline static int il(void) { return 1; } extern int il2(void); int il3(void) { return il() + il2(); }',
}
for k, v in TB.BASES.items(): PROGS['base ' + k] = v + ' int end = %s;'
OPTS = [('-c', CO), ('-S', '-S\n-o\nt.s'), ('-E', '-E')]
MAIN = 'char g0[3] = {1, 2}; _Alignas(16) char al = 1; int g1 = 3; static long g2; double d = 1.5; char *s = "abc", *t = &g0[1]; int g(char *a, double b) { return a[0] + b; } int main(void) { g2 += g1 + al; return g(t, d) + %s; } void _start(void) { main(); for (;;) ; }'
def programs(quick):
    C = Cases('program')
    for k, v in PROGS.items():
        for o, a in OPTS: C.add('%s (%s)' % (k, o), v.replace('%s', H), ['07'], '(void)h; (void)e;', a)
        for fl in (['-fpic'] if 0 else []) + ['-fabi=ms', '-fcmodel=large', '-O2', '-MD', '-DX=1\n-Ifoo', '-fdebug-stack-size']:
            if quick and k not in ('data', 'locals', 'calls'): continue
            C.add('%s (%s)' % (k, fl.replace('\n', ' ')), v.replace('%s', H), ['07'], '(void)h; (void)e;', fl + '\n' + CO)
    X = '-o\nt.out'; C.add('an executable', MAIN.replace('%s', H), ['07'], '(void)h; (void)e;', X)
    for k in ('data', 'control', 'calls', 'strings', 'operators', 'floats'): C.add('an executable of ' + k, PROGS[k].replace('%s', H) + ' extern int x; int x; void _start(void) { for (;;) ; }' + (' struct a fa(struct b p, struct d q, int n, ...) { struct a r = {{p.x, q.y, n}}; return r; }' if k == 'calls' else ''), ['07'], '(void)h; (void)e;', X)
    C.add('an executable of two files', MAIN.replace('%s', H) + '\x02u.c\x02char u0 = 1; int u1[5] = {2}; static long u2[3]; int *u3 = &u1[2]; long u(int a) { return u2[a] + *u3; }', ['07'], '(void)h; (void)e;', 'u.c\n' + X)
    return C
def rejected(R, n):
    C = Cases('rejected'); l = []
    for _, pre, ex, cx in TB.VIOL:
        for v in ex: l.append((pre, v, R.choice(cx)))
    for pre, v, c in R.sample(l, min(n, len(l))): C.add('violation %s in %s' % (v[:40], c[:30]), pre + c.replace('@', v) + '\n', [], '(void)h; (void)e;')
    return C
def contexts(R, n):
    """the source texts of C15 with one arbitrary byte"""
    C = Cases('context'); src = [x for x in c15.contexts().l if H in x[1] and H not in x[2]]
    for name, s, args, sets, ref in R.sample(src, min(n, len(src))):
        k = s.count(H); q = ''.join(c if c != H else None or H for c in s); p = q.split(H); q = p[0] + H + ''.join(p[1:]) # one of the holes
        C.add(name, q, ['!\x01\xff' if 0 else ''], '(void)h; (void)e;', args)
    return C
def corpus(R, n):
    C = Cases('corpus')
    fs = sorted(glob.glob(core.REPO + '/tests/*.c')); 
    return C
def check():
    c = core.Check('C18'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 67 + 18)
    c.bounds = ['two runs of the compiler on the same text, every allocation and every local of each run starting with a symbolic byte of its own, repeated through the object; the allocations of the second run lie elsewhere and in the opposite order', '%d programs that cover the constructs of the language, with a symbolic digit, as object, assembly, preprocessed text and executable' % len(PROGS), 'rejected programs and texts with an arbitrary byte: the same status and message', 'the options -mcmodel/-fabi/-fdebug-*/-MD/-D/-I on chosen programs']
    c.outside = ['uninitialised objects whose bytes differ among each other', 'orders of addresses other than ascending and descending', 'the host file system and the clock (__DATE__, __TIME__)']
    c.assumptions = ['a violation is confirmed with two native builds (locals zeroed, locals filled with a pattern) and glibc allocation patterns']
    lit.jobs(c, programs(quick), per=2, harness='det.c', uninit=True)
    lit.jobs(c, rejected(R, 60 if quick else 1000), per=6, harness='det.c', uninit=True)
    lit.jobs(c, contexts(R, 30 if quick else 1000), per=1, harness='det.c', uninit=True)
    return c
