"""C11: the text that -S writes and the object that -c writes say the same."""
import random
import core, lit
from lit import H, Cases
import c18
IT = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', '_Bool']
FT = ['float', 'double']; T = IT + FT
REF = '(void)h; (void)e;'
def O(bits):
    """an octal constant of that many symbolic bits: holes and their sets"""
    k = bits // 3; r = bits % 3
    return ('0' + (H if r else '') + H * k, (['01'] if r else []) + ['07'] * k)
def fill(s, *bits):
    """each %s becomes a constant of so many bits (0: a plain hole, given as a set string)"""
    sets = []; out = []
    for b in bits:
        if isinstance(b, str): out.append(H); sets.append(b)
        else: t, q = O(b); out.append(t); sets += q
    return s % tuple(out), sets
def forms(quick):
    C = Cases('form'); add = lambda n, s, sets, args='': C.add(n, s + '\n', sets, REF, args)
    # every bit of the constants is symbolic
    for t in IT[:-1] + ['long long']:
        add('constants of type ' + t, *fill('%s f(%s a) { a += (%s) %%s; return a; } %s v = (%s) %%s;' % (t, t, t, t, t), 64, 64))
        add('negative constants of type ' + t, *fill('%s g(%s a) { if (a > -%%s) return (%s) -%%s; return a - %%s; }' % (t, t, t), 31, 63, 31))
    add('constants in data', *fill('long a[] = {%s, -%s, 3}; char c[] = {%s, 1, -%s}; struct { short s; long l; char x; } s = {%s, %s, -%s}; unsigned u = %s; double d = %s;', 64, 31, 7, 7, 15, 63, 6, 31, 31))
    add('addresses in data', *fill('int x[4096], y; extern int z[]; int *a = &x[%s], *b = &x[1] - %s, *c = &y, *d = z + %s; char *s = "abc" + %s;  void f(void); void (*pf)(void) = f; static int st[5], *ps = &st[%s];', 12, 12, 28, 3, 3))
    add('far addresses in data', *fill('extern char z[]; char *a = z + %s, *b = z - %s; struct { char c; char *d; } s[2] = {{1, z + 1}, {2, &z[%s]}};', 60, 40, 6))
    add('alignment', *fill('char a = %s; _Alignas(16) int b = %s; static char c = 1; _Alignas(32) char d[3] = {1}; struct { _Alignas(16) char x; } e = {3}, g[2]; char k; static _Alignas(64) short l; _Alignas(4) char m[5] = "abcd"; _Alignas(16) char n = 1; double o = 1.5; char *f(void) { static _Alignas(32) char q = 2; static char r; l++; return &q + d[1] + k + r + c; } char *p = "ab", *w = "c";', 6, 31))
    add('addresses in code', *fill('int x[4096]; static int y[8]; extern char z[]; int *f(void) { return &x[%s]; } int *g(void) { return &y[1]; } char *h(void) { return z + %s; } char *s(void) { return "abc" + 1; } void *p(void) { return f; } int r(void) { return x[%s] + z[5]; }', 12, 31, 12))
    add('addresses in data (Microsoft)', *fill('int x[4096], y; extern char z[]; int *a = &x[%s], *b = &x[1] - %s, *c = &y; char *d = z + %s, *e = z - %s, *f = z - 1, *g = "abc" + %s; void k(void); void (*pf)(void) = k; static int st[5], *ps = &st[%s]; struct { char c; char *d; } s[2] = {{1, z + 1}, {2, &z[%s] - 9}};', 12, 12, 30, 30, 3, 3, 6), '-fabi=ms')
    add('constants in data (Microsoft)', *fill('long a[] = {%s, -%s, 3}; char c[] = {%s, 1, -%s}; long long w[] = {%s, -%s}; struct { short s; long long l; char x; } s = {%s, %s, -%s}; unsigned u = %s; double d = %s; _Alignas(16) char n = 1; static _Alignas(64) short l; short *f(void) { return &l; }', 31, 31, 7, 7, 64, 63, 15, 63, 6, 31, 31), '-fabi=ms')
    A = '#;'; add('strings', *fill('char a[] = "x%s%s", *b = "%s\\%s%sy", c[9] = "%s"; int w[] = L"%s"; unsigned short u[] = u"%s"; char n[3] = {"a\\%s%s"};', A, A, '!\x01\t\x0b\x0c\x0e!#>@[]~', '07', '07', A, A, A, '03', '07'))
    for k in (0, 1): add('string bytes' + (' in code' if k else ''), ('int g(char *); int f(void) { return g(%s); }' if k else 'char a[] = %s;') % ('"' + ''.join('\\%s%s%s' % ((H,) * 3) if 0 else '\\' + H + H + H for _ in range(1)) + '5"'), ['03' if 0 else '!03', '!07', '!07'])
    add('strings in code', *fill('int g(char *); int f(void) { g("a%s"); g("\\%s%s\\n\\t\\"\\?\\\\\\177\\377"); g(""); return g("%s"); } char *q(void) { return "tail\\0%s"; }', A, '07', '07', A, A))
    add('bit-fields', *fill('struct s { unsigned a : 3; long b : 4%s; int c : 1; } v = {%s, %s, 0}; int f(struct s *p) { p->a = %s; p->b += %s; return p->c + p->a; }', '!07', 3, 31, 3, 31))
    add('cases of a switch', *fill('int f(unsigned long a) { switch (a) { case 01%s: return 1; case 0x80000000%s: a++; default: return 3; case 5: return a; } }', 60, '07'))
    add('shifts and masks', *fill('long f(long a, unsigned b) { a <<= %s; b >>= %s; a &= %s; a |= -%s; return a ^ b / %s; }', 6, 3, 64, 31, 15))
    add('frames', 'int g(char *); int f(int a) { char x[%s%s]; int y = a; x[y] = g(x); return y + x[3]; }' % (H, H), ['!19', '!09'])
    add('large frames', 'int g(char *); int f(int a) { char x[%s0]; int y = a; x[y] = g(x); return y + x[3]; }' % (H * 4), ['!13', '!09', '!05', '!01'][:4] if not quick else ['!12', '!03', '!00', '!01'])
    add('members', 'struct s { char p[%s]; int i; char c; double d; struct { short s; float f; } n; }; int g(struct s); int f(struct s *p, struct s q) { q.i = p->c; p->n.f = q.d; p->n.s += q.i; *p = q; return g(*p) + q.n.s; }' % (H * 2), ['!19', '!09' if not quick else '!0055'])
    add('large members', 'struct s { char p[%s00]; int i; char c; double d; long l; }; int f(struct s *p) { p->i = p->c; p->d += p->l; return &p->l - &((struct s *)0)->l; }' % (H * 2), ['!19', '!0055'])
    add('array elements', 'long a[999]; int f(long *p, int i) { p[%s] = a[%s]; a[i] = p[-%s]; return sizeof(a) + a[i + %s]; }' % (H * 2, H * 3, H * 2, H), ['19', '09', '19', '09', '09', '19', '09', '09'])
    add('stack arguments', 'struct b { char c[%s]; }; int g(int, ...); int f(struct b b, double d, float e, char c) { return g(1, b, d, e, c, b, 2L, 3, 4, 5, 6, 7, 0%s, b); }' % (H * 2, H * 10), ['!14', '!09'] + ['07'] * 10)
    add('flags', 'int g(int); static int s = 0%s; double d; int f(int a, ...) { char x[300]; double y = a + d; s += a; return g(s) + x[0] + y; }' % (H * 10), ['07'] * 10, '-fcmodel=large'); add('flags, Microsoft', 'int g(int, ...); static int s = 0%s; double d; struct q { char c[5]; }; int f(int a, struct q b, double c, float e, ...) { char x[300]; double y = a + d; s += a; return g(s, b, c, y, e) + x[0] + y; }' % (H * 10), ['07'] * 10, '-fabi=ms')
    for o in ('-fcmodel=large', '-fabi=ms', '-fcmodel=large\n-fabi=ms'): add('addresses (%s)' % o.replace('\n', ' '), 'int x[4096]; static int y[8]; extern char z[]; int f2(int); int *f(void) { f2(x[3]); return &x[0%s]; } int *g(void) { f(); return &y[1]; } char *h(void) { return z + 0%s; } char *s(void) { return "abc" + 1; } void *p(void) { return f; } double d(float a) { return a * 1.5 + (a < 2) - (int)a; }' % (H * 4, H * 10), ['07'] * 14, o)
    for k, v in c18.PROGS.items():
        add('program ' + k, v.replace('%s', H), ['37'] * v.count('%s'))
        if k in ('locals', 'calls', 'vla', 'control'): add('program %s (Microsoft)' % k, v.replace('%s', H), ['37'] * v.count('%s'), '-fabi=ms')
    return C
def ops(quick, R):
    """every operator, conversion, parameter and return type of the language"""
    C = Cases('operators'); add = lambda n, s: C.add(n, s.replace('@', H) + '\n', ['09'] * s.count('@'), REF, '')
    for t in T:
        add('binary operators on ' + t, ' '.join('%s b%d(%s a, %s b) { return a %s b; } int c%d(%s *a, %s b) { *a %s= b; return *a %s 1@; }' % (t, k, t, t, o, k, t, t, o, o) for k, o in enumerate(['+', '-', '*', '/'] + ([] if t in FT else ['%', '&', '|', '^', '<<', '>>']))))
        add('comparisons of ' + t, ' '.join('int b%d(%s a, %s b) { if (a %s b) return a %s 3@; return (a %s 2) + !(b %s a); }' % (k, t, t, o, o, o, o) for k, o in enumerate(['<', '<=', '>', '>=', '==', '!=', '&&', '||'])))
        add('unary operators on ' + t, '%s a(%s x) { return -x; } %s b(%s x) { return +x; } int c(%s x) { return !x; } %s d(%s *x) { return (*x)++ + --*x; } %s e(%s x) { return x++ ? --x : 2@; } int w(%s x) { while (x) x--; for (; x; x += 1@) ; do x++; while (!x); if (x) return 1; return x ? 5 : 6; } ' % ((t,) * 10) + ('' if t in FT else 'long g(%s x) { return ~x; }' % t))
        for u in T: add('conversion of %s to %s' % (t, u), '%s f(%s x) { return x; } %s g(%s *x) { return *x; } void h(%s *p, %s x) { *p = x; p[1] = 3@; } %s v; void k(%s x) { v = x; v += x; }' % (u, t, u, t, u, t, u, t))
        add('parameters of type ' + t, 'typedef %s T; T f(T a, T b, T c, T d, T e, T f, T g, T h, T i, T j); T g(int x, T a, double y, T b, float z, T c, struct { char c[3]; } *q, T d, T e, T f2, T g2, T h2, T i2) { T l[4] = {a, b, c, d}; l[x] = h2; return f(a, b, c, d, e, f2, g2, h2, i2, l[2]) + l[1] + f(1, 2, 3, 4, 5, 6, 7, 8, 9, x); } T (*pf)(T, ...) = 0; T h(T a) { return pf(a, a, 3@, 2.5f, a); }' % t)
    for k in range(1, 41): add('structs of %d bytes' % k, 'struct s { char c[%d]; } v, w[3]; struct s g(struct s, int); struct s f(struct s a, struct s *p, int i) { struct s l = a, z = {0}; w[i] = *p; v = z; l = i ? a : v; *p = g(l, 4@); return g(*p, w[i].c[0]); }' % k)
    for k, m in enumerate(['double d;', 'float f;', 'float f, g;', 'double d; long l;', 'long l; double d;', 'float f; int i; double d;', 'double d, e;', 'char c; double d;', 'float f[3];', 'float f[4];', 'long a, b;', 'short s; float f; char c;', 'long double x;' if 0 else 'double x; char c;', 'int a; struct { float b; char c; } n;', 'union { double d; long l; } u; float f;', 'void *p; float f;', 'double a[3];'])   : add('structs {%s}' % m, 'struct s { %s }; struct s g(struct s, double, struct s); struct s f(struct s a, int i, struct s b) { struct s l[2] = {a, b}; return g(l[i], i, b); } int v(int n, ...) { __builtin_va_list l; __builtin_va_start(l, n); struct s x = __builtin_va_arg(l, struct s); n = __builtin_va_arg(l, int) + __builtin_va_arg(l, double); __builtin_va_end(l); g(x, n, x); return v(2, x, n, 1.5, x); }' % m)
    add('pointers', 'struct s { int a; char b[5]; } *q; int *f(int *p, long i) { p += i; p -= 2@; p++; --p; return p + i; } long g(int *a, int *b) { return a - b + (q - (struct s *)a); } int c(int *a, int *b) { return a < b || a == 0 && *b || !a; } char *h(struct s *p, int i) { return &p[i].b[i] + (p + 1)->b[2]; } void *k(long x) { return (void *)x; } int l(int (*p)[3], int i) { return p[i][1]; }')
    add('calls', 'int f(); int g(int (*p)(int), int a) { return p(a) + (*p)(2@) + f(1, 2.0, 3L); } void v(void) { return; } int r(int n) { return n ? r(n - 1) + r(n - 2) : 1; } static int s(int a) { return a; } int t(void) { int (*q)(int) = s; v(); return q(3) + s(4); } double d(double); float e(float x) { return d(x) + e(1.5f); } void u(char a, short b, unsigned char c, _Bool e2) { u(b, a, 300, a); }')
    return C
def check():
    c = core.Check('C11'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 71 + 11)
    c.bounds = ['about 30 program forms in which every digit of constants of up to 64 bits (immediates), array indices and offsets is symbolic; frame and member offsets from 1 to 99 and chosen ones up to 13510 one path per value', 'every operator, comparison and conversion between the arithmetic types, parameters and results of every type, structs of 1 to 40 bytes, with a symbolic digit'] + ([] if not quick else ['quick: a third of the conversions and struct sizes'])
    c.outside = ['instructions of the encoder table that code generation does not emit', 'the decimal formatting of numbers by the C library', 'debug comments', 'section flags and symbol types that do not change behaviour', '32-bit relocations: signedness of the overflow check']
    c.assumptions = ['the reading of the text (mnemonics, suffixes, operands, directives) is the check\'s own; on sampled paths and on every violation the GNU assembler\'s object for the same text is compared with that reading as well']
    lit.jobs(c, forms(quick), per=1, harness='asm.c')
    o = ops(quick, R)
    if quick: o.l = [x for x in o.l if not (x[0].startswith('conversion') or x[0].startswith('structs of')) or R.random() < .35]
    lit.jobs(c, o, per=4, harness='asm.c')
    return c
