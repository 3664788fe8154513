BASES = {
'decl': 'int a, *b; static const unsigned long c = 1; extern int d[3]; typedef int T; T e; int f(int x, T y), (*g)(void);',
'struct': 'struct s { int a; unsigned b : 3, : 2; struct t *p; union { char c; float d; }; int e[4]; } v; enum k { A, B = 5, C }; struct s *q = &v;',
'init': 'int a[3] = { 1, 2 }; struct s { int x, y[2]; } b = { .x = 1, .y = { [1] = 3 } }; char *s = "abc"; char t[] = { "x" }; int *p = &a[1];',
'stmt': 'int f(int a, int *b) { int i; if (a) i = 1; else { i = 2; } while (a) a--; do b++; while (*b); for (i = 0; i < 3; i++) ; for (int j = 0; ; ) break; return i; }',
'switch': 'int f(int a) { switch (a) { case 1: a = 2; break; case 2 + 1: default: a++; } goto end; end: ; return a; } void g(void) { return; }',
'expr': 'struct s { int m; } v; int f(int a, int b, struct s *p, int *q) { a = b + 3 * a; b += q[1] - p->m; v.m = f(a, b, p, q) ? !a : ~b; q = &a, *q = (char)b; return a && b || a == b; }',
'cast': 'typedef struct { int a; } T; long f(T *p, double d) { long x = sizeof(T) + sizeof *p + sizeof(int (*)[3]); x = (long)d; *p = (T) { 3 }; x = _Generic(x, int: 1, long: 2, default: 3); return x + _Alignof(int); }',
'func': 'int f(int, char *); int g(int a, ...) { __builtin_va_list l; __builtin_va_start(l, a); a = __builtin_va_arg(l, int); __builtin_va_end(l); return a; } int h(void) { return f(1, "x") + g(1, 2); } _Static_assert(1, "m");',
'const': 'const int a = 3; int *const b = 0; struct { const int x; int y; } c; void f(const int *p, int q[]) { int r = a; c.y = 1; q[0] = *p + r; p = b; register int z; z = c.x + 1; _Noreturn void g(void); }',
}
import re
TOK = re.compile(r'"[^"]*"|[A-Za-z_]\w*|\d+|\.\.\.|->|\+\+|--|&&|\|\||[-+*/<>=!&|]=|\S')
def toks(s): return [(m.start(), m.end()) for m in TOK.finditer(s)]
CH = '()[]{};,:=.*&+-<>!~?%/|^#a1"\' '
PRE = 'int i, *p; const int ci = 1; const int *pc; int *const cp = 0; struct S { int i; const int c; int ar[3]; const int ca[2]; struct { int x; } in; } s, *ps; const struct S cs, *pcs; union U { int i; const int c; } u; int ar[4]; const int ca[3] = {1}; const int cm[2][2]; struct S fs(void); int f0(void), f2(int, int); int fv(int, ...); void vf(int); int (*pf)(int); struct F { int (*m)(int, int); } sf; enum E { A, B }; typedef int T; const T ct = 1; struct I; extern struct I inc; \n'
EX = r'''ci = 1;ci++;--ci;ci += 2;*pc = 1;pc[1] = 2;cp = 0;cp++;s.c = 1;ps->c++;cs.i = 1;pcs->i = 2;pcs->ar[1] = 3;s.ca[1] = 1;cs.in.x = 1;u.c = 1;ca[0] = 1;*ca = 1;cm[0][1] = 2;ct = 2;cs = s;(*pcs) = s;s = s;*&ci = 1;(ci) = 1;*(const int *)p = 1;ci <<= 1;(*pc)++;A = 1;A++;1 = i;i + 1 = 2;f0() = 1;(i ? i : i) = 1;(int)i = 2;-i = 1;!i = 1;i++ = 1;i++++;++i = 1;++i++;(i, i) = 1;fs().i = 1;fs() = s;(i = 1) = 2;sizeof(i) = 1;"a" = 0;ar = ar;f0 = 0;&1;&(i + 1);&f0();&i++;&(i, i);&(int)i;&A;&fs();&fs().i;&"a";&f0;f0(1);f2(1);f2(1, 2, 3);f2();vf();vf(1, 2);fv();pf();pf(1, 2);(*pf)();sf.m(1);sf.m(1, 2, 3);zz;zz();zz = 1;s.zz;ps->zz;u.zz;s.in.zz;fs().zz;i.x;i->x;p->x;ps.i;s->i;(zz)i;sizeof(zz);sizeof(struct zz);*i;**p;*s;i[i];p[p];s[0];i();p();s();(*i)();+p;-s;~1.0;~p;!s;p * 2;p % i;p & 1;1.0 % 2;i << 1.0;1.0 >> 1;p + p;i - p;p - s;p -= p;s + 1;s == s;p == 1;s && 1;s ? 1 : 2;i ? p : 1;i ? s : 1;i ? s : p;i ? (void)0 : 1;p + 1.0;(struct S)i;(int)s;(int *)1.0;(float)p;s = 1;i = s;p = s;s = p;vf(s);vf(vf(1));i = vf(1);vf(1) + 1;!vf(1);*(void *)p;sizeof(struct I);sizeof inc;inc;_Alignof(struct I);_Generic(i, float: 1);_Generic(i, int: 1, int: 2);_Generic(i, default: 1, default: 2);(int[2]){1,2,3};(int){1, 2};(struct S){.zz = 1};(int[2]){[2] = 1};(struct I){0};__builtin_offsetof(struct S, zz);ar++;ar += 1;f0++;s++;-ar;(T)s;p->i;pc = &zz;fs().ar = 0;p ? s : s;1 ? vf(1) : i;'a' = 1;(char)i++;&*1;&s.zz;vf(*(const void *)p)'''.split(';')
ST = r'''break;|continue;|case 1:;|default:;|goto zz;|goto 1;|if (1)|if () i = 1;|if (s) i = 1;|while (s) i = 1;|while () ;|while (1)|do i = 1; while (s);|do i = 1;|do ; while (1)|for (;;) int x;|if (1) int x;|for (i = 0; i < 3) ;|for (;;|for (; s;) ;|switch (p) {}|switch (s) {}|switch (1.0) {}|switch (i) { case 1: case 1: ; }|switch (i) { default: default: ; }|switch (i) { case 1.0: ; }|switch (i) { case i: ; }|switch (i) { case ci: ; }|l: ; l: ;|l: ; { l: ; }|return 1, ;|return zz;|else ;|i = ;|i|int x|int x, ;|int x; int x;|int x; float x;|int x; { int x; } int x;|static int x; extern int x;|extern int i; int i;|int x = 1; int x = 2;|static int x = i;|static int x; static int x;|int x = ;|int x = {};|int x = {1, 2};|int x[2] = {1,2,3};|int x[2] = 1;|int x[] ;|int x[0 - 1];|int x[1.0];|int x[p];|int x[s];|int x[];|struct S x = {.zz = 1};|struct I x;|void x;|struct zz x;|typedef int Q; int Q;|int Q; typedef int Q;|typedef int Q; typedef float Q;|typedef int Q = 1;|enum { Z, Z };|enum { Z }; int Z;|int Z; enum { Z };|enum { Z = i };|enum { Z = 1.0 };|struct { int a; int a; } x;|struct { int a; struct { int a; }; } x;|struct { int a : 33; } x;|struct { float a : 3; } x;|struct { int a : -1; } x;|struct { int a : 0; } x;|struct { int a : i; } x;|struct { void a; } x;|struct { struct I a; } x;|struct { int f(void); } x;|struct { int a[]; } x;|struct { int a[]; int b; } x;|struct Q { struct Q q; };|struct Q { int a; }; struct Q { int a; };|struct Q { int a; }; union Q x;|struct Q { int a; }; enum Q x;|enum Q { Z }; enum Q { Y };|_Static_assert(0, "m");|_Static_assert(i, "m");|_Static_assert(1.0, "m");|_Static_assert(1, 2);|_Static_assert(1, "m")|_Static_assert("x", "m");|int f(int) { }|int f(void) { return 1; }|int f(void)[3];|int f(void)(void);|int x[2](void);|int x[2][];|int (x;|int x);|int *;|unsigned float x;|long long long x;|short double x;|signed unsigned x;|int int x;|struct S int x;|T int x;|long char x;|int const;|register int x; &x;|register int x[3]; &x;|register struct S x; &x;|register struct S x; &x.i;|register struct S x; &x.ar[1];|register struct S x; x.ar;|register int x[3]; x + 1;|register int x[3]; &x[0];|static extern int x;|typedef static int x;|register static int x;|extern int x = 1;|int x : 3;|goto l; { int n = 2; int a[n]; l: ; }|goto l; int n = 2; int a[n]; l: ;|switch (i) { int n = 2; int a[n]; case 1: ; }|int n = 2; int a[n] = {1};|static int a[i];|extern int a[i];|struct { int a[i]; } x;|_Alignas(3) int x;|_Alignas(i) int x;|_Alignas(8) typedef int Q;|int f(int a, int a);|int f(void, int);|int f(int, void);|int f(a, b);|int f(int a b);|int f(...);|int f(int, ...,);|int f(static int a);|int f(int a = 1);|return|;;}|{|}|)|(|int x = (1;|i = (1;|i = 1);|i = ar[1;|f0(;|f2(1, ;|f2(1 2);|f2(, 1);|f2(1,, 2);|i ? 1;|i ? : 1;|i ? 1 :;|i +;|i + * ;|i == ;|sizeof;|sizeof();|sizeof(int;|sizeof(void ());|_Alignof();|(int;|(int)|(int){1;|(int){;|_Generic(i);|_Generic();|_Generic(i, int);|s.;|s.1;|ps->;|"a" 1;|1 2;|i i;|1a;|0x;|08;|1.2.3;|'';|'a;|"a;|@;|`;|$1;|\\;|#;|int 1x;|inline int x;|_Noreturn int x;|auto int x; auto y;|_Atomic x;|asm;|int x = sizeof(int[]);|int x = sizeof(void);|int f(struct I);|struct I g(void); g();|int (*x)(void) = 1.0;|int x = "a" + "b";|char x[2] = L"a";|int x[2] = "a";|char x[] = {"a", "b"};|char *x[1] = {"a", "b"};|struct S x = 1;|int x = s;|int *x = s;|int x = {{1, 2}};|vf(1)(2);|i.i;|if (i) else;|if i ;|while 1;|for ;|switch i;|do while (1);|case;|default;|goto;|goto l m; l: ;|continue 1;|break 1;|typedef;|static;|int x y;|int x, y z;|struct;|struct {} x;|enum;|enum {};|enum { , };|enum { Z, , };|enum { 1 };|enum Q x;|union;|struct { int };|struct { int a };|struct { int a, };|struct { a; };|struct S x.y;|int a[3;|int a[;|int a[3]];|int a[3] b;'''.split('|')
FS = r'''int x = 1; int x = 2;|int x; float x;|int x; static int x;|static int x; int x;|int x(void) { return 1; } int x(void) { return 2; }|int x(void); float x(void);|int x(int); int x(int, int);|int x(void); int x;|int x(int) { return 1; }|int x(int a) { return 1; } int x(float b);|int x = i;|int x = f0();|int x = ci;|int *x = &zz;|int x[i];|int x = s.i;|int x[] ;|int x[]; int x[3]; int x[4];|struct I x;|static struct I x;|void x;|extern void x;|auto int x;|register int x;|int x(void) = 1;|int x(void) { } ;|int x(int a) int a; { }|x;|x = 1;|x(void) { }|i = 1;|return 1;|{ }|if (1) ;|int x, y(void) { }|int x(void) int y;|static;|extern;|typedef int x; int x;|typedef int x; typedef char x;|int x; typedef int x;|enum { i };|enum Q { Z }; int Z;|struct S { int q; };|union S { int q; };|enum S { Z };|int x; int x(void);|_Static_assert(0, "m");|_Static_assert(sizeof(int) == 3, "m");|_Static_assert(1 "m");|_Static_assert(1, "m"|int x(int a, int a) { return 1; }|int x(int a) { int a; return 1; }|int x(struct I a) { return 1; }|struct I x(void) { }|int x(void) { return zz; }|#error x|#if 1\n#error x\n#endif|#if 1|#endif|#else|#elif 1|#if\n#endif|#if 1 +\n#endif|#define|#define 1|#define X(|#define X(a,|#define X(a a)|#define X(a, a)|#define X(...) #y|#define X(a) #b|#define X ##a|#define X a##|#undef|#undef 1|#include|#include x|#include "zz.h"|#include <zz.h|#line|#line x|#line 0|#foo|#define X(a) a\nint x = X(1, 2);|#define X(a, b) a\nint x = X(1);|#define X() 1\nint x = X(1);|#define X(a) a\nint x = X(1;|#define defined 1|#undef defined|#define X __VA_ARGS__|#define X(a) __VA_ARGS__|#ifdef\n#endif|#ifndef 1\n#endif|#if 1\n#else\n#else\n#endif|#if 1\n#else\n#elif 1\n#endif|#if 1.0\n#endif|#if "a"\n#endif|#if (1\n#endif|#if 1)\n#endif|#if 1 2\n#endif|#if defined\n#endif|#if defined(\n#endif|#if defined(X\n#endif|#if 1/0\n#endif|#if 1 ? 2\n#endif|#if a = 1\n#endif|#if 1++\n#endif|/* x|"x|_Pragma(1)|_Pragma("x"|#pragma pack(|#define X 1\n#define X 2|#ifdef X Y\n#endif|#endif x'''.replace('\\n', '\n').split('|')
CX = ['int main(void) { @; return 0; }', 'void vv(int a) { if (a) { for (;;) { (void)(@); } } }', 'int ff(int a) { return (@), a; }', 'int ff(int a) { switch (a) { case 1: ; { int i2 = 0; i2++; (void)(1 ? (void)(@) : (void)0); } default: return f2(((@), 1), 2); } }', 'int ff(int a) { if (0) while (a) { a = sizeof((@), a); } return 0; }', 'long ff(int a) { return ((@), 1) ? a : -a; }', 'void ff(int a) { if (((void)(@), a) && !a) a++; else ; }', 'int gg(int a) { return a; } int ff(int a) { int q[] = {gg(a), gg(((@), 2))}; return q[0]; }']
CS = ['int main(void) { @\n return 0; }', 'int ff(int a) { if (a) { @\n } return 0; }', 'int ff(int a) { do { while (a) { int k = 0; k++; { @\n } } } while (0); return 0; }' if 0 else 'int ff(int a) { int k = a; { { int k2 = 0; k2 += k; { @\n } } } return 0; }', 'int gg(void) { return 1; } void ff(int a, int b[a]) { @\n }', 'struct LL { int lq; } ll; int ff(int a) { if (!a) return 1; else { ll.lq = a; @\n } { int a = 3; return a; } }']
CF = ['@', 'int before(int a) { return a + 1; } @', 'struct LL { int lq; } ll = {1};\n@\nint after(void) { return 2; }', '#define MM(a) a\n#if 1\n@\n#endif\nint after(void) { return MM(2); }']
VIOL = [('expression', PRE, EX, CX), ('statement', PRE, ST, CS), ('file scope', PRE, FS, CF)]
LENIENT = {'for (;;) int x;', 'if (1) int x;', 'int x = ci;', '#pragma pack('}
