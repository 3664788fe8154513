"""C21: types of expressions."""
import random, re, subprocess, os
import core, lit
from lit import H, Cases

# D1, D2: array lengths (symbolic digits in the text given to the compiler under test)
DECL = r'''
typedef char ta; typedef signed char tb; typedef unsigned char tc; typedef short td; typedef unsigned short te; typedef int tf; typedef unsigned tg; typedef long th; typedef unsigned long ti; typedef long long tj; typedef unsigned long long tk; typedef float tl; typedef double tm; typedef _Bool tn;
struct S { int i; const int ci; char c; short s; int arr[D1]; const int carr[D2]; const char *p; int *q; int (*pa)[D2]; struct { float f; long l; } in; const struct { int ii; } cin; union { unsigned un; short us; }; };
union U { int i; const double d; int a[D2]; };
int fn(int); double fd(float, const char *); void fv(void); struct S fs(void); int *fp(void); const int *fcp(int *); int (*ffp(int))(int); int (*fpa(void))[D2]; int fvar(int, ...);
enum E { EA, EB = 7 };
typedef int AT[D1]; typedef int (FT)(int); typedef struct S ST; typedef const int CI; typedef int *IP; typedef const AT CAT;
'''
OBJ = r'''
char c; signed char sc; unsigned char uc; short sh; unsigned short us; int i; unsigned u; long l; unsigned long ul; long long ll; unsigned long long ull; float f; double d; _Bool b; const int ci = 1; const double cd = 1; const char cc = 1;
int ar[D1]; int ar2[D1][D2]; const int car[D2] = {1}; char str[D2]; int *p, *const cp = 0, *ap[D1], **pp; const int *pc, *const cpc = 0, **ppc; int *const *pcp; int (*pa)[D2]; const int (*pca)[D2]; int (*pa2)[D1][D2]; void *v; const void *cv; char *s1; const char *s2; double *pd;
struct S s, *ps, sa[D1]; const struct S cs, *pcs; union U un, *pun; const union U cun; FT *pf; FT *pfa[D2]; int (*(*pff)(int))(int); double (*pfd)(float, const char *); void (*pfv)(void); enum E e; CI tci = 2; IP tip; const IP ctip = 0; CAT cat; AT at; ST st; void **vv;
'''
LIST = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', '_Bool', 'int *', 'const int *', 'int **', 'const int **', 'int *const *', 'int (*)[D1]', 'int (*)[D2]', 'const int (*)[D2]', 'int (*)[D1][D2]', 'char *', 'const char *', 'void *', 'const void *', 'void **', 'double *', 'const double *', 'struct S', 'struct S *', 'const struct S *', 'union U', 'union U *', 'const union U *', 'int (*)(int)', 'int (**)(int)', 'double (*)(float, const char *)', 'void (*)(void)', 'struct S (*)(void)', 'int *(*)(void)', 'int (*(*)(int))(int)', 'int (**)[D2]', 'int (*const *)[D2]', 'const char **', 'const char *const *', 'int *(*)[D1]', 'char (*)[D2]', 'short *', 'const short *', 'unsigned *', 'float *', 'const float *', 'long *', 'int (*const *)(int)', 'int (*(*)[D2])(int)', 'struct S (*)[D1]', 'const int *const *', 'const int (*)[D1]', '_Bool *', 'int (*)(int, ...)', 'int ***', 'long long *', 'unsigned short *']
def tid(): return '#define TID(e) _Generic((e), %s, default: 0)\n' % ', '.join('%s: %d' % (t, k + 1) for k, t in enumerate(LIST) if t not in ('int (*)[D1]', 'const int (*)[D1]')) # lengths that may coincide would make two equal associations
ATOMS = '''c sc uc sh us i u l ul ll ull f d b ci cd cc ar ar2 car str p cp ap pp pc cpc ppc pcp pa pca pa2 v cv s1 s2 pd s ps sa cs pcs un pun cun pf pfa pff pfd pfv tci tip ctip cat at st vv
fn fd fv fs fp fcp ffp fpa fvar EA EB 1 1u 1L 1ul 1.0 1.0f 0 0L 'a' L'a' u'a' U'a' "abc" u"abc" (void*)0 (char)1 (const`int)1 (struct`S*)0 (int[D2]){1} (const`int[D1]){1} (const`int){3} (struct`S){1} (CI){1} &i &ci &ar &ar2 &s &cs &fn &pa &p &cp *p *pc *pp *pa *pca *pa2 *fn *pf *&fn **pf &*p &*pc &*ar &ar[1] &car[1] ar[0] car[0] ar2[1] ar2[0][0] 1[ar] *ar *ar2 **ar2
s.i s.ci s.c s.s s.arr s.carr s.p s.q s.pa s.in s.in.f s.cin s.cin.ii s.un s.us cs.i cs.ci cs.c cs.arr cs.arr[0] cs.carr cs.p cs.q cs.pa cs.in cs.in.f cs.cin.ii cs.un *cs.p *cs.q ps->i ps->arr pcs->i pcs->arr pcs->in.f pcs->q pcs->un sa[0].i sa->c sa[0].arr un.i un.d un.a cun.i cun.d cun.a pun->d
&s.i &s.ci &s.arr &s.carr &s.in.f &s.cin.ii &cs.i &cs.arr &cs.arr[1] &cs.q &cs.in.f &cs.p &pcs->i &pcs->arr &pcs->s &pcs->in.f &cun.i &cun.a &pcs->us &ps->c &ps->cin.ii
fn(1) fd(1,s2) fs() fs().i fs().arr fp() *fp() fcp(p) *fcp(p) ffp(1) ffp(1)(2) fpa() *fpa() (*fpa())[0] fvar(1,2) pf(1) (*pf)(1) pfa[0](1) pff(1)(1) fv() &fs().arr[0]
i=1 c=1 f=1 p=0 s=st ci+0 cc+0 cc,cc c,c i+=1 c+=1 c<<=1L f+=1.0 p+=1 c++ ++c p++ --pp f++ us-- u*=2L b=2 b++ (i,ar) (i,s) (1,cs) (i,cs.arr) i?ar:0 i?cs:cs i?s:st i?c:c i?ci:ci i?f:1 i?cv:p i?p:pc i?pc:v i?v:pc i?(void*)0:p i?0:pc i?v:p i?fn:0 i?fn:pf i?pa:0 i?"a":s1 i?1:1u i?1.0f:1L i?uc:sc i?us:sh i?fv():fv() i?s1:s2 i?ar:car i?cp:cpc i?vv:0 i?v:0 i?(void*)0:0 i?ar2:pa i?cs.q:p i?cs.arr:ar i?&cs.i:&i
!p !f !s1 -c +c ~c -uc +us ~us -u -l -f +f ~b -b +ci -cd !ci p-p ar-p p+1 1+p ar+1 ar2+1 p-1 p==0 p<p c&&c i||f c<c f<d pc-p c<<1L l<<c u<<1ull c>>ul cs.c*cs.s cs.i+u
sizeof(int) sizeof`c _Alignof(int) sizeof(ar) (c) (cs) (ar) ((ci)) (p) (cs.i) (p-p) (char)i (CI)i (float)1 (_Bool)i (const`void*)p (int`(*)[D2])v (FT*)v ((struct`S*)v)->arr (*(const`int(*)[D2])v) ((const`struct`S*)v)->arr *(IP)v *(const`IP*)v'''.split()
ATOMS = [a.replace('`', ' ') for a in ATOMS]; ATOMS = ['(%s)' % a if ',' in a else a for a in ATOMS]
UNARY = ['TID(@)', 'TID(&(@))', 'TID(*(@))', 'TID(+(@))', 'TID(-(@))', 'TID(~(@))', 'TID(!(@))', 'TID((0, (@)))', 'TID(1 ? (@) : (@))', 'TID((@) + 1)', 'TID(1 + (@))', 'TID((@)[0])', 'TID(&(@)[0])', 'TID((@)++)', 'TID((@) = 0)', 'TID(--(@))', 'TID((@) += 1)', 'TID(&*(@))', 'TID((@)(0))', 'TID((@) << 1ul)', 'TID(*&(@))', 'TID(&(@)->arr)', 'TID((@).i)', 'TID(&(@)->ci)', 'TID(&(@).i)', 'TID((@) - (@))', 'TID((@) ? 1u : 2)', 'TID(i ? (@) : 0)', 'TID(i ? (void *)0 : (@))',
         'sizeof(@)', 'sizeof(*(@))', 'sizeof(&(@))', 'sizeof((@)[0])', 'sizeof *&(@)', 'sizeof(0, (@))', 'sizeof(+(@))', 'sizeof((@) + 0)', 'sizeof(**(@))', 'sizeof(*(@))[0]', 'sizeof(i ? (@) : (@))', 'TID(sizeof(@))', '_Alignof(@)', 'TID(*(@) + 0u)', 'TID(**(@))', 'TID(&**(@))', 'TID(&(*(@))[0])']
BIN = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||', ',', '=', '+=', '-=', '*=', '/=', '%=', '<<=', '&=', '|=', '?']
def clang(src, *a, run=False):
    d = core.BUILD if hasattr(core, 'BUILD') else '/tmp'
    import tempfile
    with tempfile.TemporaryDirectory() as t:
        open(t + '/a.c', 'w').write(src)
        if run:
            subprocess.run(['/usr/lib/llvm-18/bin/clang', '-w', '-O0', '-std=c11', t + '/a.c', '-o', t + '/a', *a], check=True, capture_output=True)
            return subprocess.run([t + '/a'], check=True, capture_output=True, text=True).stdout
        return subprocess.run(['/usr/lib/llvm-18/bin/clang', '-std=c11', '-fsyntax-only', '-pedantic-errors', '-Werror=incompatible-pointer-types', '-Werror=int-conversion', '-Wno-unused-value', '-Wno-gnu-alignof-expression', '-Wno-gnu-pointer-arith' if 0 else '-Wno-unused', '-ferror-limit=0', '-fno-caret-diagnostics', t + '/a.c', *a], capture_output=True, text=True).stderr
def instr(src, d1, d2): return '#define D1 %d\n#define D2 %d\n' % (d1, d2) + src
def evaluate(obs):
    """the observations that are valid, with their values as a function a + b*D1 + c*D2 + d*D1*D2 (clang)"""
    base = DECL + OBJ + tid() + 'void q(void) {\n'; off = (instr(base, 2, 6)).count('\n')
    err = clang(instr(base + ''.join('{ enum { x = %s }; }\n' % o for o in obs) + '}\n', 2, 6)); bad = {int(m) - off - 1 for m in re.findall(r'a\.c:(\d+):\d+: error', err)}
    good = [o for k, o in enumerate(obs) if k not in bad]
    # chunks of one function each
    fns = []; main = ''
    for k in range(0, len(good), 200): fns.append('void g%d(void) { static const long t[] = {%s}; for (int k = 0; k < sizeof t / sizeof *t; k++) __builtin_printf("%%ld\\n", t[k]); }' % (k, ', '.join('(long)(%s)' % o for o in good[k:k + 200]))); main += 'g%d(); ' % k
    stubs = 'int main(void) { %s }\n' % main; val = {}
    for d in ((2, 6), (3, 6), (2, 7), (3, 7), (5, 9)):
        src = instr(DECL + OBJ + tid() + '\n'.join(fns) + stubs, *d)
        src += 'int fn(int a) { return 0; } double fd(float a, const char *b) { return 0; } void fv(void) {} struct S fs(void) { return s; } int *fp(void) { return 0; } const int *fcp(int *a) { return 0; } int (*ffp(int a))(int) { return 0; } int (*fpa(void))[D2] { return 0; } int fvar(int a, ...) { return 0; }\n'
        val[d] = [int(x) for x in clang(src, run=True).split()]
    out = []
    for k, o in enumerate(good):
        v = {d: val[d][k] for d in val}; dd = v[3, 7] - v[2, 7] - v[3, 6] + v[2, 6]; b = v[3, 6] - v[2, 6] - 6 * dd; c = v[2, 7] - v[2, 6] - 2 * dd; a = v[2, 6] - 2 * b - 6 * c - 12 * dd
        if a + 5 * b + 9 * c + 45 * dd == v[5, 9]: out.append((o, (a, b, c, dd)))
    return out
def narrow(o, v):
    """the expected type and a catch-all are enough for the compiler under test"""
    if not o.startswith('TID(') or not v[0]: return o
    return '_Generic((%s, %s: %d, default: 0)' % (o[4:], LIST[v[0] - 1], v[0])
def group(C, name, obs, R, quick, per=120):
    obs = [(narrow(o, v), v) for o, v in obs if 'TID' not in o or v[0] and o.startswith('TID(')]
    for k in range(0, len(obs), per):
        part = obs[k:k + per]
        src = '#define D1 %s\n#define D2 %s\n' % (H, H) + DECL + OBJ + 'long w[] = {%s};\n' % ',\n'.join(o for o, _ in part)
        ref = 'long a = h[0] - 48, b = h[1] - 48; static const short t[][4] = {%s}; long *v = malloc(%d); for (int k = 0; k < %d; k++) v[k] = t[k][0] + t[k][1] * a + t[k][2] * b + t[k][3] * a * b; ex_bytes(e, "w", %d, v);' % (', '.join('{%d, %d, %d, %d}' % x for _, x in part), 8 * len(part), len(part), 8 * len(part))
        C.add('%s #%d' % (name, k), src, ['!' + R.choice('2345') * 2, '!' + R.choice('6789') * 2] if quick else ['!25', '!69'], ref); C.o.append(part)
PAIR = 'c sc uc sh us i u l ul ll ull f d b ci cd cc ar car str p cp ap pp pc cpc ppc pcp pa pca v cv s1 s2 s cs ps pcs un pf fn 0 (void*)0 1u 0L sizeof(int) pfd pd vv ar2 s.i cs.c pcs->arr EA 1.0f'.split()
def pairs(): return [o for o in _pairs() if o not in ('TID((i) ? (v) : (pca))', 'TID((i) ? (pca) : (v))') # C11 and C23 differ
  and not (re.match(r'TID\(\(b\) [-+]=', o) and not re.match(r'TID\(\(b\) [-+]= \((c|sc|uc|sh|us|u?[il]|u?ll|f|d|b|ci|cd|cc|0|1u|0L|1.0f|s.i|cs.c|sizeof.int.|EA)\)', o))] # clang adds a pointer to a _Bool, C does not
def _pairs(): return ['TID((%s) ? (%s) : (%s))' % ('i', a, b) if op == '?' else 'TID((%s) %s (%s))' % (a, op, b) for op in BIN for a in PAIR for b in PAIR]
BT = [('unsigned', 32, 0), ('int', 32, 1), ('signed', 32, 1), ('unsigned char', 8, 0), ('signed char', 8, 1), ('unsigned short', 16, 0), ('short', 16, 1), ('_Bool', 1, 0), ('unsigned long', 64, 0), ('long', 64, 1), ('unsigned long long', 64, 0)]
BOPS = ['+(@)', '-(@)', '~(@)', '(@) + (@)', '(@) << 1', '1 << (@)', 'i ? (@) : (@)', '(@) - 1', '1 - (@)', '(@) + 1u', '(@) * 1L', '(@) & 1ul', '(@) * 1.0f', 'i ? (@) : 1u', 'i ? 1 : (@)', '(@) >> 1ul', '(@) == 1', '!(@)', 'pb->x + 1', '(*pb).x | (@)', '(@) % 3', '(@) + c', 'us ^ (@)', '(@) + (char)1']
def bitfields(C):
    """promotion of bit-fields, for every width"""
    for t, w, sg in BT:
        w = min(w, 32) if w < 64 else 31 # wider ones have implementation-defined conversions
        for lo in (1, 10, 20, 30):
            if lo > w: continue
            hi = min(w, {1: 9, 10: 19, 20: 29, 30: 32}[lo])
            src = OBJ.replace('\n', ' ') .split('int ar[')[0] + 'struct B { %s x : %s; %s y : 1; } bf, *pb = &bf; char w[] = {%s};\n' % (t, (str(lo // 10) if lo >= 10 else '') + H, t, ', '.join('_Generic((%s), int: 1, unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, float: 7, default: 9)' % o.replace('@', 'bf.x') for o in BOPS))
            full = {'unsigned': 32}.get(t)
            ref = 'char i = 0, c = 0; unsigned short us = 0; char v[%d]; int W = h[0] - 48 + %d; ' % (len(BOPS), lo // 10 * 10)
            def side(x): return '{ %s X = 0; %s } ' % (x, ' '.join('v[%d] = _Generic((%s), int: 1, unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, float: 7, default: 9);' % (k, re.sub(r'@|pb->x|\(\*pb\)\.x', 'X', o)) for k, o in enumerate(BOPS)))
            ref += 'if (W >= 32 && !%d) %s else %s' % (sg, side('unsigned'), side('int')) + 'ex_bytes(e, "w", %d, v);' % len(BOPS)
            C.add('bit-field of type %s, width %d..%d' % (t, lo, hi), src, [('%d' % (lo % 10)) + '%d' % (hi % 10)], ref)
def symbolic(C):
    T = '_Generic((%s), int: 1, unsigned: 2, long: 3, unsigned long: 4, int *: 5, const int *: 6, void *: 7, const void *: 8, long long: 9, default: 20)'
    D = 'int i, *p; const int *pc; void *v; char c; '
    # a null pointer constant is an integer constant expression with the value zero
    for e in ['@', '(void *)@', '(long)@', '(char)@', '@ - 1', '1 - @', '@ && 1', '!@', '@ == 2', '@ > 3', "'\\@'", '(void *)(@ - 5)', '@ ? 0 : 1', '(@)', '@u', '@L * 3', '(int)(@ + 0u)', '+@', '~@ + 1 + @', '@ << 2', '(_Bool)@', '0 * @', 'sizeof(char[@ + 1]) - 1']:
        val = {"'\\@'": 'd'}.get(e, re.sub(r'sizeof\(char\[@ \+ 1\]\)', '(d + 1ul)', e.replace('@u', '(unsigned)d').replace('@L', 'd')).replace('@', 'd').replace('void *', 'long'))
        ptr = 'void' in e
        for l in (0, 1):
            x = '%s : p' % e if l else 'p : %s' % e
            acc = '1' if ptr else '(z ? 1 : 0)'
            C.add('i ? %s' % x, D + 'char w = %s;' % (T % ('i ? ' + x.replace('@', H))) + ' char w2 = %s;' % (T % ('i ? ' + x.replace('p', 'pc', 1).replace('@', H)) if 0 else '0'), ['07'] * e.count('@') if e.count('@') == 1 else ['05'] * e.count('@'),
              'long d = h[0] - 48; int z = !(%s); %s e->accept = %s; ex_int(e, "w", 1, z ? 5 : 7);' % (val, ' '.join('if (h[%d] != h[0]) { e->accept = 3; return; }' % k for k in range(1, e.count('@'))), acc))
    for e in ['@', '-@', '0x7fffffff - @', '@ * 500000000', '@u', '@L', '(char)@', '(short)@ + 0u', '@ == 3', '1 ? @ : 1L']: # enumerators have type int whatever their expression
        ok = {'@ * 500000000': 'd < 5'}.get(e, '1')
        C.add('enumerator ' + e, 'enum X { A = %s, B }; char w[] = {%s, %s, sizeof(A), %s};' % (e.replace('@', H), T % 'A', T % 'B', T % '-B'), ['07'], 'long d = h[0] - 48; if (!(%s)) { e->accept = 3; return; } char v[] = {1, 1, 4, 1}; ex_bytes(e, "w", 4, v);' % ok)
    # selection
    G = ['char', 'short', 'int', 'unsigned', 'long', 'float', 'double', 'int *', 'const int *', 'struct S *']
    for order in range(6):
        Rr = random.Random(order); l = [(t, k + 1) for k, t in enumerate(G)] + [('default', 50)]; Rr.shuffle(l); drop = Rr.choice(G); l = [x for x in l if x[0] != drop]
        vals = ['(char)%s', '(short)%s', '%s', '%su', '%sL', '%s + 0.f', '%s + 0.', '(int *)%s', '(const int *)%s', '(struct S *)%s', '(long long)%s', '(void *)%s']
        C.add('selection %d' % order, 'struct S; char w[] = {%s};' % ', '.join('_Generic(%s, %s)' % (v % H, ', '.join('%s: %s' % (t, k if t != 'default' else '%d' % k) for t, k in l)) for v in vals), ['19'] * len(vals),
          'char v[] = {%s}; ex_bytes(e, "w", %d, v);' % (', '.join(str(k + 1 if k < len(G) and G[k] != drop else 50) for k in range(len(vals))), len(vals)))
        C.add('result of selection %d' % order, 'struct S; long w[] = {%s};' % ', '.join('_Generic(%s, %s)' % (v.replace('%s', '1'), ', '.join('%s: %s + %s' % (t, k, H if t == G[order] else '0') for t, k in l)) for v in vals), ['19'] * (len(vals) if G[order] != drop else 0),
          'long v[] = {%s}; ex_bytes(e, "w", %d, v);' % (', '.join((str(k + 1 if k < len(G) and G[k] != drop else 50) + (' + h[%d] - 48' % k if k < len(G) and k == order and G[k] != drop else '')) for k in range(len(vals))), 8 * len(vals)))
    # literals in expressions: the type depends on the value
    for base, suf in [('', ''), ('', 'u'), ('', 'l'), ('0x', ''), ('0x', 'u'), ('0x', 'll'), ('0b', '')]:
        n = {'': 10, '0x': 9, '0b': 33}[base]; dig = '09' if base == '' else '09af' if base == '0x' else '01'
        T2 = '_Generic((%s), int: 1, unsigned: 2, long: 3, unsigned long: 4, long long: 5, unsigned long long: 6, default: 7)'
        lit_ = base + ('1' if base == '' else '') + H * n + suf; sets = [dig] * n if base != '0x' else [dig] * 2 + ['07'] * (n - 2)
        val = 'unsigned long v = %d; for (int k = 0; k < %d; k++) v = v * %d + (h[k] <= 57 ? h[k] - 48 : h[k] - 87); ' % (1 if base == '' else 0, n, {'': 10, '0x': 16, '0b': 2}[base])
        unsuf = 'int t = %s; ' % ('v < 2147483648ul ? 1 : 3' if base == '' and suf == '' else 'v < 2147483648ul ? 1 : v < 4294967296ul ? 2 : 3' if suf == '' else 'v < 4294967296ul ? 2 : 4' if suf == 'u' else '3' if suf == 'l' else '5')
        C.add('type of -%s' % lit_.replace(H, 'd')[:8], '#define X %s\nchar w[] = {%s, %s, %s, %s, sizeof(X), sizeof(1 ? X : 0)};' % (lit_, T2 % 'X', T2 % '-X', T2 % 'X + 0u', T2 % '1 ? X : 1'), sets,
          val + unsuf + 'char r[] = {t, t, t == 1 ? 2 : t, t, t <= 2 ? 4 : 8, t <= 2 ? 4 : 8}; ex_bytes(e, "w", 6, r);')
def check():
    c = core.Check('C21'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 17 + 21)
    un = [u.replace('@', a) for a in ATOMS for u in UNARY]; pr = pairs(); R.shuffle(pr); R.shuffle(un)
    C = Cases('unary'); C.o = []; group(C, 'expression', evaluate(un), R, quick); lit.jobs(c, C, per=2)
    C = Cases('binary'); C.o = []; group(C, 'pair', evaluate(pr[:8000] if quick else pr[:45000]), R, quick); lit.jobs(c, C, per=2)
    C = Cases('bitfield'); bitfields(C); lit.jobs(c, C, per=4)
    C = Cases('symbolic'); symbolic(C); lit.jobs(c, C, per=2)
    c.bounds = ['expressions from a table of %d operands under %d unary contexts and pairs of %d operands under %d binary operators; array lengths 2..5 and 6..9' % (len(ATOMS), len(UNARY), len(PAIR), len(BIN)), 'bit-field widths 1..32, digits of literals, values of null pointer constants and enumerators symbolic']
    c.outside = ['volatile, restrict and _Atomic qualifiers (the compiler drops them from types)', 'the type of an enumeration (implementation-defined)', 'bit-fields wider than int', 'long double and _Complex']
    return c
