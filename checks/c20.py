"""C20: declarations, scope, linkage, storage duration, declarators."""
import random
import core, tv, lit
from tv import *
from lit import H, Cases

X = [('int', 'x'), ('unsigned char', 'n')]
PRE = '''#define P_M(v) (r = (long)(((unsigned long)r << 7 | (unsigned long)r >> 57) ^ (unsigned long)(v)))
'''
# every entry: file-scope text before the function, its body, file-scope text of functions used
def scopes():
    p = Prog('scope', PRE)
    def f(body, lead='', params=X, desc=None): p.fn('long', params, 'long r = 1; %s return r;' % body, desc=desc or (lead + body)[:150], lead=lead)
    f('int a = x; { int a = 5; { int a = 7; a++; P_M(a); } a++; P_M(a); } P_M(a);'); f('int a = x; { int b = a; int a = 3; P_M(a + b); } P_M(a);'); f('for (int i = 0; i < 2; i++) { int i = 9; P_M(i); }'); f('int i = x; for (int i = 0; i < 2; i++) P_M(i); P_M(i);')
    f('for (int i = 0; i < 2; i++) for (int i = 5; i < 7; i++) P_M(i);'); f('int a = 1; for (int a = a = 4; a < 6; a++) P_M(a); P_M(a);' if 0 else 'int a = 1; { int a = sizeof a; P_M(a); } P_M(a);'); f('int x2 = 2; { enum { x2 = 7 }; P_M(x2); } P_M(x2);'); f('enum { A = 3 }; { int A = x; P_M(A); { enum { A = 5 }; P_M(A); } P_M(A); } P_M(A);')
    # the scope of a declarator starts at its end
    f('int s = 4; { char s[sizeof s]; P_M(sizeof s); }'); f('enum { A = 2 }; { enum { A = A + 1, B = A + 1 }; P_M(A * 10 + B); }'); f('int a = 3; { int b = a, a = b + 1, c = a; P_M(a * 100 + b * 10 + c); }'); f('struct S { int q; }; { struct S { struct S *n; char c; }; P_M(sizeof(struct S)); } P_M(sizeof(struct S));')
    # name spaces
    f('struct a { int a; } a = {x}; goto a; P_M(99); a: P_M(a.a); { enum a2 { a = 4 }; P_M(a); }'); f('struct S { int S; } S = {4}; struct S T = S; P_M(S.S + T.S);'); f('typedef struct S S; struct S { int v; S *n; }; S a = {x, 0}, b = {5, &a}; P_M(b.n->v);'); f('union u { int u; struct s { int u; } s; } u; u.s.u = x; P_M(u.u);')
    f('typedef int T; { T T = x; P_M(T); } T q = 3; P_M(q);'); f('typedef int T; struct S { T T; } s = {x}; P_M(s.T); T: P_M(1); if (n & 1) { n = 0; goto T; }', params=X); f('typedef int T; { int T = 4; P_M(T * 2); { typedef char T; T c = x; P_M(c + sizeof(T)); } P_M(T); }')
    f('typedef char T; { typedef long T; P_M(sizeof(T)); } P_M(sizeof(T));'); f('typedef int T; enum { K = 1 }; { enum { T = 6 }; P_M(T); } T z = 2; P_M(z);'); f('typedef int T; for (int T = 0; T < 2; T++) P_M(T); T q = x; P_M(q);'); f('typedef char T; { int T = 3; int q[T]; P_M(sizeof q); P_M(sizeof(T)); P_M(sizeof T); P_M((T) + x); P_M((T)-x); P_M((T) & x); P_M((T)*x); }')
    f('typedef char T; P_M(sizeof(T)); P_M((T)-x); P_M((T)+x); P_M((T)~x); P_M(sizeof(T *)); { T *q = 0; P_M(q == 0); }'); f('P_M(P_tf(x));', lead='typedef short P_T1; static int P_tf(int P_T1) { return P_T1 * 3; }\n'); f('P_M(P_tg(x));', lead='typedef short P_T1; static int P_tg(P_T1 a) { int P_T1 = 4; return P_T1 + a; }\n')
    f('P_M(P_th(x) + sizeof(P_T1));', lead='typedef short P_T1; static int P_th(P_T1); static int P_th(P_T1 P_T1) { return P_T1; }\n'); f('unsigned T = 1; { typedef unsigned T; T a = x; unsigned T; T = a; P_M(T); }' if 0 else 'typedef long T; { unsigned T; T = x; P_M(T); } { const T q = 5; P_M(sizeof q); }'); f('typedef long T; { struct S { unsigned T; const T : 3; } s = {x}; P_M(s.T); }')
    f('struct S { int i; }; { struct S; struct S { char c[3]; } q; P_M(sizeof q); } struct S t; P_M(sizeof t);'); f('struct S { int i; }; { struct S *p; struct S q = {x}; p = &q; P_M(p->i); }'); f('struct S; struct S *p = 0; { struct S { char c; } q = {x}; P_M(q.c); } struct S { long l; } s = {x}; p = &s; P_M(p->l);'); f('enum E { A, B }; { enum E { C = 9, D }; enum E e = D; P_M(e); } enum E e = B; P_M(e);')
    f('{ struct Q { int a; } q = {x}; P_M(q.a); } { union Q { char c[2]; } q; P_M(sizeof q); } { enum Q { Z = 3 }; P_M(Z); }'); f('P_M(sizeof(struct P_I)); { struct P_I { char c[40]; }; P_M(sizeof(struct P_I)); } P_M(sizeof(struct P_I));', lead='struct P_I { int i; };\n'); f('struct O { struct I { int k; } i; enum { OA = 3 } e; } o = {{x}, OA}; struct I j = o.i; P_M(j.k + OA);')
    # tags and typedefs declared inside expressions and parameters
    f('P_M(sizeof(struct Z { int a, b; })); struct Z z = {x, 2}; P_M(z.a + z.b);'); f('P_M((int)(enum { Q1 = 4 })x + Q1);'); f('P_M(P_e(x));', lead='static int P_e(enum P_EE { P_A = 5, P_B } k) { return k + P_B; }\n'); f('switch (n & 1) { int k; case 0: k = x; P_M(k); break; default: k = 5; P_M(k); }'); f('if (sizeof(struct W { int q[3]; }) > 4) { struct W w = {{x}}; P_M(w.q[0] + w.q[2]); }')
    # labels
    f('{ goto l; } { P_M(2); l: P_M(3); } if (n & 1) { n = 0; goto l; }'); f('int l = x; goto l; l: P_M(l); { int l = 2; P_M(l); if (n & 1) { n &= 2; goto l; } }'); f('P_M(P_l1(x)); P_M(P_l2(x));', lead='static int P_l1(int a) { if (a) goto out; a = 5; out: return a; } static int P_l2(int a) { if (!a) goto out; a = 9; out: return a; }\n')
    f('P_M(P_par(x, 3));', lead='static long P_par(int a, int b) { long r = 0; P_M(a); { int a = b; P_M(a); { int b = 8; P_M(a + b); } } P_M(a + b); return r; }\n'); f('P_M(P_pf(P_pg, x));', lead='static int P_pg(int a) { return a + 1; } static int P_pf(int P_pg(int), int a) { return P_pg(a) * 2; }\n')
    return p
def linkage():
    p = Prog('link', PRE)
    def f(body, lead='', params=X, desc=None, tail=''): p.fn('long', params, 'long r = 1; %s return r;' % body, desc=desc or (lead + body)[:150], lead=lead)
    c = [0]
    def N(t): # a fresh name for every entry
        c[0] += 1; return t.replace('@', 'P_n%d' % c[0])
    for l in ['int @;', 'int @; int @;', 'extern int @; int @;', 'int @; extern int @;', 'static int @;', 'static int @; static int @;', 'static int @; extern int @;', 'extern int @; int @; extern int @;', 'int @ = 0;', 'int @; int @ = 0; int @;', 'extern int @; int @ = 0;', 'static int @; static int @ = 0; extern int @;', 'int @ = 0; extern int @;']:
        l = N(l); n = 'P_n%d' % c[0]; f('P_M(%s); %s = x; P_M(%s_g()); %s_s(n); P_M(%s);' % ((n,) * 5), lead='%s static int %s_g(void) { return %s; } static void %s_s(int v) { %s += v; }\n' % ((l,) + (n,) * 4))
    for l in ['static int @ = 4; extern int @; static int *@_p = &@;', 'int @[]; static int @_f(void) { return @[0]; } int @[3] = {4, 5, 6};', 'int @[3]; int @[] = {4, 7, 8};', 'extern int @[]; static int @_f(void) { return @[1]; } int @[2] = {4, 9};', 'static int @[2]; static int @[] = {4, 5};' if 0 else 'static int @[2]; static int @[2] = {4, 5};']:
        l = N(l); n = 'P_n%d' % c[0]; f('P_M(%s + sizeof %s);' % ('*' + n if '[' in l else n + ' + *' + n + '_p', n), lead=l + '\n')
    for l in ['int @[];', 'static int @[1]; extern int @[];', 'extern int @[]; int @[];', 'long *@[];', 'struct P_Q@ { int a; }; struct P_Q@ @[];']:
        l = N(l); n = 'P_n%d' % c[0]; f('P_M(%s[0]%s == 0); P_M((long)&%s %% 4);' % (n, '.a' if 'struct' in l else '', n), lead=l + '\n')
    l = N('static int @; '); n = 'P_n%d' % c[0]; f('%s = x; { extern int %s; P_M(%s); %s += 2; } P_M(%s); { int %s = 5; { extern int P_q%d; P_M(P_q%d); } P_M(%s); }' % ((n,) * 6 + (c[0], c[0], n)), lead=l + ' int P_q%d = 77;\n' % c[0])
    f('{ extern int P_late; P_M(P_late); P_late += x; } P_M(P_late_get());', lead='int P_late = 31; static int P_late_get(void) { extern int P_late; { int P_late = 4; P_late++; } return P_late; }\n'); f('int P_sh = x; { extern int P_sh; P_M(P_sh); P_sh++; } P_M(P_sh);', lead='int P_sh = 8;\n'); f('int P_fb(int); P_M(P_fb(x)); { int P_fb = 3; { int P_fb(int); P_M(P_fb(2)); } P_M(P_fb); }', lead='int P_fb(int a) { return a * 3; }\n')
    f('P_M(P_fd1(x)); P_M(P_fd2(x));', lead='static int P_fd1(int); int P_fd2(int b) { return P_fd1(b) + 1; } static int P_fd1(int a) { return a ^ 5; }\n'); f('P_M(P_fe1(x));', lead='static int P_fe1(int); int P_fe1(int a) { return a ^ 6; } extern int P_fe1(int);\n'); f('P_M(P_ff1(x));', lead='int P_ff1(), P_ff1(int); int P_ff1(int a) { return a ^ 6; }\n') if 0 else None
    f('P_M(P_mut(n & 3, x));', lead='static int P_odd(int, int); static int P_mut(int k, int v) { return k ? P_odd(k - 1, v + 1) : v; } static int P_odd(int k, int v) { return k ? P_mut(k - 1, v * 2) : -v; }\n')
    # two tentative definitions with a completed type, pointers to statics
    f('P_M(*P_ps); *P_ps = x; P_M(P_ss); P_M(*P_pt[1] + *P_pt[0]);', lead='static int P_ss; static int *P_ps = &P_ss; static int P_tt; static int *P_pt[2] = {&P_ss, &P_tt}; static int P_tt = 12;\n'); f('P_M(P_fwd->a); P_M(P_st.n->a);', lead='struct P_ST; static struct P_ST *P_fwd; extern struct P_ST P_st; struct P_ST { int a; struct P_ST *n; }; struct P_ST P_st = {5, &P_st}; static struct P_ST *P_fwd = &P_st;\n')
    return p
def storage():
    p = Prog('storage', PRE)
    def f(body, lead='', params=X + [('unsigned char', 'm')], desc=None): p.fn('long', params, 'long r = 1; %s return r;' % body, desc=desc or (lead + body)[:150], lead=lead)
    c = [0]
    for b in ['static int k; k += v; return k;', 'static int k = 5; int o = k; k = v; return o;', '{ static int k = 1; k += v; { static int k = 2; k += 3; v += k; } v ^= k; } return v;', 'static int a[3] = {1, 2, 3}; static unsigned i; a[i++ % 3] += v; return a[0] ^ a[1] << 8 ^ a[2] << 16;',
              'static struct { int a; char c; } s = {4, 5}; s.a += v; s.c++; return s.a << 4 ^ s.c;', 'static int *p; static int z; if (!p) p = &z; *p += v; return z;', 'static int *p = &(int){3}; return v;' if 0 else 'static int z = 3, *p = &z; *p += v; return z;', 'static int n; static int t[4]; t[n & 3] = v; n++; return t[0] ^ t[1] << 3 ^ t[2] << 7;',
              'if (v & 1) { static int k; k += 2; return k; } else { static int k = 100; k -= 3; return k; }', 'for (int i = 0; i < 2; i++) { static int k; k ^= v << i; v = k; } return v;', 'switch (v & 3) { case 0: ; static int k = 4; case 1: k++; v += k; break; default: v += k; } return v;', 'static const char s[] = "abc"; static int i; return s[i++ % 3] + v;',
              'static long k = -1; static char c = -1; static unsigned short u = 65535; k += v; c += v; u += v; return (int)(k ^ c << 5 ^ u);', 'static _Bool b; b = !b; return b ? v : -v;', 'static double d = 1.5; d += 1; return (int)d + v;', 'goto l; { static int k = 9; l: k++; return k + v; }', 'static union { int i; char c[4]; } u = {.c = {1, 2}}; u.i += v; return u.i;', 'static int k = sizeof k + 3; return k++ + v;',
              'static int depth; int q; if (depth >= 2) return v; depth++; q = P_h@(v + 1); depth--; return (q << 2) ^ depth;', 'static int a; a++; { int a = v; static int b; b += a; v = b; } return (v << 8) ^ a;', 'static int last; int o = last; last = v; { extern int P_ext@; P_ext@ += o; return P_ext@; }']:
        c[0] += 1; k = str(c[0]); b = b.replace('@', k); f('P_M(P_h%s(x)); P_M(P_h%s(n)); P_M(P_h%s(m)); P_M(P_h%s(x & 3));' % (k, k, k, k), lead='int P_ext%s = 3; static int P_h%s(int v) { %s }\n' % (k, k, b), desc=b[:140])
    # two functions with statics of the same name; file-scope object of the same name
    f('P_M(P_sa(x)); P_M(P_sb(n)); P_M(P_sa(m)); P_M(P_sb(x)); P_M(P_k);', lead='static int P_k = 50; static int P_sa(int v) { static int P_k = 1; P_k += v; return P_k; } static int P_sb(int v) { P_k++; static int P_k = 2; P_k ^= v; return P_k; }\n')
    f('int a[3]; for (int i = 0; i < 3; i++) { auto int q = i; register int z = x; q += z; a[i] = q; } P_M(a[0] ^ a[2] << 3);'); f('register int a = x, b = n; register int *q = &(int){4}; P_M(a + b + *q);'); f('int *q[2]; for (int i = 0; i < 2; i++) { int k = i + x; q[i] = &k; P_M(*q[i]); }')
    f('P_M(P_rec(n & 3, x));', lead='static long P_rec(int k, int v) { int loc = v + k; static int deep; deep++; if (k) { long s = P_rec(k - 1, v ^ 1); return s << 5 ^ loc ^ deep << 3; } return loc + deep; }\n')
    return p
ABS = ['int', 'char', 'unsigned', 'struct P_S', 'long']
class Decl:
    """random types built from typedef steps, and the same type as one declarator"""
    def __init__(s, R, uid): s.R = R; s.uid = uid
    def make(s, depth):
        R = s.R; base = R.choice(['int', 'char', 'unsigned short', 'long', 'double', 'struct S', 'const int', 'void']); steps = []
        kind = 'void' if base == 'void' else 'obj'
        for _ in range(depth):
            o = ['*', '*c'] if kind != 'inc' else ['*']
            if kind == 'obj': o += ['[2]', '[3]', '[D]', 'f()', 'f()', '[2]']
            if kind == 'arr': o += ['[2]', '[D]', '[3]']
            if kind == 'void': o += ['f()']
            if kind == 'fun': o = ['*', '*c']
            t = R.choice(o)
            if t == '*c' and kind == 'arr' and 0: t = '*'
            steps.append(t); kind = 'obj' if t[0] == '*' else 'arr' if t[0] == '[' else 'fun'
        if kind == 'void': steps.append('*'); kind = 'obj'
        args = [R.choice(['void', 'int', 'int, char', 'double *', 'int (*)(char), long', 'const char *, ...', 'struct S', 'int a, int b[4]', 'int [3], int f(int)']) if t == 'f()' else None for t in steps]
        return base, steps, args, kind
    def direct(s, base, steps, args, name):
        d = name; prev = None
        for t, a in zip(reversed(steps), reversed(args)): # outermost derivation first
            if t[0] == '*': d = '*' + (' const ' if t == '*c' else '') + d; prev = '*'
            else:
                if prev == '*': d = '(' + d + ')'
                d += '(' + a + ')' if t == 'f()' else t
                prev = 'p'
        return base + ' ' + d
    def chain(s, base, steps, args, name):
        t = 'typedef %s %s_0; ' % (base, name)
        for k, (x, a) in enumerate(zip(steps, args)):
            p = '%s_%d' % (name, k); q = '%s_%d' % (name, k + 1)
            t += 'typedef %s %s; ' % (p, '*%s%s' % ('const ' if x == '*c' else '', q) if x[0] == '*' else q + ('(%s)' % a if x == 'f()' else x))
        return t
def declarators(R, n):
    C = Cases('declarator')
    # the type of a declarator is the type built in steps; sizes with a symbolic length
    for k in range(n):
        g = Decl(R, k); src = 'struct S { char c; int i[3]; };\n#define D %s\n' % H; names = []; ref = 'long D = h[0] - 48; (void)D; '; obs = []; want = []
        for j in range(6):
            base, steps, args, kind = g.make(R.randint(1, 5)); nm = 'T%d' % j; N = '%s_%d' % (nm, len(steps))
            src += g.chain(base, steps, args, nm) + '\n' + 'extern ' + g.direct(base, steps, args, 'o%d' % j) + '; extern %s o%d;\n' % (N, j)
            src += 'typedef %s; ' % g.direct(base, steps, args, 'U%d' % j) + 'extern %s p%d, *q%d; int f%d(%s); int f%d(%s *);\n' % ('U%d' % j, j, j, 2 * j, g.direct(base, steps, args, 'a'), 2 * j + 1, N)
            obs.append('_Generic(&o%d, %s *: 1, default: 0)' % (j, N)); want.append('1')
            abs_ = g.direct(base, steps + ['*'], args + [None], ''); obs.append('_Generic(&o%d, %s: 1, default: 0)' % (j, abs_)); want.append('1'); obs.append('_Generic(q%d, %s *: 1, default: 0)' % (j, N)); want.append('1')
            obs.append('_Generic(f%d, int (*)(%s): 1, default: 0)' % (2 * j, N)); want.append('1')
            if kind != 'fun':
                def sz(kk): # size after kk steps
                    if kk == 0: return {'int': 4, 'char': 1, 'unsigned short': 2, 'long': 8, 'double': 8, 'struct S': 16, 'const int': 4}[base]
                    t = steps[kk - 1]
                    return 8 if t[0] == '*' else '%s * %s' % (sz(kk - 1), t[1:-1])
                obs.append('sizeof o%d' % j); want.append(str(sz(len(steps)))); obs.append('sizeof(%s)' % g.direct(base, steps, args, '')); want.append(str(sz(len(steps))))
                # undo the derivations one at a time
                e = 'o%d' % j; kk = len(steps)
                while kk and steps[kk - 1] != 'f()' and kk > 1 and not (kk == 1 and base == 'void'):
                    e = '(*%s)' % e if R.random() < .5 else '%s[0]' % e if steps[kk - 1][0] == '[' or (kk >= 2 and steps[kk - 2] != 'f()') else '(*%s)' % e
                    kk -= 1
                    if steps[kk - 1] == 'f()':
                        break
                    obs.append('sizeof %s' % e); want.append(str(sz(kk)))
        src += 'long w[] = {%s};\n' % ', '.join(obs)
        C.add('declarators %d' % k, src, ['29'] if 1 else [], ref + 'long v[] = {%s}; ex_bytes(e, "w", %d, v);' % (', '.join(want), 8 * len(want)))
    return C
def rand(R, n):
    """nests of scopes in which few names are declared many times in every role"""
    p = Prog('rnd', PRE)
    NAMES = ['a', 'b', 'c']
    for k in range(n):
        lead = ''.join('static int P_g%d_%s = %d; ' % (k, v, R.randint(1, 90)) for v in 'de'); cnt = [0]; G = ['P_g%d_d' % k, 'P_g%d_e' % k]
        env0 = {}
        for v in NAMES: # file scope under macro names: plain names would collide between functions
            pass
        def val(env):
            c = [v for v in env if env[v] in ('var', 'enum')]
            return R.choice(c + G + ['x', 'n', str(R.randint(0, 9))])
        def block(depth, env):
            env = dict(env); own = set(); tags = set(); t = ''
            for _ in range(R.randint(2, 5)):
                z = R.random(); v = R.choice(NAMES)
                if z < .5 and v not in own:
                    own.add(v); y = R.random()
                    if y < .4:
                        e = val({q: w for q, w in env.items() if q != v}); t += 'int %s = %s + %d; ' % (v, e, R.randint(0, 9)); env[v] = 'var'
                    elif y < .55: t += 'static int %s = %d; %s += %s; ' % (v, R.randint(1, 9), v, val({q: w for q, w in env.items() if q != v})); env[v] = 'var'
                    elif y < .7: t += 'typedef %s %s; ' % (R.choice(['char', 'short', 'long']), v) ; env[v] = 'type'
                    elif y < .85: t += 'enum { %s = %d }; ' % (v, R.randint(1, 99)); env[v] = 'enum'
                    else:
                        own.discard(v)
                        if v not in tags: tags.add(v); t += 'struct %s { %s m; } s%d = {3}; P_M(s%d.m + sizeof(struct %s)); ' % (v, R.choice(['char', 'int', 'long']), cnt[0], cnt[0], v); cnt[0] += 1
                elif z < .75:
                    u = val(env); t += 'P_M(%s); ' % u; c = [q for q in env if env[q] == 'var']
                    if c: q = R.choice(c); t += '%s = %s ^ %s; ' % (q, q, val(env))
                    c = [q for q in env if env[q] == 'type']
                    if c: t += '{ %s t = %s; P_M(t + sizeof(%s)); } ' % (R.choice(c), val(env), R.choice(c))
                elif depth:
                    y = R.random(); b = block(depth - 1, env)
                    if y < .5: t += '{ %s } ' % b
                    elif y < .8: w = R.choice(NAMES); e2 = dict(env); e2[w] = 'var'; t += 'for (int %s = 0, q%d = 0; q%d < 2; q%d++) { P_M(%s); %s } ' % (w, depth, depth, depth, w, block(depth - 1, e2))
                    else: t += 'if (%s & 1) { %s } else { %s } ' % (val(env), b, block(depth - 1, env))
            return t + 'P_M(%s); ' % val(env)
        body = 'long r = 1; { %s } P_M(P_g%d_d); return r;' % (block(3, {}), k)
        p.fn('long', X, body, desc='random scopes %d' % k, lead=lead + '\n')
    return p
def check():
    c = core.Check('C20'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 41 + 20)
    c.bounds = ['fixed programs per rule of scope, name space, linkage and storage duration with symbolic arguments and histories of four calls; random nests of scopes redeclaring three names as objects, static objects, types, enumerators and tags; random declarators of up to 5 derivations compared with the same type built by typedefs, with a symbolic array length']
    c.outside = ['old-style function definitions', 'inline functions with external linkage', 'thread-local and atomic objects', 'linkage between translation units (C12)']
    for g in (scopes, linkage, storage): tv.jobs(c, g(), per=4)
    tv.jobs(c, rand(R, 40 if quick else 500), per=4)
    lit.jobs(c, declarators(R, 30 if quick else 300), per=3)
    return c
