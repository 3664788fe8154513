"""C10: initialisers."""
import random
import core, tv
from tv import *

G = '''static char P_G[16]; static struct { int a; char b; char c[5]; } P_GS; enum P_EN { P_E0, P_E1 = -7, P_E2 = 400 };
static int P_fa(int x) { return x + 1; } static int P_fb(int x) { return x * 3; }
'''
INTS = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', '_Bool']
BITS = ['int', 'unsigned', 'long', 'unsigned long', 'short', 'unsigned char', '_Bool', 'signed char']

class S:
    def __init__(s, t, w=None): s.t = t; s.w = w
class A:
    def __init__(s, e, n): s.e = e; s.n = n
class R:
    def __init__(s, union, m, tag=None): s.union = union; s.m = m; s.tag = tag   # m: [(name or None, node)]
def cnt(n): return n.n if isinstance(n, A) else len(n.m)
def kid(n, i): return n.e if isinstance(n, A) else n.m[i][1]
def at(n, p):
    for i in p: n = kid(n, i)
    return n
def suffix(n, p):
    s = ''
    for i in p:
        if isinstance(n, A): s += '[%d]' % i
        elif n.m[i][0]: s += '.' + n.m[i][0]
        n = kid(n, i)
    return s
def leaves(n, p=()):
    if isinstance(n, S): return [p]
    return [l for i in range(cnt(n)) for l in leaves(kid(n, i), p + (i,))]

class Gen:
    def __init__(s, seed): s.r = random.Random(seed); s.k = 0; s.defs = ''; s.recs = []
    # ---- types
    def scal(s, bits=False):
        x = s.r.random()
        if bits and x < .35:
            t = s.r.choice(BITS); W = 1 if t == '_Bool' else 8 * size(t); return S(t, s.r.choice([1, s.r.randint(1, W), s.r.randint(1, W), W]))
        if x < .75: return S(s.r.choice(INTS))
        if x < .83: return S(s.r.choice(['float', 'double']))
        if x < .89: return S('char *')
        if x < .94: return S('const char *')
        return S('int (*)(int)')
    def node(s, d, member=False):
        x = s.r.random()
        if d == 0 or x < .5: return s.scal(member)
        if x < .6: return A(S(s.r.choice(['char', 'unsigned char', 'char'])), s.r.randint(1, 6))
        if x < .63: return A(S(s.r.choice(['int', 'unsigned', 'unsigned short'])), s.r.randint(1, 4))
        if x < .76: return A(s.node(d - 1), s.r.randint(1, 3))
        if s.recs and x < .82: return s.r.choice(s.recs)
        return s.rec(d - 1, s.r.random() < .3, True)
    def rec(s, d, union, named):
        m = []
        for _ in range(s.r.randint(1, 4)):
            if d and s.r.random() < .14: m.append((None, s.rec(d - 1, s.r.random() < .5, False))); continue
            s.k += 1; m.append(('m%d' % s.k, s.node(d, True)))
        n = R(union, m)
        if not any(x[0] for x in m): s.k += 1; m.append(('m%d' % s.k, S('int')))
        if named: s.define(n)
        return n
    def decl(s, n, name):
        if isinstance(n, S):
            if n.w: return '%s %s : %d' % (n.t, name, n.w)
            if n.t == 'int (*)(int)': return 'int (*%s)(int)' % name
            return '%s %s' % (n.t, name)
        if isinstance(n, A):
            dims = ''
            while isinstance(n, A): dims += '[%d]' % n.n; n = n.e
            return s.decl(n, name + dims)
        return ('%s P_%s %s' % ('union' if n.union else 'struct', n.tag, name)) if n.tag else '%s { %s}' % ('union' if n.union else 'struct', s.body(n))
    def body(s, n):
        b = ''
        for name, c in n.m:
            if s.r.random() < .05: b += 'int : %d; ' % s.r.randint(1, 9)
            b += s.decl(c, name or '') + '; '
        return b
    def define(s, n):
        s.k += 1; n.tag = 'T%d' % s.k; kw = 'union' if n.union else 'struct'; s.defs += '%s P_%s { %s};\n' % (kw, n.tag, s.body(n))
        first = [l for l in leaves(n) if s.active(n, l, {})]; lf = [l for l in first if at(n, l).t in INT and at(n, l).t != '_Bool']
        s.defs += 'static %s P_%s P_g%s; static %s P_%s P_mk%s(long v) { %s P_%s x = P_g%s; %sreturn x; }\n' % (kw, n.tag, n.tag, kw, n.tag, n.tag, kw, n.tag, n.tag, ''.join('x%s = v + %d; ' % (suffix(n, l), k) for k, l in enumerate(lf[:4])))
        s.recs.append(n)
    # ---- active members of unions
    def active(s, root, leaf, act):
        n = root
        for k, i in enumerate(leaf):
            if isinstance(n, R) and n.union and act.get(leaf[:k], 0) != i: return False
            n = kid(n, i)
        return True
    def mark(s, p):
        n = s.root
        for k, i in enumerate(p):
            if isinstance(n, R) and n.union:
                q = p[:k]
                if s.act.get(q) != i: s.reset(q); s.act[q] = i; s.hist.setdefault(q, set()).add(i)
            n = kid(n, i)
    def reset(s, p):
        for q in [q for q in s.act if q[:len(p)] == p and (len(q) > len(p) or q == p)]: del s.act[q]
    def blocked(s, p):
        n = s.root
        for k, i in enumerate(p):
            q = p[:k]
            if q in s.whole: return True
            if isinstance(n, R) and n.union and s.act.get(q) not in (None, i) and i in s.hist.get(q, ()): return True
            n = kid(n, i)
        return False
    # ---- values
    def value(s, n):
        r = s.r; t = n.t
        if t == 'int (*)(int)': return r.choice(['P_fa', 'P_fb', '&P_fa', '0', '*P_fb'])
        if t == 'const char *': return r.choice(['"abc"', '"x\\0z" "w"', '"longer string"', '0', '"abc"', '(const char *)"qrs"', '&"12345"[1]', '"67890" + 2'])
        if t == 'char *': return r.choice(['0', '(void *)0', 'P_G', '&P_G[3]', 'P_G + 5', '&P_G[9] - 2', '&P_GS.b', 'P_GS.c', '&P_GS.c[2]', '(char *)&P_GS', '2 + P_G', '(char *)&P_GS + 3', '1 ? P_G : 0'] + (['p', 'p + (a & 3)', 'a ? P_G : p'] if s.auto else []))
        if t in FLT: return r.choice(['1', '-2.5', '0.1f', '1e10', "'a'", '3 / 2', '-0.0', '0x7fffffffffffffffL', '1.5f + 2', '0'] + (['d', 'c', 'd', '(float)d'] if s.auto else []))
        c = ['0', '1', '-1', '300', '0x7fffffff', '-129L', "'x'", 'P_E1', 'P_E2', 'sizeof(int)', '(char)200', '3 > 2', '1u << 31', '5 / 2 ? 7 : 8', '~0', '!3', '0xffffffffffffffffu', '-7 % 4', '(2, 3)' if s.auto else '4', 'sizeof(P_GS)', '(long)1 << 40 | 5', "'\\xff'", '2 && 0 || 3']
        if t != '_Bool': c += ['1.75', '-0.9f', '(int)2.5 * 3']
        if t != '_Bool' and signed(t): c += ['-3.9f']
        if s.auto: c += ['a', 'b', 'c', 'b + 1', '(short)b', 'a > c', 'a ^ b', 'c ? a : b', '-c', 'P_fa(a)', 'a', 'b', 'a && b', '(unsigned char)a', 'b >> 20']
        return r.choice(c)
    def string(s, n, e):
        r = s.r; L = r.randint(0, n)
        pfx = {'char': '', 'unsigned char': '', 'signed char': '', 'int': 'L', 'unsigned': 'U', 'unsigned short': 'u'}[e]
        if e == 'char' and r.random() < .1: pfx = 'u8'
        chars = [r.choice(['a', 'b', 'Z', '0', ' ', '\\n', '\\0', '\\\\', '\\"', '{', ',', '\\101', "'", '\\t'] + (['\\xff', '\\377'] if not pfx else [])) for _ in range(L)]
        # keep escapes from swallowing the next character
        t = ''
        for c in chars: t += c if not (t and (t[-1] in '0123456789abcdefx' and '\\' in t[-5:]) and c in '0123456789abcdefABCDEF') else 'g'
        if L > 1 and r.random() < .15: t = t + '" ' + '"' if 0 else t
        return pfx + '"' + t + '"'
    def init(s, n, p, d, top=False, el=False):
        """initialiser for node n at absolute path p; returns text and the path finally initialised"""
        r = s.r
        if isinstance(n, S):
            s.mark(p); v = s.value(n); return ('{ %s }' % v if not el and r.random() < .08 else v), p
        if isinstance(n, A) and isinstance(n.e, S) and n.e.t in ('char', 'unsigned char', 'int', 'unsigned', 'unsigned short') and s.strok and r.random() < (.55 if 'char' in n.e.t else .3):
            s.mark(p + (0,)); s.whole.discard(p); v = s.string(n.n, n.e.t); s.whole.add(p); return ('{ %s }' % v if not el and r.random() < .12 else v), p
        if isinstance(n, R) and n.tag and s.auto and not top and r.random() < .2:
            s.mark(p); s.reset(p); s.whole.add(p)
            return r.choice(['P_g%s', 'P_mk%s(b)', 'P_mk%s(a + 3)', '(a & 1 ? P_g%s : P_mk%s(b))', '*&P_g%s', '(P_fa(a), P_mk%s(1))']).replace('%s', n.tag), p
        if not el and (top or r.random() < .5):
            s.mark(p); s.reset(p); return s.braced(n, p, d - 1), p
        return s.init(kid(n, 0), p + (0,), d, el=True)
    def advance(s, base, p):
        while len(p) > len(base):
            par = at(s.root, p[:-1])
            if not (isinstance(par, R) and par.union) and p[-1] + 1 < cnt(par): return p[:-1] + (p[-1] + 1,)
            p = p[:-1]
        return None
    def braced(s, n, base, d):
        r = s.r; items = []; seen = False; cur = base + (0,); stop = r.choice([.05, .15, .4])
        if r.random() < .05: return '{ 0 }' if not isinstance(first_leaf(n), S) or '(*)' not in first_leaf(n).t else '{ 0 }'
        for it in range(12):
            if items and r.random() < stop: break
            dsg = ''
            if r.random() < (.25 if cur is not None else .5):
                q = list(base); m = n; ok = True
                for _ in range(r.randint(1, 3)):
                    if isinstance(m, S): break
                    i = r.randrange(cnt(m)); q.append(i)
                    while isinstance(m, R) and not m.m[i][0]:   # anonymous: go on to a named member
                        m = kid(m, i); i = r.randrange(cnt(m)); q.append(i)
                    m = kid(m, i)
                if s.blocked(tuple(q)) or tuple(q) in s.whole:
                    if cur is None: continue
                else:
                    dsg = suffix(n, q[len(base):]) + ' = '; cur = tuple(q)
            if cur is None: break
            if not dsg and s.blocked(cur): break
            if dsg: seen = True
            s.strok = bool(dsg) or not seen   # gcc and clang both mishandle strings that continue after a designator
            t, p = s.init(at(s.root, cur), cur, d); s.strok = True
            items.append(dsg + t); cur = s.advance(base, p)
        if not items: return '{ 0 }' if True else '{}'
        return '{ ' + ', '.join(items) + (', ' if r.random() < .15 else ' ') + '}'
    def make(s, root, auto):
        s.root = root; s.auto = auto; s.act = {}; s.hist = {}; s.whole = set(); s.strok = True
        return s.init(root, (), 3, True)[0]
def first_leaf(n):
    while not isinstance(n, S): n = kid(n, 0)
    return n

def read(t, e):
    if t == 'float': return '*(int *)&' + e
    if t == 'double': return '*(long *)&' + e
    if t == 'int (*)(int)': return '(%s ? %s(k + 5) : -1)' % (e, e)
    if t == 'const char *': return '(%s ? %s[0] * 256 + %s[1] : -1)' % (e, e, e)
    if t == 'char *': return '(%s ? (%s >= (char *)&P_GS && %s < (char *)(&P_GS + 1) ? 100 + (%s - (char *)&P_GS) : (unsigned long)(%s - P_G)) : -1)' % (e, e, e, e, e)
    return '(long)' + e
PAR = [('int', 'a'), ('long', 'b'), ('char', 'c'), ('double', 'd'), ('unsigned char', 'k')]

def random_prog(seed, name, n):
    g = Gen(seed); p = Prog(name, ''); fns = []; tops = ''
    for i in range(n):
        root = g.rec(2, g.r.random() < .1, True) if g.r.random() < .65 else A(g.node(2), g.r.randint(1, 3))
        mode = g.r.choice(['auto', 'auto', 'file', 'local', 'literal', 'const'])
        auto = mode in ('auto', 'literal'); txt = g.make(root, auto); ty = g.decl(root, 'x')
        unk = isinstance(root, A) and g.r.random() < .0
        case = ''; nl = 0
        for l in leaves(root):
            if not g.active(root, l, g.act): continue
            case += 'case %d: return %s; ' % (nl, read(at(root, l).t, 'x' + suffix(root, l))); nl += 1
        sw = 'switch (k) { %s} return sizeof(x);' % case
        if mode == 'literal' and isinstance(root, R): body = '%s %s = (%s)%s; %s' % (g.decl(root, ''), 'x', g.decl(root, '').strip(), txt, sw)
        elif mode == 'literal': body = '%s = %s; %s' % (ty, txt, sw)
        elif mode == 'auto': body = '%s = %s; %s' % (ty, txt, sw)
        elif mode == 'local': body = 'static %s = %s; %s' % (ty, txt, sw)
        else:
            v = 'P_x%d' % i; q = 'static ' if i % 2 else 'const ' if mode == 'const' else ''
            fns.append((None, '%s%s = %s;\n' % (q, g.decl(root, v), txt), None)); body = sw.replace('x.', v + '.').replace('x[', v + '[').replace('sizeof(x)', 'sizeof(%s)' % v)
        if auto: body = 'char p0[16]; char *p = P_G + 7; ' + body.replace('char p0[16]; ', '')
        body = body.replace('char p0[16]; ', '')
        fns.append((body, '', '%s init %s = %s' % (mode, ty, txt)))
    pre = ''.join(f[1] for f in fns if f[0] is None)
    p.prelude = p.refprelude = G + g.defs + pre
    for b, _, dsc in fns:
        if b: p.fn('long', PAR, b, desc=dsc)
    return p

def fixed():
    p = Prog('fixed', G + '''struct P_S { int a, b; }; struct P_N { char c; struct P_S s[2]; int e; }; struct P_B { int a : 5; unsigned b : 11; int c : 16; long d : 40; };
union P_U { char c; int i; double d; struct { short x, y; } s; };
static int P_ext = 5; extern int P_later; static int *P_pl = &P_later; int P_later = 77; static int P_tent[3]; static int *P_pt = P_tent + 1; static int *P_cl = &(int){ 42 }; static struct P_S *P_cs = &(struct P_S){ 3, 4 }; static int *P_ca = (int[]){ 7, 8, 9 };
static const char *const P_names[] = { "zero", "one", [3] = "three", "four", [1] = "uno" }; static char P_u[] = "hello", P_u2[8] = "hello", P_u3[5] = "hello", P_u4[] = { "brace" }, P_u5[2][3] = { "ab", "cde" };
static int P_w[] = L"wide"; static unsigned short P_w2[] = u"ab" "c"; static unsigned P_w3[4] = U"xyz"; static struct { int n; char t[]; } P_fl0; static int (*P_ops[])(int) = { P_fa, [2] = P_fb };
static struct P_S P_arr[] = { 1, 2, 3, [4] = { 5 }, 6, 7, [2].b = 8 }; static int P_m[][2] = { 1, 2, { 3 }, 4, 5, 6 }; static long P_far = (long)1 << 33 | 7; static double P_dd[] = { 1, 2.5f, -3, 0x10p-2 }; static struct P_B P_bf = { -1, 2047, .d = -5, .c = 9 };
static union P_U P_ua = { 5 }, P_ub = { .d = 2.5 }, P_uc = { .s = { 1, 2 } }, P_ud = { .s.y = 9 }, P_ue = { .i = 1, .s = { 3, 4 } }, P_uf = { .s = { 3, 4 }, .i = 7 }; static void *P_self = &P_self; struct P_L { struct P_L *n; int v; }; static struct P_L P_l1, P_l2 = { &P_l1, 2 }; static struct P_L P_l1 = { &P_l2, 1 };
static const struct { unsigned char q; int *p; } P_mix[] = { { 200, &P_ext }, { .p = &P_tent[2] }, [3] = { 1 } }; static _Bool P_bo[] = { 2, 0, 0.5, 'x', P_E2 }; static char *P_cp[] = { P_G + 1, &P_G[2], (char *)(P_G + 3), &(*P_G), &*(P_G + 4), &P_G[5] - 1 }; static int *P_i2 = &P_m[1][1], *P_i3 = (int *)P_m + 3, (*P_i4)[2] = &P_m[2]; static long P_diff = &((struct P_N *)0)->e == 0 ? 1 : 2;
static unsigned long P_off = (unsigned long)&((struct P_N *)0)->e; static int P_neg = -(-2147483647 - 1 < 0); static unsigned char P_conv[] = { 256 + 7, -1, 3.99 }; static float P_ff[2] = { 16777217, 0.1 }; static long P_ul = 4294967295u, P_sl = -1, P_cl2 = (int)4294967295u;
''')
    E = [('long', [('unsigned char', 'k')], 'return *P_pl + *P_pt + *P_cl * 3 + P_cs->a * 5 + P_cs->b + P_ca[k % 3] + (P_pt - P_tent) * 1000;', 'compound literals and addresses'),
         ('long', [('unsigned char', 'k')], 'return sizeof(P_names) * 100 + (P_names[k % 5] ? P_names[k % 5][0] * 7 + P_names[k % 5][2] : 0);', 'array of strings'),
         ('long', [('unsigned char', 'k')], 'return sizeof P_u * 1000 + sizeof P_u4 * 100 + (k < 6 ? P_u[k] : k < 14 ? P_u2[k - 6] : k < 19 ? P_u3[k - 14] : k < 25 ? P_u4[k - 19] : k < 31 ? P_u5[0][k - 25] : 0);', 'string arrays'),
         ('long', [('unsigned char', 'k')], 'return sizeof P_w * 1000 + sizeof P_w2 * 100 + (k < 5 ? P_w[k] : k < 9 ? P_w2[k - 5] : k < 13 ? P_w3[k - 9] : 0);', 'wide string arrays'),
         ('long', [('unsigned char', 'k'), ('int', 'x')], 'int (*f)(int) = P_ops[k % 3]; return sizeof P_ops * 100000 + (f ? f(x) : -1);', 'function table'),
         ('long', [('unsigned char', 'k')], 'return sizeof P_arr * 1000 + (k & 1 ? P_arr[(k >> 1) % 6].a : P_arr[(k >> 1) % 6].b);', 'P_arr'), ('long', [('unsigned char', 'k')], 'return sizeof P_m * 1000 + P_m[(k >> 1) % 4][k & 1];', 'P_m'),
         ('double', [('unsigned char', 'k')], 'return P_dd[k & 3] + P_far;', 'P_dd'), ('long', [('unsigned char', 'k')], 'switch (k) { case 0: return P_bf.a; case 1: return P_bf.b; case 2: return P_bf.c; case 3: return P_bf.d; case 4: return sizeof P_bf; } return P_far;', 'P_bf'),
         ('long', [('unsigned char', 'k')], 'switch (k) { case 0: return P_ua.c; case 1: return P_ub.d * 2; case 2: return P_uc.s.x; case 3: return P_uc.s.y; case 4: return P_ud.s.x; case 5: return P_ud.s.y; case 6: return P_ue.s.x; case 7: return P_ue.s.y; case 8: return P_uf.i; } return 0;', 'unions'),
         ('long', [('unsigned char', 'k')], 'return (P_self == &P_self) + (P_l1.n == &P_l2) * 2 + (P_l2.n->n == P_l2.n->n->n->n) * 4 + P_l1.v * 100 + P_l2.v * 1000;', 'self and mutual reference'),
         ('long', [('unsigned char', 'k')], 'return sizeof P_mix * 100 + P_mix[k & 3].q * 2 + (P_mix[k & 3].p ? *P_mix[k & 3].p + 3 + (P_mix[k & 3].p == P_tent + 2) : 0);', 'P_mix'), ('long', [('unsigned char', 'k')], 'return P_bo[k % 5] + (P_cp[k % 6] - P_G) * 10 + (P_i2 - P_m[0]) * 100 + (P_i3 - P_m[0]) * 1000 + (P_i4 - P_m) * 10000;', 'addresses'),
         ('long', [('unsigned char', 'k')], 'switch (k) { case 0: return P_off; case 1: return P_neg; case 2: return P_conv[0]; case 3: return P_conv[1]; case 4: return P_conv[2]; case 5: return P_ul; case 6: return P_sl; case 7: return P_cl2; case 8: return P_diff; case 9: return *(int *)&P_ff[0]; case 10: return *(int *)&P_ff[1]; } return 0;', 'conversions in static initialisers'),
         ]
    for r, par, b, d in E: p.fn(r, par, b, desc=d)
    AB = [('int', 'a'), ('long', 'b'), ('unsigned char', 'k')]
    for b in ['int r = 0; for (int i = 0; i < 3; i++) { int v[4] = { i, a }; r = r * 3 + v[0] + v[1] * 5 + v[2] + v[3]; v[2] = 9; v[3] = 8; v[0] = 100; } return r;', 'int r = 0; for (int i = 0; i < 3; i++) { struct P_S *q = &(struct P_S){ i, a }; r = r * 5 + q->a + q->b; q->a = 99; q->b = 77; } return r;',
              'struct P_N x = { 1, { { a, 2 }, { 3, b } }, 5 }, y = x, z = { .s[1] = x.s[0], .s[0].b = 4 }; return (k & 1 ? y.s[1].b : z.s[1].a) * 3 + z.s[0].b + z.s[0].a + z.c + z.e;', 'struct P_B x = { a, b, a >> 3, b >> 5 }; switch (k) { case 0: return x.a; case 1: return x.b; case 2: return x.c; case 3: return x.d; } return 0;', 'struct P_B x = { .d = b, .b = a }; switch (k) { case 0: return x.a; case 1: return x.b; case 2: return x.c; case 3: return x.d; } return 0;',
              'int v[] = { a, [5] = 3, 4, [1] = 9 }; return sizeof v * 1000 + v[k % 7];', 'char s[] = "abc", t[6] = { \'x\', "pq"[1] }, u[2][4] = { "ab", { "cdef" } }; return sizeof s * 1000 + s[k & 3] * 7 + t[k % 6] + u[1][k & 3] + u[0][k & 3];', 'char s[10] = "hi"; int r = 0; for (int i = 0; i < 10; i++) r = r * 3 + s[i]; return r + a;', 'int v[2][3] = { { 1 }, { a, b } }, w[2][3] = { 1, a, 3, 4, b }; return v[k & 1][(k >> 1) % 3] * 7 + w[k & 1][(k >> 1) % 3];',
              'return ((struct P_S){ .b = a, .a = b }).b + ((int[]){ 1, a, 3 })[k % 3] + *(long[1]){ b } + sizeof (char[]){ "xyz" } + (int){ a };', 'struct P_S s = { a }, *q = &s; struct P_N n = { .s = { *q, { b } }, .e = q->a }; return n.s[0].a + n.s[1].a * 3 + n.s[0].b + n.s[1].b + n.e * 7;', 'union P_U u = { .s = { a, b } }; union P_U v = { a }; union P_U w = u; return u.s.x * 3 + u.s.y + v.c + w.s.y;', 'int x = { a }, *q = { &x }; long y = { b }; return *q + y;',
              'int n = a & 3; int t[4] = { n++, 0, 0, 0 }; return t[0] * 10 + n + t[1];', 'struct { struct { int p; } q[2]; int r; } x = { { { a }, { b } }, 5 }, y = { .q[1].p = a, b }, z = { .q[0] = { a }, { b }, 6 }; switch (k & 7) { case 0: case 1: return x.q[k & 1].p; case 2: case 3: return y.q[k & 1].p; case 4: return y.r; case 5: return x.r; case 6: case 7: return z.q[k & 1].p; } return 0;', 'struct { struct { int p; } q[2]; int r; } z = { .q[0] = { a }, { b }, 6 }; return z.r;', 'goto l; { int x[3] = { 1, 2, 3 }; l: x[0] = a; x[1] = 5; return x[0] + x[1]; }', 'int r = 0; again: ; int x[3] = { a, r }; x[2] += 5; if (r++ < 2) goto again; return x[0] * 100 + x[1] * 10 + x[2];',
              'switch (a) { int z; case 1: { int w[2] = { 5 }; z = w[0] + w[1]; return z; } default: z = 7; int y[2] = { z }; return y[0] + y[1] * 3; }', 'static int c[3] = { 1, 2, 3 }; c[1] += a; return c[0] + c[1] + c[2];', 'struct P_S f[2] = { [1] = (struct P_S){ a, b }, [0] = { .b = 3 } }; return f[k & 1].a * 5 + f[k & 1].b;', 'struct P_S f = (struct P_S){ a, b }; struct P_S *g = (struct P_S[]){ f, { 3, 4 } }; return g[k & 1].a * 5 + g[k & 1].b;', 'long v = (a, b); int w = a ? k : 3; return v + w;',
              'const char *s = k & 1 ? "abc" : "defg", *t = "abc"; return s[1] * 3 + t[2] + sizeof "abcde" + "xyz"[k % 4];', 'double d[3] = { a, 2.5f }; float f[2] = { b }; return d[0] + d[1] * 2 + d[2];', 'unsigned char v[9] = { a, b, 300, [7] = -1 }; return v[k % 9];', '_Bool v[4] = { a, b, 256, 0.5 }; return v[k & 3];', 'struct { char a; struct { char b; int c; }; char d; } x = { 1, { a, b }, 3 }, y = { 1, a, b, 3 }, z = { .c = a, 7 }; return x.b + x.c * 3 + x.d + y.b + y.c * 3 + y.d + z.c * 5 + z.d + z.a + z.b;', 'struct { union { int i; char c[4]; }; int t; } x = { 0x1234567, a }, y = { .c = "abc", 4 }, z = { { .c[1] = 5 }, a }; return x.i + x.t + y.c[k & 3] + y.t + z.c[1] * 3 + z.t;']:
        p.fn('long', AB, b, desc=b)
    return p

def bitinit():
    """bit-fields side by side in one unit, initialised automatically and statically, for many widths"""
    p = Prog('bitinit', '')
    W = {'unsigned char': [(4, 4), (1, 7), (7, 1), (3, 2)], 'signed char': [(4, 4), (5, 3), (2, 6)], 'short': [(8, 8), (1, 15), (4, 8), (7, 9)], 'unsigned short': [(8, 8), (15, 1), (3, 10)], 'int': [(8, 16), (16, 16), (16, 8), (1, 31), (31, 1), (24, 8), (8, 24), (8, 8), (5, 16)], 'unsigned': [(8, 16), (16, 16), (24, 8), (1, 31), (10, 11)],
         'long': [(8, 32), (32, 16), (32, 32), (16, 16), (1, 63), (63, 1), (31, 32), (33, 31), (24, 8), (8, 8), (16, 8), (40, 16), (56, 8), (1, 32), (20, 33)], 'unsigned long': [(8, 32), (32, 32), (16, 32), (48, 16), (63, 1), (7, 57), (32, 8)]}
    for k, (t, l) in enumerate(W.items()):
        n = 8 * size(t)
        for j, (a, b) in enumerate(l):
            r = n - a - b; i = '%d_%d' % (k, j); dc = '%s:%d, :%d, :%d' % (t, a, b, r)
            d = 'struct P_T%s { %s a : %d, b : %d%s; short z; };\n' % (i, t, a, b, ', c : %d' % r if r else '')
            V = [-1, 5, 0x1234567890abcdef, -7, 1 << (b - 1)]; v = [V[(j + q) % 5] & ((1 << w) - 1) for q, w in ((0, a), (4, b), (2, max(r, 1)))]
            st = 'static struct P_T%s P_s%s = { %d, %dul%s, .z = -3 };\n' % (i, i, v[0], v[1], ', %dul' % v[2] if r else '')
            p.prelude += d + st; p.refprelude += d + st; C = ' case 3: return x.c;' if r else ''
            p.fn('long', [('long', 'p'), ('long', 'q'), ('long', 'r'), ('unsigned char', 'k')], 'struct P_T%s x = { p, q%s }; switch (k) { case 0: return x.a; case 1: return x.b;%s case 4: x = P_s%s; return x.a; case 5: x = P_s%s; return x.b; case 6: return P_s%s.%s; case 7: return P_s%s.z; } return x.z;' % (i, ', r' if r else '', C, i, i, i, 'c' if r else 'b', i), desc='automatic and static initialisers of {%s}' % dc)
            p.fn('long', [('int', 'p'), ('unsigned', 'q'), ('unsigned char', 'k')], 'struct P_T%s x = { .b = p, .a = q%s, .z = 9 }; return k & 1 ? x.a : k & 2 ? x.b : k & 4 ? x.z : %s;' % (i, ', .b = q' if j % 2 else '', 'x.c' if r else '0'), desc='designated initialisers of {%s}' % dc)
    return p

def check():
    c = core.Check('C10', 'translation_validation')
    n = 24 if core.TIER == 'quick' else 400
    c.bounds = ['types of up to about 60 scalars nested 4 deep (arrays, structures, unions, anonymous members, bit-fields, pointers), %d random initialisers plus a fixed list' % (n * 6), 'every scalar of the object (chosen symbolically), all values of the variables used in automatic initialisers', 'braces present or elided, designators (nested, out of order, repeated), strings, structure-valued expressions, compound literals, addresses']
    c.outside = ['members of unions other than the one initialised last', 'overriding part of a structure initialised by an expression (6.7.9p19 leaves it to interpretation)', 'order of side effects in initialisers (unspecified)']
    jobs(c, fixed(), per=12); jobs(c, bitinit(), per=20)
    for k in range(n): jobs(c, random_prog(core.SEED * 4001 + k, 'init%d' % k, 6))
    return c
