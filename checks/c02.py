"""C02: constant folding."""
import random
import core, lit
from lit import H, Cases
from tv import INT, FLT, isint, size, signed, promote, common, smin, pre_div, pre_shift, pre_f2i

PRE = r'''
typedef unsigned long u64;
static inline u64 bits(const uint8_t *h, int n) { u64 v = 0; for (int k = 0; k < n; k++) v = v * 2 + (h[k] - '0'); return v; }
static inline u64 pun(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline unsigned punf(float d) { unsigned x; memcpy(&x, &d, 4); return x; }
'''
TY = list(INT)
def width(t): return 8 if t == '_Bool' else 8 * size(t)

class E:
    """an expression over literals: text for the compiler under test, text for the reference, type, precondition"""
    def __init__(s, txt, ref, ty, pre='1', holes=0): s.txt = txt; s.ref = ref; s.ty = ty; s.pre = pre; s.holes = holes
class Gen:
    def __init__(s, R): s.R = R; s.n = 0; s.decl = ''
    def leaf(s, t, w=None):
        w = w or width(t); k = s.n; s.n += w; v = 'a%d' % k
        if t in FLT: # an integer of w bits converted to the floating type
            s.decl += 'const %s %s = (%s)(long)bits(h + %d, %d) %s; ' % (t, v, t, k, w, '' ); return E('(%s)0b%sL' % (t, H * w), v, t, holes=w)
        s.decl += 'const %s %s = (%s)bits(h + %d, %d); ' % (t, v, t, k, w)
        return E('(%s)0b%sull' % (t, H * w), v, t, holes=w)
    def un(s, op, a):
        t = 'int' if op == '!' else promote(a.ty); return E('%s(%s)' % (op, a.txt), '(%s(%s))' % (op, a.ref), t, a.pre)
    def cast(s, t, a):
        pre = a.pre
        if a.ty in FLT and isint(t): pre = '(%s && %s)' % (pre, pre_f2i(t, a.ref))
        return E('(%s)(%s)' % (t, a.txt), '((%s)(%s))' % (t, a.ref), t, pre)
    def bin(s, op, a, b):
        pre = a.pre if b.pre == '1' else '(%s && %s)' % (a.pre, b.pre)
        if op in ('<<', '>>'):
            t = promote(a.ty); pre = '(%s && %s)' % (pre, pre_shift(a.ty, b.ref, b.ty))
        elif op in ('&&', '||'): t = 'int'; pre = '(%s && (%s(%s) || %s))' % (a.pre, '!' if op == '&&' else '', a.ref, b.pre) if b.pre != '1' else a.pre
        else:
            ct = common(a.ty, b.ty); t = 'int' if op in ('<', '>', '<=', '>=', '==', '!=') else ct
            if op in ('/', '%') and isint(ct): pre = '(%s && %s)' % (pre, pre_div(ct, a.ref, b.ref))
        return E('(%s) %s (%s)' % (a.txt, op, b.txt), '((%s) %s (%s))' % (a.ref, op, b.ref), t, pre)
    def cond(s, c, a, b):
        pre = c.pre
        if a.pre != '1' or b.pre != '1': pre = '(%s && ((%s) ? %s : %s))' % (c.pre, c.ref, a.pre, b.pre)
        return E('(%s) ? (%s) : (%s)' % (c.txt, a.txt, b.txt), '((%s) ? (%s) : (%s))' % (c.ref, a.ref, b.ref), common(a.ty, b.ty), pre)

TYPEIDX = {'int': 0, 'unsigned': 1, 'long': 2, 'unsigned long': 3, 'long long': 4, 'unsigned long long': 5, 'float': 6, 'double': 7}
GENERIC = '_Generic(X, int: 0, unsigned: 1, long: 2, unsigned long: 3, long long: 4, unsigned long long: 5, float: 6, double: 7, char: 8, signed char: 9, unsigned char: 10, short: 11, unsigned short: 12, _Bool: 13, default: 99)'
ALLIDX = dict(TYPEIDX, **{'char': 8, 'signed char': 9, 'unsigned char': 10, 'short': 11, 'unsigned short': 12, '_Bool': 13})

def static_case(C, g, e, desc, each=False):
    """value in a static initialiser, and its type"""
    n = e.txt.count(H)
    if e.ty in FLT:
        src = '#define X %s\n%s v = X; char t = %s;' % (e.txt, e.ty, GENERIC); st = 'ex_int(e, "v", %d, %s(%s));' % (size(e.ty), 'pun' if e.ty == 'double' else 'punf', e.ref)
    else:
        src = '#define X %s\nlong v = X; char t = %s;' % (e.txt, GENERIC); st = 'ex_int(e, "v", 8, (u64)(%s));' % e.ref
    C.add(desc, src, ['!01' if each else '01'] * n, '%sif (!(%s)) { e->accept = 3; return; } %s ex_int(e, "t", 1, %d);' % (g.decl, e.pre, st, ALLIDX[e.ty]))

def binops(R, quick):
    C = Cases('bin', PRE)
    ops = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
    pairs = [(a, b) for a in TY for b in TY]
    base = [('int', 'int'), ('unsigned', 'int'), ('long', 'int'), ('unsigned long', 'long'), ('signed char', 'unsigned short'), ('int', 'unsigned')]
    for op in ops:
        sel = list(dict.fromkeys(base + R.sample(pairs, 3 if quick else 60)))
        for a, b in sel:
            g = Gen(R); hard = op in ('*', '/', '%')
            # multiplication and division: bounded operands, as in the other checks of arithmetic the solver cannot otherwise decide
            wa = min(width(a), 10 if op != '*' else 12) if hard else None; wb = min(width(b), 6 if op != '*' else 6) if hard else None
            x = g.leaf(a, wa); y = g.leaf(b, wb)
            if hard and signed(a) and R.random() < .6: x = g.un('-', x)
            if hard and signed(b) and R.random() < .4: y = g.un('-', y)
            static_case(C, g, g.bin(op, x, y), '(%s) %s (%s)' % (a, op, b))
    for t in TY:
        for op in ('-', '+', '~', '!'):
            g = Gen(R); static_case(C, g, g.un(op, g.leaf(t)), '%s (%s)' % (op, t))
    for a, b in (R.sample(pairs, 40) if quick else pairs):
        g = Gen(R); static_case(C, g, g.cast(b, g.leaf(a)), '(%s)(%s)' % (b, a))
    for a, b in R.sample(pairs, 8 if quick else 60):
        g = Gen(R); static_case(C, g, g.cond(g.leaf(R.choice(TY)), g.leaf(a), g.leaf(b)), 'c ? %s : %s' % (a, b))
    return C

def floats(R, quick):
    C = Cases('flt', PRE)
    for op in ['+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=']:
        for a, b in [('double', 'double'), ('float', 'float'), ('float', 'double'), ('int', 'double'), ('float', R.choice(TY)), (R.choice(TY), R.choice(['float', 'double']))]:
            g = Gen(R); x = g.leaf(a, 40 if a in FLT else None); y = g.leaf(b, 40 if b in FLT else None); static_case(C, g, g.bin(op, x, y), '(%s) %s (%s)' % (a, op, b))
    for f in FLT:
        for t in TY if not quick else R.sample(TY, 5) + ['unsigned long', 'long', '_Bool']:
            g = Gen(R); static_case(C, g, g.cast(f, g.leaf(t)), '(%s)(%s)' % (f, t))
            g = Gen(R); static_case(C, g, g.cast(t, g.leaf(f, 20)), '(%s)(%s)' % (t, f))
        g = Gen(R); static_case(C, g, g.un('-', g.leaf(f, 30)), '-(%s)' % f); g = Gen(R); static_case(C, g, g.un('!', g.leaf(f, 30)), '!(%s)' % f)
        g = Gen(R); static_case(C, g, g.cond(g.leaf(f, 30), g.leaf('int'), g.leaf(f, 30)), '(%s) ? int : %s' % (f, f))
        g = Gen(R); static_case(C, g, g.cast('double' if f == 'float' else 'float', g.leaf(f, 40)), 'conversion between floating types')
    # NaN, infinities and zeros of either sign
    def special(g, f): x = g.bin('/', g.leaf(f, 1), g.leaf(f, 1)); return x
    for f in FLT:
        for op in ['<', '>', '<=', '>=', '==', '!=', '&&', '||']:
            for neg in (0, 1):
                g = Gen(R); x = special(g, f); y = special(g, 'double' if R.random() < .3 else f); y = g.un('-', y) if neg else y
                static_case(C, g, g.bin(op, x, y), 'special values: %s %s' % (f, op), True)
        for neg in (0, 1):
            m = lambda g, x: g.un('-', x) if neg else x
            g = Gen(R); static_case(C, g, g.un('!', m(g, special(g, f))), 'special values: !(%s)' % f, True)
            g = Gen(R); static_case(C, g, g.cast('_Bool', m(g, special(g, f))), 'special values: (_Bool)(%s)' % f, True)
            g = Gen(R); static_case(C, g, g.cond(m(g, special(g, f)), g.leaf('int', 4), g.leaf('int', 4)), 'special values: (%s) ? int : int' % f, True)
            g = Gen(R); static_case(C, g, g.bin('>', g.bin('/', g.leaf(f, 1), m(g, g.leaf(f, 1))), g.leaf(f, 2)), 'sign of zero, %s' % f, True)
            for op in '+-*/':
                g = Gen(R); x = g.bin(op, m(g, special(g, f)), special(g, f)); static_case(C, g, g.bin('<=', x, g.leaf(f, 1)), 'special values: %s %s' % (f, op), True); g = Gen(R); z = g.leaf(f, 1); x = g.bin(op, special(g, f), m(g, special(g, f))); static_case(C, g, g.bin('>=', z, x), 'special values: %s %s' % (f, op), True)
    return C

def nested(R, n):
    C = Cases('nest', PRE)
    for k in range(n):
        g = Gen(R)
        def ex(d):
            x = R.random()
            if d == 0 or x < .15: return g.leaf(R.choice(TY), R.choice([3, 8, 16]) if True else None)
            if x < .25: return g.un(R.choice('-~!+'), ex(d - 1))
            if x < .37: return g.cast(R.choice(TY), ex(d - 1))
            if x < .45: return g.cond(ex(d - 1), ex(d - 1), ex(d - 1))
            a = ex(d - 1); op = R.choice(['+', '-', '+', '-', '&', '|', '^', '<', '>=', '==', '!=', '&&', '||', '<<', '>>'])
            return g.bin(op, a, ex(d - 1))
        e = ex(R.choice([2, 3]))
        while g.n > 90 or g.n == 0: g.n = 0; g.decl = ''; e = ex(2)
        static_case(C, g, e, 'nested expression %d' % k)
    return C

def contexts(R, quick):
    """the other places that need a constant expression"""
    C = Cases('ctx', PRE)
    def lits(k, w): return ['0b' + H * w] * k
    for op in ['+', '-', '*', '/', '%', '<<', '&', '|', '^', '>>', '<', '==']:
        e = '0b%s %s 0b%s' % (H * 4, op, H * 2); d = 'int a = bits(h, 4), b = bits(h + 4, 2); ' + ('if (!b) { e->accept = 0; return; } ' if op in '/%' else '') + 'int x = a %s b; ' % op; s8 = ['01'] * 6
        C.add('enumerator a %s b' % op, 'enum { A = %s, B, D = A - 9, F }; int v[4] = { A, B, D, F };' % e, s8, d + 'int v[4] = {x, x + 1, x - 9, x - 8}; ex_bytes(e, "v", 16, v);')
        C.add('array size a %s b' % op, 'char a[%s]; unsigned long v = sizeof a, w = sizeof(char[2][sizeof a]);' % e, s8, d + 'if (x <= 0) { e->accept = x < 0 ? 0 : 3; return; } ex_int(e, "v", 8, x); ex_int(e, "w", 8, 2 * x);')
        C.add('bit-field width a %s b' % op, 'struct S { int : 3; int x : %s; long y; } s = { -1, -1 }; int v = (int)sizeof s;' % e, s8, d + 'if (x < 1 || x > 32) { e->accept = x == 0 || x < 0 || x > 32 ? 0 : 3; return; } ex_int(e, "v", 4, 16); u64 m = ((1ull << x) - 1) << (x <= 29 ? 3 : 32); ex_int(e, "s", 8, m);')
        C.add('static assertion a %s b' % op, '_Static_assert(%s, "m"); int v = 1; struct T { int a; _Static_assert(%s, "m"); }; ' % (e, e), s8 * 2, 'int a = bits(h, 4), b = bits(h + 4, 2), c = bits(h + 6, 4), f = bits(h + 10, 2); ' + ('if (!b || !f) { e->accept = 0; return; } ' if op in '/%' else '') + 'e->accept = (a %s b) && (c %s f); if (e->accept) ex_int(e, "v", 4, 1);' % (op, op))
        C.add('alignment from a %s b' % op, '_Alignas(1 << ((%s) & 3)) char v; int w = _Alignof(int) + 1;' % e, s8, d + 'ex_int(e, "v", 1, 0); ex_int(e, "w", 4, 5);')
        C.add('designator a %s b' % op, 'int v[70] = { [(%s) & 15] = 7, 8 };' % e, s8, d + 'int v[18] = {0}; int i = x & 15; for (int k = 0; k < 17; k++) { if (k == i) { v[k] = 7; v[k + 1] = 8; } } ex_bytes(e, "v", 68, v);')
    for a in ['1 / 0', '1 % 0', '1u / 0', '1u % 0u', '1L / 0', '1ul % 0', '(1 / 0) + 2', '1 << (1 / 0)']:
        for ctx in ['enum { A = %s };', 'char a[%s];', '_Static_assert(%s, "x");', 'int v = %s;', 'struct S { int x : %s; };', 'int f(int x) { switch (x) { case %s: return 1; } return 0; }']:
            C.add('%s with %s' % (ctx, a), ctx % a, [], 'e->accept = 0;')
        C.add('unevaluated ' + a, 'int v = 1 ? 3 : (%s); int w = 0 && (%s); int x = 1 || (%s); int y = sizeof(%s) ? 5 : 6; int f(int c) { if (0) return %s; return c ? 1 : (%s); }' % (a, a, a, a, a, a), [], 'ex_int(e, "v", 4, 3); ex_int(e, "w", 4, 0); ex_int(e, "x", 4, 1); ex_int(e, "y", 4, 5);')
    C.add('division by a symbolic literal', 'int f(int c) { return c ? %s / %s : %s %% %s; } enum { A = 1 }; int v = A;' % tuple(lits(4, 2)), ['01'] * 8, 'ex_int(e, "v", 4, 1);')
    return C

def check():
    c = core.Check('C02'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 37 + 2)
    c.bounds = ['every operand is a binary literal whose digits are all symbolic, as wide as its type (any value of the type); multiplication up to 12 x 6 bits, division 10 by 6 bits, with either sign', 'all binary and unary operators over the standard integer types (a sample of the type pairs), casts between all pairs, conditional expressions, float and double operands up to 40-bit integers, %d random nested expressions' % (60 if quick else 500), 'static initialisers (value and type), enumerators, array sizes, bit-field widths, static assertions, alignments, designators']
    c.outside = ['signed overflow and out-of-range shifts (undefined); overflow is compared as wrapping', 'addresses in constant expressions (see C10)', 'long double']
    lit.jobs(c, binops(R, quick), per=4); lit.jobs(c, floats(R, quick), per=4); lit.jobs(c, nested(R, 60 if quick else 500), per=4); lit.jobs(c, contexts(R, quick), per=2)
    return c
