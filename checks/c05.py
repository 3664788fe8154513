"""C05: floating point arithmetic, comparisons and conversions."""
import random
import core, tv
from tv import *
F = ['float', 'double']
CMP = ['<', '>', '<=', '>=', '==', '!=']
def bits(t): return '(long *)' 
def K(t): return 'd'

def arith():
    ps = []
    for a in F:
        p = Prog('arith_' + a)
        for b in F:
            ct = common(a, b)
            for o in '+-*/':
                p.fn(ct, [(a, 'a'), (b, 'b')], 'return a %s b;' % o, desc='%s a %s %s b' % (a, o, b))
            its = [('l', 'a%sb' % o, 'a %s b' % o) for o in CMP] + [('l', '!(a%sb)' % o, '!(a %s b)' % o) for o in CMP] + [('l', '(a%sb)?' % o, 'a %s b ? 5 : 9' % o) for o in CMP] + [('l', 'a&&b', 'a && b'), ('l', 'a||b', 'a || b')]
            p.out([(a, 'a'), (b, 'b')], its, desc='%s a, %s b' % (a, b))
            p.fn('int', [(a, 'a'), (b, 'b')], 'int r = 0; if (a < b) r = 1; if (a == b) r += 2; if (a > b) r += 4; if (a != b) r += 8; if (a <= b) r += 16; if (a >= b) r += 32; while (a != a) return r + 64; return r;', desc='if chain %s %s' % (a, b))
            p.fn(ct, [(a, 'a'), (b, 'b'), ('int', 'c')], 'return c ? a : b;', desc='?: %s %s' % (a, b))
            p.fn(a, [(a, 'a'), (b, 'b')], 'a = b; return a;', desc='%s = %s' % (a, b))
            for o in '+-*/':
                p.fn(a, [(a, 'a'), (b, 'b')], 'return a %s= b;' % o, desc='%s %s= %s' % (a, o, b))
            p.fn(b, [(a, 'a')], 'return a;', desc='%s to %s' % (a, b)); p.fn(b, [(a, 'a')], 'return (%s)a;' % b, desc='(%s)%s' % (b, a))
        p.fn(a, [(a, 'a')], 'return -a;', desc='-%s' % a); p.fn(a, [(a, 'a')], 'return +a;', desc='+%s' % a); p.fn(a, [(a, 'a')], 'return - -a;', desc='- -%s' % a)
        p.out([(a, 'a')], [('l', '!a', '!a'), ('l', '!!a', '!!a'), ('l', 'a?', 'a ? 3 : 4'), ('l', '(_Bool)a', '(_Bool)a'), ('l', 'a==a', 'a == a'), ('l', 'a!=0', 'a != 0'), ('l', 'a<0', 'a < 0'), ('l', '0<a', '0 < a'), ('l', 'a>=1.5', 'a >= 1.5'), ('l', 'a>1.5f', 'a > 1.5f')], desc='%s a' % a)
        p.fn('int', [(a, 'a')], 'if (a) return 1; return 0;', desc='if (%s)' % a); p.fn('int', [(a, 'a')], 'int n = 0; while (a) { n++; a = 0; } do n += 2; while (a); for (; a;) n++; return n;', desc='loops on %s' % a)
        p.fn('int', [(a, 'a')], '_Bool b = a; return b;', desc='_Bool b = %s' % a)
        for e in ('a++', 'a--', '++a', '--a'):
            p.fn(a, [(a, 'a')], 'return %s;' % e, desc='%s %s' % (a, e)); p.fn(a, [(a, 'a')], '%s; return a;' % e, desc='%s; %s' % (a, e))
            p.fn('void', [(a + ' *', 'p')], '(*p)%s' % (e[1:] + ';') if e[0] == 'a' else e[:2] + '*p;', desc='%s memory %s' % (a, e), bufsz=8)
        p.fn(a, [(a, 'a'), (a, 'b'), (a, 'c')], 'return a * b + c;', desc='%s fma shape' % a); p.fn(a, [(a, 'a'), (a, 'b'), (a, 'c')], 'return (a - b) / (b - c);', desc='%s (a-b)/(b-c)' % a)
        p.fn(a, [(a, 'a'), (a, 'b'), (a, 'c'), (a, 'd')], 'return a + b * (c - d / a) - c;', desc='%s nested' % a)
        p.fn(a, [(a + ' *', 'p'), ('unsigned char', 'i')], 'return p[i & 3];', desc='%s p[i]' % a, bufsz=32); p.fn('void', [(a + ' *', 'p'), ('unsigned char', 'i'), (a, 'v')], 'p[i & 3] = v;', desc='%s p[i]=v' % a, bufsz=32)
        p.fn(a, [(a, 'a')] * 1 + [(a, 'b%d' % k) for k in range(7)], 'return b6;', desc='8th %s' % a)
        ps.append(p)
    return ps

def conv():
    ps = []
    for f in F:
        p = Prog('conv_' + f)
        for t in INT:
            p.fn(f, [(t, 'a')], 'return a;', desc='%s -> %s' % (t, f)); p.fn(f, [(t, 'a')], 'return (%s)a;' % f, desc='(%s)%s' % (f, t))
            p.fn(t, [(f, 'a')], 'return a;', pre=pre_f2i(t, 'a'), desc='%s -> %s' % (f, t)); p.fn('long', [(f, 'a')], 'return (%s)a;' % t, pre=pre_f2i(t, 'a'), desc='(%s)%s' % (t, f))
            p.fn('void', [(t + ' *', 'p'), (f, 'a')], '*p = a;', pre=pre_f2i(t, 'a'), bufsz=8, desc='%s *p = %s' % (t, f))
        ps.append(p)
        p = Prog('mixed_' + f)
        for t in INT:
            for o in ('+', '*', '-', '/'):
                p.fn(common(f, t), [(t, 'a'), (f, 'b')], 'return a %s b;' % o, desc='%s %s %s' % (t, o, f)); p.fn(common(f, t), [(t, 'a'), (f, 'b')], 'return b %s a;' % o, desc='%s %s %s' % (f, o, t))
            for o in ('<', '==', '!=', '>='): p.fn('int', [(t, 'a'), (f, 'b')], 'return a %s b;' % o, desc='%s %s %s' % (t, o, f))
            p.fn(common(f, t), [(t, 'a'), (f, 'b'), ('int', 'c')], 'return c ? a : b;', desc='?: %s %s' % (t, f))
            p.fn(f, [(f, 'b'), (t, 'a')], 'return b += a;', desc='%s += %s' % (f, t)); p.fn(f, [(f, 'b'), (t, 'a')], 'return b *= a;', desc='%s *= %s' % (f, t))
        ps.append(p)
    return ps

CONSTS = ['0.0', '-0.0', '1.0', '0.5', '1.5f', '0.1', '0.1f', '3.14159', '1e10', '1e-10f', '1e300', '1e-310', '16777217.0', '9007199254740993.0', '0x1p10', '0x1.8p1f', '.5', '5.', '1e38f', '123456789.0f']
def consts():
    p = Prog('consts')
    for c in CONSTS:
        t = 'float' if c.endswith('f') and not c.startswith('0x1p') else 'double'
        p.fn(t, [], 'return %s;' % c, desc=c); p.fn('double', [], 'return %s;' % c, desc='double ' + c); p.fn('float', [], 'return %s;' % c, desc='float ' + c)
        for f in F: p.fn('int', [(f, 'a')], 'return a < %s;' % c, desc='%s < %s' % (f, c)); p.fn('double', [(f, 'a')], 'return a * %s;' % c, desc='%s * %s' % (f, c))
    for c in ('1', '-1', '0', '2147483647', '4294967295u', '9223372036854775807L', '18446744073709551615uL', "'a'", '(char)-1'):
        for f in F: p.fn(f, [], 'return %s;' % c, desc='%s = %s' % (f, c)); p.fn(f, [], 'return (%s)%s;' % (f, c), desc='(%s)%s' % (f, c)); p.fn(common(f, 'int'), [(f, 'a')], 'return a + %s;' % c, desc='%s + %s' % (f, c))
    q = Prog('fold')
    ex = ['1.5 + 2.25', '1.0 / 3', '0.1f + 0.2f', '0.1f + 0.2', '1.0f / 3.0f', '2 * 0.5', '10 / 4.0', '1e308 * 10', '-(0.0)', '1.5 - 3', '-1.5f', '(float)0.1', '(double)0.1f', '(float)16777217', '3u * 0.5f', '1 ? 2 : 3.5', '0 ? 2 : 3.5f', '(int)2.9 + 0.0', '(int)-2.9 * 1.0', '(float)1 / 3', '-1 + 0.0', '4294967295u + 0.0', '18446744073709551615uL + 0.0', '-9223372036854775807L + 0.0f', '(unsigned char)200.7 + 0.0', '(short)-5.5 + 0.0f', '!0.0 + 0.0', '!1.5 + 0.0']
    for e in ex: q.fn('double', [], 'static double d = %s; return d;' % e, desc='static ' + e); q.fn('double', [], 'return %s;' % e, desc=e); q.fn('float', [], 'static float d = %s; return d;' % e, desc='static float ' + e)
    ce = ['1.5 < 2', '0.5 == 0.5f', '0.1 == 0.1f', '1.0 != 1', '2.5 >= 2.5', '0.0 == -0.0', '1e308 * 10 > 1e308', '(int)2.9', '(int)-2.9', '(unsigned)4e9', '(long)1e18', '(unsigned long)1e19', '(char)65.9', '(_Bool)0.5', '(_Bool)0.0', '(_Bool)0.1f', '!0.5', '!0.0', '0.5 && 1', '0.0 || 0.0', '0.0 ? 1 : 2', '0.5 ? 1 : 2', 'sizeof(1.0f + 1)', 'sizeof(1.0 + 1.0f)', '-1 < 0.0', '4294967295u > 4294967294.0']
    for e in ce: q.fn('long', [], 'static long d = %s; return d;' % e, desc='static ' + e); q.fn('long', [], 'return %s;' % e, desc=e); q.fn('long', [('long', 'x')], 'return x + (%s);' % e, desc='x + ' + e)
    return [p, q]

def rnd(seed, n, depth, name):
    R = random.Random(seed); p = Prog(name); T = ['float', 'double', 'float', 'double', 'int', 'long', 'unsigned', 'unsigned char', 'short']
    def expr(d, vs):
        if d == 0 or R.random() < .1:
            if R.random() < .2: c = R.choice(['1.5', '0.5f', '3', '2u', '-1', '1e5', '0.0']); return c, 'float' if c.endswith('f') else 'double' if '.' in c or 'e' in c else 'unsigned' if c.endswith('u') else 'int'
            v = R.choice(vs); return v[1], v[0]
        k = R.random()
        if k < .6:
            a, ta = expr(d - 1, vs); b, tb = expr(d - 1, vs); o = R.choice(['+', '-', '*', '+', '-', '/', '<', '>', '==', '<=', '!=', '&&', '||'])
            ct = common(ta, tb)
            if o == '/' and isint(ct): o = '-'
            return '(%s %s %s)' % (a, o, b), 'int' if o in ('<', '>', '==', '<=', '!=', '&&', '||') else ct
        if k < .7:
            a, ta = expr(d - 1, vs); o = R.choice(['-', '!', '+']); return '(%s%s)' % (o, a), 'int' if o == '!' else promote(ta)
        if k < .85:
            a, ta = expr(d - 1, vs); t = R.choice(['float', 'double'] + ([] if ta in FLT else ['int', 'unsigned char', 'long'])); return '((%s)%s)' % (t, a), t
        a, ta = expr(d - 1, vs); b, tb = expr(d - 1, vs); c, tc = expr(d - 1, vs); return '(%s ? %s : %s)' % (a, b, c), common(tb, tc)
    for k in range(n):
        vs = [(R.choice(T), v) for v in 'abcd']; e, t = expr(depth, vs)
        p.fn(t if t in FLT else 'long', vs, 'return %s;' % e, desc=', '.join('%s %s' % v for v in vs) + ': ' + e)
    return p

def check():
    c = core.Check('C05', 'translation_validation')
    c.bounds = ['all values of up to 8 float/double/integer parameters', 'every float/integer type pair under every operator; random nested expressions of depth <= 3']
    c.outside = ['long double (not supported by the compiler)', 'rounding modes other than to-nearest', 'NaN payloads and signs', 'conversions of out-of-range values to integers (undefined)']
    c.assumptions = ['the processor and the reference evaluate +,-,*,/ identically: both are the same uninterpreted function, except on constants, where the host computes']
    for p in arith(): jobs(c, p, per=60)
    for p in conv(): jobs(c, p, per=40)
    for p in consts(): jobs(c, p, per=80)
    for k in range(1 if core.TIER == 'quick' else 8): jobs(c, rnd(core.SEED * 77 + k, 16, 3, 'random%d' % k))
    return c
