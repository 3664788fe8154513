"""C01: integer and mixed arithmetic expressions."""
import random
import core, tv
from tv import *

def decls(*ts): return [(t, 'abcdef'[i]) for i, t in enumerate(ts)]
BIN = ['+', '-', '*', '&', '|', '^']
CMP = ['<', '>', '<=', '>=', '==', '!=']

def binary():
    ps = []
    for a in INT:
        p = Prog('binary_' + a.replace(' ', '_'))
        for b in INT:
            ct = common(a, b)
            its = [('l', 'a%sb' % o, 'a %s b' % o) for o in BIN + CMP + ['&&', '||']]
            its += [('l', '(a%sb)>-1' % o, '(a %s b) > -1' % o) for o in ('+', '|')] + [('l', 'b?a:b', 'b ? a : b'), ('l', '(a,b)', '(a, b)')]
            p.out(decls(a, b), its, desc='%s a, %s b' % (a, b))
            p.out(decls(a, b), [('l', 'a/b', 'a / b'), ('l', 'a%b', 'a % b')], pre=pre_div(ct, 'a', 'b'), desc='%s a, %s b' % (a, b))
            p.out(decls(a, b), [('l', 'a<<b', 'a << b'), ('l', 'a>>b', 'a >> b'), ('l', '(a>>b)>-1', '(a >> b) > -1')], pre=pre_shift(a, 'b', b), desc='%s a, %s b' % (a, b))
        ps.append(p)
    return ps

def compound():
    ps = []
    for a in INT:
        p = Prog('compound_' + a.replace(' ', '_'))
        for b in INT:
            ct = common(a, b)
            for o in ('+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>'):
                pre = pre_div(ct, '*p', 'b') if o in '/%' else pre_shift(a, 'b', b) if o in ('<<', '>>') else None
                pre = pre and pre.replace('a)', 'a)')
                if a == '_Bool': pre = (pre + ' && ' if pre else '') + '*(unsigned char *)p < 2'
                p.fn('long', [(a + ' *', 'p'), (b, 'b')], 'return *p %s= b;' % o, desc='%s *p %s= %s b' % (a, o, b), pre=pre, bufsz=8)
        for o in ('++*p', '--*p', '(*p)++', '(*p)--', '*p++', '*p--', 'p[1]++'):
            if o == '*p--': continue
            p.fn('long', [(a + ' *', 'p')], 'return %s;' % o, desc='%s *p; %s' % (a, o), bufsz=16, pre='*(unsigned char *)p < 2 && ((unsigned char *)p)[1] < 2' if a == '_Bool' else None)
        p.out([(a, 'a')], [('l', x, y) for x, y in (('a++', 'a++'), ('a', 'a'), ('++a', '++a'), ('a', 'a'), ('a--', 'a--'), ('a', 'a'), ('--a', '--a'), ('a', 'a'))], desc=a + ' local ++/--')
        ps.append(p)
    return ps

def unary():
    p = Prog('unary_casts')
    for a in INT:
        p.out(decls(a), [('l', '-a', '-a'), ('l', '~a', '~a'), ('l', '!a', '!a'), ('l', '+a', '+a'), ('l', '(-a)>-1', '(-a) > -1'), ('l', '~a>-1', '~a > -1')] + [('l', '(%s)a' % b, '(%s)a' % b) for b in INT] + [('l', '(%s)a>>1' % b, '(%s)a >> 1' % b) for b in INT], desc=a + ' a')
        for b in INT:
            p.fn(b, decls(a), 'return a;', desc='%s(%s a) return a' % (b, a))
            p.fn('long', decls(a), '%s x = a; return x;' % b, desc='%s x = (%s)a' % (b, a))
    return [p]

CONST = ['0', '1', '-1', '2', '3', '5', '7', '8', '10', '16', '31', '63', '100', '127', '128', '-128', '-129', '255', '256', '1000', '32767', '32768', '65535', '65536', '2147483647', '(-2147483647-1)', '2147483648u', '4294967295u', '2147483648L', '-2147483649L', '4294967296L', '0x7fffffffffffffffL', '(-0x7fffffffffffffffL-1)', '0x8000000000000000uL', '0xffffffffffffffffuL', '0x123456789abcdefL', "'a'", '(char)-1', '(unsigned char)200', '(short)-5']
def ctype(c):
    if 'uL' in c: return 'unsigned long'
    if 'L' in c: return 'long'
    if c.endswith('u'): return 'unsigned'
    return 'int'
def consts():
    ps = []
    for a in ('_Bool', 'char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long'):
        p = Prog('const_' + a.replace(' ', '_'))
        for c in CONST:
            t = ctype(c); ct = common(a, t)
            its = [('l', 'a%s%s' % (o, c), 'a %s %s' % (o, c)) for o in BIN + CMP] + [('l', '%s%sa' % (c, o), '%s %s a' % (c, o)) for o in BIN + ['<', '>=', '==']]
            p.out(decls(a), its, desc=a + ' a')
            if c != '0': p.out(decls(a), [('l', 'a/%s' % c, 'a / %s' % c), ('l', 'a%%%s' % c, 'a %% %s' % c)], pre=pre_div(ct, 'a', c), desc='%s a' % a)
            p.out(decls(a), [('l', '%s/a' % c, '%s / a' % c), ('l', '%s%%a' % c, '%s %% a' % c)], pre=pre_div(ct, c, 'a'), desc='%s a' % a)
            p.out(decls(a), [('l', '%s<<a' % c, '%s << a' % c), ('l', '%s>>a' % c, '%s >> a' % c)], pre=pre_shift(t, 'a', a), desc='%s a' % a)
            if c in ('0', '1', '2', '3', '5', '7', '8', '10', '16', '31', '63') and int(c) < 8 * size(promote(a)):
                p.out(decls(a), [('l', 'a<<%s' % c, 'a << %s' % c), ('l', 'a>>%s' % c, 'a >> %s' % c)], desc='%s a' % a)
        ps.append(p)
    return ps

def pointers():
    p = Prog('pointers', 'struct P_s3 { char c[3]; }; struct P_s24 { long a, b, c; };')
    for i in INT:
        for t, n in (('char', 1), ('short', 2), ('int', 4), ('double', 8), ('struct P_s3', 3), ('struct P_s24', 24), ('int *', 8)):
            T = t + ' *' if not t.endswith('*') else t + '*'
            p.out([(i, 'a')], [('l', 'p+a', '(char *)(p + a) - (char *)p'), ('l', 'a+p', '(char *)(a + p) - (char *)p'), ('l', 'p-a', '(char *)p - (char *)(p - a)'), ('l', '&p[a]', '(char *)&p[a] - (char *)p'), ('l', '&a[p]-p', '&a[p] - p'), ('l', '(p+a)-p', '(p + a) - p'), ('l', 'cmp', '(p + a > p) + 2 * (p + a < p) + 4 * (p + a == p) + 8 * (p + a <= p) + 16 * (p + a >= p) + 32 * (p + a != p)'), ('l', '+=', '(q += a, (char *)q - (char *)p)'), ('l', '-=', '(q -= a, (char *)q - (char *)p)'), ('l', '++', '(q++, ++q, (char *)q - (char *)p)'), ('l', '--', '(q--, --q, (char *)q - (char *)p)')],
                  lead='%s p = (%s)o; %s q = p;' % (T, T, T), desc='%s %s a' % (T, i), pre='(long)a < 0x1000000 && (long)a > -0x1000000' if size(i) > 2 else None)
    p.fn('long', [('long *', 'p')], 'return !p + 2 * (p != 0) + 4 * (p ? 1 : 0) + 8 * (p && 1) + 16 * (p || 0) + 32 * (_Bool)p;', desc='pointer truth', bufsz=8)
    return [p]

def rnd(seed, n, depth, name):
    """random nested expressions over mixed types, loads, conditionals, assignments"""
    R = random.Random(seed); p = Prog(name)
    T = list(INT)
    def expr(d, vs):
        if d == 0 or R.random() < .12:
            if R.random() < .25:
                c = R.choice(CONST); return c, ctype(c), []
            v = R.choice(vs); return v[1], v[0], []
        k = R.random()
        if k < .55:
            a, ta, pa = expr(d - 1, vs); b, tb, pb = expr(d - 1, vs); o = R.choice(BIN + CMP + ['&&', '||', ','])
            t = 'int' if o in CMP + ['&&', '||'] else tb if o == ',' else common(ta, tb)
            return '(%s %s %s)' % (a, o, b), t, pa + pb
        if k < .62:
            a, ta, pa = expr(d - 1, vs); b, tb, pb = expr(d - 2 if d > 1 else 0, vs); o = R.choice(['<<', '>>']); w = 8 * size(promote(ta))
            return '(%s %s (%s & %d))' % (a, o, b, w - 1), promote(ta), pa + pb
        if k < .68:
            a, ta, pa = expr(d - 1, vs); c = R.choice(['3', '7', '10u', '255', '1000L', '16'])
            t = common(ta, ctype(c)); return '(%s %s %s)' % (a, R.choice('/%'), c), t, pa + pb if False else pa
        if k < .76:
            a, ta, pa = expr(d - 1, vs); o = R.choice(['-', '~', '!', '+']); return '(%s%s)' % (o, a), 'int' if o == '!' else promote(ta), pa
        if k < .88:
            a, ta, pa = expr(d - 1, vs); t = R.choice(T); return '((%s)%s)' % (t, a), t, pa
        a, ta, pa = expr(d - 1, vs); b, tb, pb = expr(d - 1, vs); c, tc, pc = expr(d - 1, vs); return '(%s ? %s : %s)' % (a, b, c), common(tb, tc), pa + pb + pc
    for k in range(n):
        vs = [(R.choice(T), v) for v in 'abcd']
        e, t, _ = expr(depth, vs)
        p.fn('long', vs, 'return %s;' % e, desc=', '.join('%s %s' % v for v in vs) + ': ' + e)
    return p

def check():
    c = core.Check('C01')
    c.bounds = ['every binary, compound, unary, conditional and cast operator over every pair of the standard integer types, with all values of the operands (8 to 64 bits), arbitrary bits above narrow parameters and arbitrary callee-saved registers', 'one operand a chosen constant; pointer arithmetic over element sizes; random nested expressions of depth 3 and 4']
    c.outside = ['signed overflow (compared as wrapping), division by zero, shifts out of range (assumed away)', 'products and quotients whose equality the solver does not decide (counted as inconclusive)', '_Complex, long double, atomics']
    for p in binary(): jobs(c, p)
    for p in compound(): jobs(c, p)
    for p in unary(): jobs(c, p, per=120)
    for p in consts(): jobs(c, p, per=60)
    for p in pointers(): jobs(c, p, per=40)
    n = 2 if core.TIER == 'quick' else 12
    for k in range(n): jobs(c, rnd(core.SEED * 1000 + k, 60, 3 if k % 2 == 0 else 4, 'random%d' % k))
    return c
