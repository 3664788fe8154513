"""C08: System V calling convention, both directions against gcc."""
import random, re
import core, tv, interop
from interop import Ty, Sig, scalar
import c07

SC = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', '_Bool', 'float', 'double', 'char *', 'void *']
VSC = ['int', 'unsigned', 'long', 'unsigned long', 'long long', 'double', 'double', 'char *', 'int']
HAND = [('char a;', 'a:char'), ('char a[3];', 'a[0]:char a[1]:char a[2]:char'), ('int a; float b;', 'a:int b:float'), ('float a, b;', 'a:float b:float'), ('float a, b, c;', 'a:float b:float c:float'), ('float a[4];', 'a[0]:float a[1]:float a[2]:float a[3]:float'),
        ('double a, b;', 'a:double b:double'), ('double a; long b;', 'a:double b:long'), ('long a; double b;', 'a:long b:double'), ('double a, b, c;', 'a:double b:double c:double'), ('char a[16];', ' '.join('a[%d]:char' % i for i in range(16))), ('char a[17];', ' '.join('a[%d]:char' % i for i in range(17))),
        ('long a, b, c;', 'a:long b:long c:long'), ('char a[9];', ' '.join('a[%d]:char' % i for i in range(9))), ('short a; double b;', 'a:short b:double'), ('int a; float b; double c;', 'a:int b:float c:double'), ('float a; int b; float c;', 'a:float b:int c:float'), ('struct { float x; } a; struct { int y; } b; double c;', 'a.x:float b.y:int c:double'),
        ('long a;', 'a:long'), ('double a;', 'a:double'), ('float a;', 'a:float'), ('long a, b;', 'a:long b:long'), ('long a; char b;', 'a:long b:char'), ('double a; char b;', 'a:double b:char'), ('float a, b, c, d; int e;', 'a:float b:float c:float d:float e:int'), ('char a; short b; int c; char d[5];', 'a:char b:short c:int ' + ' '.join('d[%d]:char' % i for i in range(5))),
        ('double a[4];', ' '.join('a[%d]:double' % i for i in range(4))), ('char a[7];', ' '.join('a[%d]:char' % i for i in range(7))), ('int a[3];', 'a[0]:int a[1]:int a[2]:int'), ('char *a; float b;', 'a:char* b:float'), ('long a[5];', ' '.join('a[%d]:long' % i for i in range(5))), ('short a[5];', ' '.join('a[%d]:short' % i for i in range(5)))]
UN = [('long a; double b;', 'a:long b:double'), ('float a; double b;', 'a:float b:double'), ('double a[2]; char b;', 'a[0]:double a[1]:double b:char'), ('float a[3]; int b;', 'a[0]:float a[1]:float a[2]:float b:int'), ('char a[20]; int b;', ' '.join('a[%d]:char' % i for i in range(20)))]
PK = [('__attribute__((packed)) ', 'char a; double b;', 'a:char b:double'), ('__attribute__((packed)) ', 'int a; long b;', 'a:int b:long'), ('__attribute__((packed)) ', 'char a; char b[3]; float c;', 'a:char b[0]:char b[1]:char b[2]:char c:float')]

def lv(s): return [(x.split(':')[0], x.split(':')[1].replace('char*', 'char *'), None) for x in s.split()]
def hand():
    r = [Ty('struct H%d' % k, 'struct H%d { %s };\n' % (k, d), lv(l)) for k, (d, l) in enumerate(HAND)]
    r += [Ty('union U%d' % k, 'union U%d { %s };\n' % (k, d), lv(l)) for k, (d, l) in enumerate(UN)]
    return r
def packed(): return [Ty('struct K%d' % k, 'struct %sK%d { %s };\n' % (at, k, d), lv(l)) for k, (at, d, l) in enumerate(PK)]

def rnd(R, k, nobits=False, small=True):
    while 1:
        tx, leaves, _ = c07.rnd_members(R, R.choice([8, 8, 16, 24]) if small else 40, 1, 'm', nobits)
        if '_Bool' in tx and 'union' in tx: continue
        if not leaves or re.search(r'\b(char|short|int|long|unsigned|signed|_Bool) :', tx): continue
        return Ty('struct R%d' % k, 'struct R%d { %s};\n' % (k, tx), leaves)

def uses(sigs, types):
    n = {t.name for s in sigs for t in s.args + ([s.ret] if s.ret else [])}; return [t for t in types if t.name in n]

def fixed_sigs(H, S):
    g = []; I = S['int']; D = S['double']; F = S['float']; L = S['long']
    for t in H: g.append(Sig([t], t)); g.append(Sig([I, D, t, L, t, F, t], None)); g.append(Sig([t, t, t, t], S['short']))
    for n in SC: g.append(Sig([S[n]], S[n])); g.append(Sig([S[n]] * 9, S[n]))
    g.append(Sig([], None)); g.append(Sig([], D)); g.append(Sig([], L)); g.append(Sig([I] * 12, I)); g.append(Sig([D] * 11, D)); g.append(Sig([F] * 10, F)); g.append(Sig([I, D] * 9, None)); g.append(Sig([S['char'], S['short'], S['_Bool'], F, S['unsigned char'], D, S['char *'], L, I, S['signed char'], F, S['unsigned short'], S['_Bool'], S['char']], S['unsigned char'], ptr=True))
    for k in range(0, len(H) - 1, 2): g.append(Sig([H[k], L, H[k + 1], L, H[k], D, H[k + 1], L, H[k]], H[k + 1], ptr=k % 4 == 0))
    return g

def va_sigs(H, S):
    g = []; I = S['int']; D = S['double']; L = S['long']; P = S['char *']
    for va in ('direct', 'list', 'copy'):
        g += [Sig([I, I, I], I, 1, va=va), Sig([I] + [L] * 9, L, 1, va=va), Sig([P, I, P, L, I, P, I, I], I, 1, va=va), Sig([I] * 6 + [I, L, I], I, 6, va=va), Sig([I] * 8 + [I, L], I, 8, va=va), Sig([I, D], I, 1, va=va), Sig([P, D, I, D, L, D], I, 1, va=va), Sig([I] + [D] * 10, D, 1, va=va), Sig([I, D, S['float'], D, I, D, I, D], None, 3, va=va), Sig([I] + [I, D] * 9, None, 1, va=va), Sig([D] * 9 + [D, I], D, 9, va=va)]
    for t in H: g.append(Sig([I, t, I, t], I, 1)); g.append(Sig([I, D, L, t, t, D, t, I], t, 2, va='list')); g.append(Sig([t, I, t, D], None, 1))
    return g

def rnd_sig(R, pool, S, variadic=False):
    ar = [R.choice(pool) if R.random() < .45 else S[R.choice(SC)] for _ in range(R.randint(1, 10))]
    ret = R.choice([None, S[R.choice(SC)], R.choice(pool), R.choice(pool)])
    if not variadic: return Sig(ar, ret, ptr=R.random() < .2)
    nf = R.randint(1, len(ar)); ar[nf - 1] = S['int']
    return Sig([t if i < nf or t.leaves is not None else S[R.choice(VSC)] for i, t in enumerate(ar)], ret, nf, va=R.choice(['direct', 'list', 'copy']))

def group(c, name, types, sigs, n=14, **kw):
    for k in range(0, len(sigs), n): part = sigs[k:k + n]; interop.build(c, '%s%d' % (name, k // n), uses(part, types), part, per=99, **kw)

def check():
    c = core.Check('C08', 'translation_validation')
    c.bounds = ['signatures of up to 14 parameters, aggregates up to 40 bytes', 'all argument and return value bytes (including every prior content of padding), arbitrary contents of unused registers and of the stack']
    c.outside = ['long double, _Complex and vector types (not supported)', 'empty structures and eightbytes that only hold unnamed bit-fields (gcc and clang disagree)', 'bits above the width of narrow register arguments (left open by the ABI)']
    S = {n: scalar(n) for n in SC}; H = hand()
    group(c, 'fixed', H, fixed_sigs(H, S)); K = packed(); group(c, 'packed', K, [Sig([t], t) for t in K] + [Sig([S['int'], t, S['double'], t], None) for t in K])
    group(c, 'variadic', H, va_sigs(H[:24:1] if core.TIER == 'thorough' else H[1:24:2], S))
    R = random.Random(core.SEED * 31 + 7)
    for k in range(40 if core.TIER == 'quick' else 400):
        pool = [rnd(R, i, small=i < 10) for i in range(12)] + R.sample(H, 4)
        interop.build(c, 'random%d' % k, pool, [rnd_sig(R, pool, S, i % 4 == 3) for i in range(12)], per=99)
    return c
