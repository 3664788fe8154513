"""C09: Microsoft x64 calling convention, both directions against mingw gcc."""
import random, re
import core, interop, c08
from interop import Ty, Sig, scalar

def ms(t):
    if t.leaves is None: return t
    n = re.sub(r'(?<!long )\blong\b(?! long)', '@', t.defn); lv = [(p, re.sub(r'(?<!long )\blong\b(?! long)', '@', ty), w) for p, ty, w in t.leaves]
    r = 'LONG' if len(t.defn) % 2 else 'long long'
    return Ty(t.name, n.replace('@', r), [(p, ty.replace('@', r), w) for p, ty, w in lv])
SC = [n for n in c08.SC if n not in ('long', 'unsigned long')] + ['LONG', 'unsigned LONG']

def check():
    c = core.Check('C09', 'translation_validation')
    c.bounds = ['signatures of up to 14 parameters, aggregates up to 40 bytes', 'all argument and return value bytes, arbitrary contents of unused registers and of the stack']
    c.outside = ['bit-field layout under -fabi=ms (mingw uses ms_struct layout)', 'long double', 'empty structures', 'structured exception handling tables']
    c.assumptions = ['x86_64-w64-mingw32-gcc follows the Microsoft x64 calling convention']
    S = {n: scalar(n) for n in SC}; S['long'] = S['LONG']; S['unsigned long'] = S['unsigned LONG']
    H = [ms(t) for t in c08.hand()]; F = '-fabi=ms'
    old = c08.SC; c08.SC = SC; c08.VSC = [v for v in c08.VSC if v not in ('long', 'unsigned long')] + ['LONG', 'unsigned LONG']
    def group(name, sigs, n=14):
        for k in range(0, len(sigs), n): part = sigs[k:k + n]; interop.build(c, '%s%d' % (name, k // n), c08.uses(part, H), part, per=99, ms=True, flags=F)
    group('fixed', c08.fixed_sigs(H, S)); group('variadic', c08.va_sigs(H[:24:1] if core.TIER == 'thorough' else H[1:24:2], S))
    R = random.Random(core.SEED * 37 + 11)
    for k in range(30 if core.TIER == 'quick' else 300):
        pool = [ms(c08.rnd(R, i, nobits=True, small=i < 10)) for i in range(12)] + R.sample(H, 4)
        interop.build(c, 'random%d' % k, pool, [c08.rnd_sig(R, pool, S, i % 4 == 3) for i in range(12)], per=99, ms=True, flags=F)
    return c
