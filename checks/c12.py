"""C12: well-formed objects, symbols, relocations; programs of several files linked by the built-in and a standard linker."""
import random, os
import core
from core import VERIF
from tv import cstr
from lit import cbytes, H
class Case:
    def __init__(s, name, srcs, ref, mode, flags='', sets=(), pre='', names=()): s.name = name; s.srcs = srcs; s.ref = ref; s.mode = mode; s.flags = flags; s.sets = list(sets); s.pre = pre; s.names = names
def write(chk, name, cases):
    t = '#include "%s/harness/link.h"\n' % VERIF; tab = []
    for k, c in enumerate(cases):
        assert sum(x.count(H) for x in c.srcs) == len(c.sets), c.name
        t += c.ref.replace('@', 'R%d_' % k) + '\n'
        t += 'static const char *const s_%d[] = {%s};\n' % (k, ', '.join([cbytes(x) for x in c.sets] + ['0']))
        t += 'static const struct kname n_%d[] = {%s};\n' % (k, ', '.join('{%d, "%s", %d, %d}' % n for n in c.names) or '{0}')
        if c.pre: t += 'static int p_%d(const uint8_t *h) { return %s; }\n' % (k, c.pre)
        tab.append('{%s, %d, {%s}, s_%d, %d, "%s", "%s", %s, n_%d, %d, R%d_ref}' % (cstr(c.name), len(c.srcs), ', '.join(cbytes(x) for x in c.srcs), k, len(c.sets), c.mode, c.flags, 'p_%d' % k if c.pre else '0', k, len(c.names), k))
    t += 'const struct kcase k_cases[] = {%s}; const int k_ncases = %d;\n' % (',\n'.join(tab), len(cases))
    return chk.source(t, 'link_%s.c' % name)
def jobs(chk, name, cases, per):
    ref = write(chk, name, cases); n = len(cases)
    for k in range(0, n, per): chk.add(core.Job('%s[%d:%d]' % (name, k, min(n, k + per)), VERIF + '/harness/link.c', ref=ref, arg=k, arg2=min(per, n - k)))
MIX = '#define P_M(v) (r = (r << 7 | r >> 57) ^ (unsigned long)(v))\n'
class Gen:
    """a random program of several files; the same program as one reference translation unit"""
    def __init__(s, seed, nf):
        R = s.R = random.Random(seed); s.nf = nf; s.ents = []; n = R.randint(6, 12); names = ['v%d' % k for k in range(n)]
        KO = ['char', 'short', 'int', 'long', 'int[3]', 'char[5]', 'short[7]', 'struct', 'long[2]', 'float', 'double', 'uchar']
        for k in range(n):
            kind = R.choice(['obj'] * 5 + ['ptr', 'ptr', 'fptr', 'str', 'tab'])
            f = R.randrange(nf); static = R.random() < 0.35
            nm = R.choice(['s', 't', 'u']) if static and R.random() < 0.7 and kind == 'obj' else 'v%d' % k
            if any(e['f'] == f and e['nm'] == nm for e in s.ents): nm = 'v%d' % k
            s.ents.append(dict(kind=kind, f=f, static=static, nm=nm, u='e%d' % k, ty=R.choice(KO), k=k))
        s.fns = []
        for k in range(R.randint(3, 6)):
            f = R.randrange(nf); static = R.random() < 0.3; nm = 'help' if static and R.random() < .6 else 'f%d' % k
            if any(e['f'] == f and e['nm'] == nm for e in s.fns): nm = 'f%d' % k
            s.fns.append(dict(f=f, static=static, nm=nm, u='g%d' % k, k=k))
        s.build()
    def vis(s, e, f): return not e['static'] or e['f'] == f
    def cdecl(s, e, n):
        ty = e['ty'] if e['kind'] == 'obj' else None
        if e['kind'] == 'obj':
            if ty == 'struct': return 'struct { char a; %s b; short c; } ' % 'long' + n if False else 'struct S ' + n
            b, _, a = ty.partition('['); return '%s %s%s' % ('unsigned char' if b == 'uchar' else b, n, '[' + a if a else '')
        return {'ptr': '%s *%s' % (e.get('pt', 'int'), n), 'fptr': 'long (*%s)(long)' % n, 'str': 'char *' + n, 'tab': 'long (*%s[2])(long)' % n}[e['kind']]
    def build(s):
        R = s.R; objs = [e for e in s.ents if e['kind'] == 'obj']
        for e in s.ents:
            e['tent'] = e['kind'] == 'obj' and R.random() < .3; c = lambda: str(R.randint(-100, 100))
            if e['kind'] == 'obj':
                ty = e['ty']; n = 3 if ty == 'struct' else int(ty[ty.index('[') + 1:-1]) if '[' in ty else 0
                e['init'] = '{' + ', '.join(c() for _ in range(n)) + '}' if n else c()
                e['sz'] = {'char': 1, 'uchar': 1, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8, 'struct': 8}[ty.partition('[')[0]]
            elif e['kind'] == 'ptr':
                cand = [o for o in objs if s.vis(o, e['f']) and o['ty'] not in ('float', 'double')]
                if not cand: e['kind'] = 'str'
                else:
                    o = R.choice(cand); e['tgt'] = o; b, _, a = o['ty'].partition('[')
                    if b == 'struct': e['pt'] = 'long'; e['acc'] = '&%s.b'
                    elif a: n = int(a[:-1]); e['pt'] = b; e['acc'] = R.choice(['&%%s[%d]' % R.randrange(n), '%%s + %d' % R.randrange(n), '%s'])
                    else: e['pt'] = 'unsigned char' if b == 'uchar' else b; e['acc'] = '&%s'
            if e['kind'] in ('fptr', 'tab'):
                cand = [g for g in s.fns if s.vis(g, e['f'])]
                if not cand: e['kind'] = 'str'
                else: e['tgt'] = R.choice(cand); e['tgt2'] = R.choice(cand)
            if e['kind'] == 'str': e['text'] = ''.join(R.choice('abcxyz ') for _ in range(R.randint(1, 7))); e['off'] = R.randint(0, len(e['text']))
            e['al'] = 8 if e['kind'] != 'obj' else e['sz']
        files = [MIX + 'struct S { char a; long b; short c; };\n' for _ in range(s.nf)]; names = []; ref = ['#undef P_M\n' + MIX + '#define S @S\nstruct S { char a; long b; short c; };\n']
        U = lambda e: '@' + e['u']; use = [set() for _ in range(s.nf)]
        # declarations
        for e in s.ents: ref.append('static %s;\n' % s.cdecl(e, U(e)))
        for g in s.fns: ref.append('static long @%s(long x);\n' % g['u'])
        body = [[] for _ in range(s.nf)]
        def init(e, N):
            if e['tent']: return ''
            k = e['kind']
            if k == 'obj': return ' = ' + e['init']
            if k == 'ptr': return ' = ' + e['acc'] % N(e['tgt'])
            if k == 'fptr': return ' = ' + ('&' if e['k'] % 2 else '') + N(e['tgt'])
            if k == 'tab': return ' = {%s, %s}' % (N(e['tgt']), N(e['tgt2']))
            return ' = "%s" + %d' % (e['text'], e['off']) if e['off'] else ' = "%s"' % e['text']
        order = list(s.ents); R.shuffle(order)
        for e in order:
            body[e['f']].append(('static ' if e['static'] else '') + s.cdecl(e, e['nm']) + init(e, lambda o: o['nm']) + ';\n'); ref.append('static ' + s.cdecl(e, U(e)) + init(e, U) + ';\n')
            for t in ('tgt', 'tgt2'):
                if t in e and e['kind'] not in ('obj', 'str') and (t == 'tgt' or e['kind'] == 'tab'): use[e['f']].add(e[t]['u'])
        def read(e, N, xs):
            n = N(e); k = e['kind']
            if k == 'obj':
                b, _, a = e['ty'].partition('[')
                if b == 'struct': return 'P_M(%s.%s);' % (n, 'abc'[xs % 3])
                if a: return 'P_M(%s[%d]);' % (n, xs % int(a[:-1]))
                return 'P_M((int)%s);' % n if b in ('float', 'double') else 'P_M(%s);' % n
            if k == 'ptr': return 'P_M(*%s);' % n
            if k == 'str': return 'P_M(%s[%d]);' % (n, xs % (len(e['text']) - e['off'] + 1))
            return None
        def write_(e, N, xs):
            n = N(e); k = e['kind']
            if k == 'obj':
                b, _, a = e['ty'].partition('[')
                if b in ('float', 'double'): return '%s = %d;' % (n, xs)
                if b == 'struct': return '%s.%s ^= x;' % (n, 'abc'[xs % 3])
                return '%s%s ^= x;' % (n, '[%d]' % (xs % int(a[:-1])) if a else '')
            if k == 'ptr': return '*%s ^= x >> 3;' % n
            return None
        def fbody(f, k, extra):
            ops = []
            for _ in range(R.randint(3, 7)):
                cand = [e for e in s.ents if s.vis(e, f)]; o = R.random()
                if o < .5 and cand: e = R.choice(cand); q = R.randrange(99); ops.append(('r', e, q))
                elif o < .8 and cand: e = R.choice(cand); q = R.randrange(99); ops.append(('w', e, q))
                else:
                    c2 = [g for g in s.fns if s.vis(g, f) and g['k'] > k]
                    if c2: ops.append(('c', R.choice(c2), R.randrange(1, 60)))
            def emit(N, NF):
                o = ''
                for kind, e, q in ops:
                    if kind == 'c': o += ' P_M(%s(x ^ %d));' % (NF(e), q)
                    else: t = (read if kind == 'r' else write_)(e, N, q); o += ' ' + t if t else ''
                return 'unsigned long r = %d;%s %s return r;' % (k + 5, o, extra)
            for kind, e, q in ops:
                if kind == 'c' or (read if kind == 'r' else write_)(e, lambda z: 'z', 0): use[f].add(e['u'])
            return emit(lambda e: e['nm'], lambda g: g['nm']), emit(U, lambda g: '@' + g['u'])
        fpdecl = [[] for _ in range(s.nf)]
        for g in s.fns:
            loc = R.random() < .4; b, rb = fbody(g['f'], g['k'], 'static int n = 3; n ^= x; P_M(n);' if loc else '')
            body[g['f']].append('%slong %s(long x) { %s }\n' % ('static ' if g['static'] else '', g['nm'], b)); ref.append('static long @%s(long x) { %s }\n' % (g['u'], rb))
        sf = R.randrange(s.nf); b, rb = fbody(sf, -1, ''); more = ''; rmore = ''
        for g in s.fns:
            if s.vis(g, sf): more += ' P_M(%s(x));' % g['nm']; rmore += ' P_M(@%s(x));' % g['u']; use[sf].add(g['u'])
        for e in s.ents:
            if not s.vis(e, sf): continue
            t = read(e, lambda z: z['nm'], 1)
            if t: more += ' ' + t; rmore += ' ' + read(e, U, 1); use[sf].add(e['u'])
        # function pointers only called from _start, outside of the recursion
        for e in s.ents:
            if e['kind'] in ('fptr', 'tab') and s.vis(e, sf):
                i = '[%d]' % R.randrange(2) if e['kind'] == 'tab' else ''
                more += ' P_M(%s%s(y));' % (e['nm'], i); rmore += ' P_M(%s%s(y));' % (U(e), i); use[sf].add(e['u'])
        fin = lambda t, m: t.replace(' return r;', m + ' return r;')
        body[sf].append('long _start(long x, long y) { %s }\n' % fin(b, more)); ref.append('static long @st(long x, long y) { %s }\n#undef S\nstatic uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return @st(x, y); }\n' % fin(rb, rmore))
        for f in range(s.nf):
            pre = ''
            for e in s.ents + s.fns:
                fn = 'kind' not in e; d = 'long %s(long)' % e['nm'] if fn else s.cdecl(e, e['nm'])
                if e['f'] == f:
                    if fn: pre += ('static ' if e['static'] else '') + d + ';\n'
                    elif e['static']: pre += 'static ' + d + ';\n' if (e['kind'] != 'obj' or '[' not in e['ty'] or True) else ''
                    else: pre += 'extern ' + d + ';\n'
                    names.append((f, e['nm'], 0 if e['static'] else 2, 0 if e['static'] or fn else e['al']))
                elif s.vis(e, f) and not any(z['f'] == f and z['nm'] == e['nm'] for z in s.ents + s.fns):
                    if e['u'] in use[f] or R.random() < .3: pre += ('' if fn and R.random() < .5 else 'extern ') + d + ';\n'; names.append((f, e['nm'], 1 if e['u'] in use[f] else 4, 0))
            names.append((f, '_start', 2 if f == sf else 0, 0)); files[f] += pre + ''.join(body[f])
        s.files = files; s.ref = ''.join(ref); s.names = names
FLAGS = ['', '', '-fcmodel=large', '-fcmodel=small']
def gen(seed, n):
    R = random.Random(seed); out = []
    for k in range(n):
        nf = R.choice([1, 2, 2, 3, 3, 4]); g = Gen(R.random(), nf); md = R.choice(['S', 'S', 'X', 'X', 'X', 'M']); mode = ''.join('o' if md in 'SM' else R.choice('co') for _ in range(nf)) + md
        fl = R.choice(FLAGS); out.append(Case('program %d of %d files, %s%s' % (k, nf, 'standard linker' if md == 'S' else 'one command' if md == 'M' else 'built-in linker (%s)' % mode[:-1], ' ' + fl if fl else ''), g.files, g.ref, mode, fl, names=g.names))
    return out
def named():
    """names with symbolic characters: which definition a reference resolves to"""
    o = []
    S = ['az', 'az']
    for mode in ('ooS', 'ccX', 'ooX', 'coX'):
        o.append(Case('objects of symbolic names, ' + mode, ['int H = 11; int H = 22; int qq = 7; int q = 8;\n'.replace('H', 'p' + H), 'extern int pa, pb; long _start(long x, long y) { return pa * 100 + pb + x; }\n'], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return (h[0] == \'a\' ? 1122 : 2211) + x; }', mode, sets=['ab', 'ab'], pre='h[0] != h[1]'))
        o.append(Case('references of symbolic names, ' + mode, ['int pa = 1, pb = 2, pc = 3, pab = 4, paa = 5; static int pd = 9; int *ptr = &pd;\n', ('extern int p%s, p%s%s, *ptr; long _start(long x, long y) { return p%s * 100 + p%s%s * 10 + *ptr + x; }\n' % ((H,) * 6))], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return (h[0] - \'a\' + 1) * 100 + (h[2] == \'a\' ? 5 : 4) * 10 + 9 + x; }', mode, sets=['ac', 'aa', 'ab', 'ac', 'aa', 'ab'], pre='h[0] == h[3] && h[2] == h[5]'))
        o.append(Case('functions of symbolic names, static against global, ' + mode, ['static int f%s(int v) { return v + 1; } int g(int v) { return f%s(v) * 2; } int fx(int v) { return v ^ 3; }\n' % (H, H), 'int g(int); int fx(int); static int fy(int v) { return v - 9; } long _start(long x, long y) { return g(x) + fx(y) + fy(x); }\n'], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return (long)(int)(((int)x + 1) * 2 + ((int)y ^ 3) + ((int)x - 9)); }', mode, sets=['yz', 'yz'], pre='h[0] == h[1]'))
        o.append(Case('offsets in initialisers, ' + mode, ['int arr[10] = {10, 11, 12, 13, 14, 15, 16, 17, 18, 19}; struct { int a; int b[12]; } st = {1, {20, 21, 22, 23, 24, 25, 26, 27, 28, 29}}; int fill = 77;\n', 'extern int arr[10], fill; extern struct { int a; int b[12]; } st; int *p = &arr[%s]; int *q = &st.b[%s]; int *e = arr + 1%s - 1%s; char *s = "0123456789" + %s; long _start(long x, long y) { return *p * 1000000 + *q * 10000 + *e * 100 + *s + x; }\n' % ((H,) * 5)], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return (10 + h[0] - 48) * 1000000 + (20 + h[1] - 48) * 10000 + (10 + h[2] - h[3]) * 100 + h[4] + x; }', mode, sets=['09', '07', '59', '05', '09']))
        o.append(Case('code references with offsets, ' + mode, ['int arr[10] = {10, 11, 12, 13, 14, 15, 16, 17, 18, 19}; int after = 5;\n', 'extern int arr[]; long _start(long x, long y) { int *p = &arr[%s]; p[%s - 5] += 7; return arr[%s] * 10000 + *p * 100 + arr[%s] + x; }\n' % ((H,) * 4)], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { int a[10] = {10, 11, 12, 13, 14, 15, 16, 17, 18, 19}; int *p = &a[h[0] - 48]; p[h[1] - 53] += 7; return a[h[2] - 48] * 10000 + *p * 100 + a[h[3] - 48] + x; }', mode, sets=['57', '07', '05', '59']))
        o.append(Case('offsets before an object, ' + mode, ['int arr[10] = {10, 11, 12, 13, 14, 15, 16, 17, 18, 19}; short w[3] = {5, 6, 7};\n', 'extern int arr[10]; extern short w[]; int *p = arr - 1%s; short *q = &w[1] - %s; static int own[3] = {3, 4, 5}; static int *r = own - 7; char *t = "abc" - 2; long _start(long x, long y) { return p[1%s] * 1000000 + q[%s] * 10000 + r[9] * 100 + t[3] + x; }\n' % (H, H, H, H)], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return (10 + h[2] - h[0]) * 1000000ul + (6 + h[3] - h[1]) * 10000 + 5 * 100 + 98 + x; }', mode, sets=['03', '03', '03', '03'], pre='h[2] >= h[0] && h[3] >= h[1] && h[3] <= h[1] + 1'))
        o.append(Case('far apart, ' + mode, ['char b0[36000] = {1}; int v = 5; static int s = 9; int *p = &v, w = 7; int f(int a) { s++; v += a; return w + s; }\n', 'extern int v, *p, w; extern char b0[]; int f(int); static int t = %s; int z = 6; long _start(long x, long y) { int r = f(x); return r * 100000 + *p * 1000ul + t + z + b0[0] + w; }\n' % H], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return 17 * 100000 + (uint64_t)(int)(5u + (uint32_t)x) * 1000ul + h[0] - 48 + 6 + 1 + 7; }', mode, sets=['09']))
        if mode[2] == 'X' and mode != 'ooX':
            o.append(Case('jumps over much code, ' + mode, ['static struct B { char c[24000]; } B1, B2; int f(int v) { v += %s; if (v < 0) { B1 = B2; v ^= 3; } else v ^= 6; return v; }\n' % H, 'int f(int); static int k(int v) { return v ^ 5; } long _start(long x, long y) { return f(x) + k(y); }\n'], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { int c = h[0] - 48, v = (int)x + c; return (long)(int)((v < 0 ? v ^ 3 : v ^ 6) + ((int)y ^ 5)); }', mode, sets=['09']))
        o.append(Case('entry in the first file, ' + mode, ['int f(int), g(int); extern char c; long _start(long x, long y) { return f(x) * 3 + g(y) + c; }\n', 'char c = %s; int pad(void) { return 1; } int g(int v) { return v ^ c; } int f(int v) { return g(v) + pad(); }\n' % H], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { int c = h[0] - 48; return (long)(int)((((int)x ^ c) + 1) * 3 + ((int)y ^ c) + c); }', mode, sets=['09']))
    for ln in (31, 62, 63, 64, 100, 300):
        n = 'n' * (ln - 1); o.append(Case('names of %d characters' % ln, ['int %s%s = 5; int %s%s = 6; static int %sc = 7; int *p = &%sc;\n' % (n, H, n, H, n, n), 'extern int %sa, %sb, *p; long _start(long x, long y) { return %sa * 100 + %sb * 10 + *p + x; }\n' % (n, n, n, n)], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return (h[0] == \'a\' ? 567 : 657) + x; }', 'ooS' if ln % 2 else 'coX', sets=['ab', 'ab'], pre='h[0] != h[1]'))
    for al, t in ((1, 'char'), (2, 'short'), (4, 'int'), (8, 'long'), (8, 'double'), (8, 'char *')):
        o.append(Case('alignment after odd data, ' + t, ['char c[%s];\n' % H, '%s P_x;\n' % t, '_Alignas(16) char P_y; char z = 1; static %s P_s = 0; extern char c[]; extern %s P_x; long _start(long x, long y) { return (long)&P_x %% %d + (long)&P_y %% 16 + (long)&P_s %% %d + c[0]; }\n' % (t, t, al, al)], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return 0; }', 'oooS', sets=['19'], names=[(1, 'P_x', 2, al), (2, 'P_y', 2, 16), (2, 'P_s', 0, 0)]))
        o.append(Case('alignment after odd data, built-in linker, ' + t, ['char c[%s];\n' % H, '%s P_x;\n' % t, '_Alignas(16) char P_y; char z = 1; static %s P_s = 0; extern char c[]; extern %s P_x; long _start(long x, long y) { return (long)&P_x %% %d + (long)&P_y %% 16 + (long)&P_s %% %d + c[0]; }\n' % (t, t, al, al)], 'static uint64_t @ref(const uint8_t *h, uint64_t x, uint64_t y) { return 0; }', 'cocX' if al > 2 else 'cccX', sets=['19'], names=[(1, 'P_x', 2, al)]))
    return o
def check():
    c = core.Check('C12')
    c.bounds = ['fixed programs of two or three files whose object and function names, array subscripts and initialiser offsets are symbolic characters; random programs of 1 to 4 files (6-12 objects, 3-6 functions, static and external, tentative definitions, pointers with addends, function pointers, strings, static locals of equal names), linked by the built-in linker from any mixture of sources and objects, or by a reference static linker; small and large code model; two symbolic 64-bit arguments', 'every object: structural validation of the ELF file, binding and definedness of every name, alignment of every object']
    c.outside = ['weak and common symbols, archives and shared objects', 'objects of other compilers given to the built-in linker', 'duplicate and missing definitions', 'COFF objects (C09)', 'a link with GNU ld itself: the static linker is a model (rt/load.c), which the native replays execute too']
    th = os.environ.get('VERIF_TIER') == 'thorough'
    jobs(c, 'names', named(), 4)
    jobs(c, 'programs', gen(12, 400 if th else 120), 6)
    return c
