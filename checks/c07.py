"""C07: aggregates and bit-fields: layout and access."""
import random
import core, tv
from tv import *

INTS = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', '_Bool']
BITS = ['int', 'unsigned', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', '_Bool', 'long long', 'unsigned long long']

class T:
    """text of a type definition plus its scalar leaves: (path, type, width or None)"""
    def __init__(s, name, text, leaves, subs=(), desc=None): s.name = name; s.text = text; s.leaves = leaves; s.subs = list(subs); s.desc = desc or name
def leafkind(t): return 'd' if t in FLT else 'p' if t.endswith('*') else 'i'

def dump_items(p, t, ptr='p'):
    r = []
    for path, ty, w in t.leaves:
        e = '%s->%s' % (ptr, path)
        if ty == 'float': e = '*(int *)&' + e
        elif ty == 'double': e = '*(long *)&' + e
        elif ty.endswith('*'): e = '(long)' + e
        r.append(('l', path, e))
    return r

def rnd_members(R, budget, depth, pfx, nobits=False, union=False):
    """returns text, leaves, subs(aggregate member paths)"""
    text = ''; leaves = []; subs = []; k = 0; n = R.randint(1, 6 if depth else 4)
    while k < n and budget > 0:
        m = '%s%d' % (pfx, k); x = R.random(); k += 1
        if x < .40 and not nobits:
            t = R.choice(BITS if R.random() < .5 else BITS[:4]); W = 1 if t == '_Bool' else 8 * size(t)
            w = R.choice([1, R.randint(1, W), R.randint(1, min(W, 9)), W, R.randint(1, min(W, 9))]) if W > 1 else 1; y = R.random()
            if y < .08: text += '%s : %d; ' % (t, w); continue
            if y < .14: text += '%s : 0; ' % t; continue
            text += '%s %s : %d; ' % (t, m, w); leaves.append((m, t, w)); budget -= 2; continue
        if x < .68: t = R.choice(INTS); text += '%s %s; ' % (t, m); leaves.append((m, t, None)); budget -= size(t); continue
        if x < .74: t = R.choice(['float', 'double']); text += '%s %s; ' % (t, m); leaves.append((m, t, None)); budget -= size(t); continue
        if x < .78: text += 'char *%s; ' % m; leaves.append((m, 'char *', None)); budget -= 8; continue
        if x < .87:
            t = R.choice(INTS); a = R.randint(1, 4)
            if R.random() < .25:
                text += '%s %s[%d][2]; ' % (t, m, a); leaves += [('%s[%d][%d]' % (m, i, j), t, None) for i in range(a) for j in range(2)]; budget -= 2 * a * size(t)
            else: text += '%s %s[%d]; ' % (t, m, a); leaves += [('%s[%d]' % (m, i), t, None) for i in range(a)]; budget -= a * size(t)
            continue
        if depth == 0: continue
        u = R.random() < .4; tx, lv, sb = rnd_members(R, min(budget, 16), depth - 1, m, nobits, u); kw = 'union' if u else 'struct'
        if not lv: continue
        budget -= 8
        if R.random() < .4 : text += '%s { %s}; ' % (kw, tx); leaves += lv; subs += sb
        elif R.random() < .3:
            text += '%s { %s} %s[2]; ' % (kw, tx, m); leaves += [('%s[%d].%s' % (m, i, a), b, c) for i in range(2) for a, b, c in lv]; subs += ['%s[0]' % m, '%s[1]' % m]; budget -= 8
        else: text += '%s { %s} %s; ' % (kw, tx, m); leaves += [('%s.%s' % (m, a), b, c) for a, b, c in lv]; subs += [m]
    if not leaves: text += 'int %sz; ' % pfx; leaves.append((pfx + 'z', 'int', None))
    return text, leaves, subs

def rnd_type(R, name, depth=2, nobits=False):
    tx, lv, sb = rnd_members(R, 40, depth, 'm', nobits); kw = 'union' if R.random() < .12 else 'struct'; x = R.random(); pre = ''; post = ''; at = ''
    if not nobits and x < .0: pass
    if nobits and x < .3: at = '__attribute__((packed)) '
    elif nobits and x < .5: pre = '#pragma pack(push, %d)\n' % R.choice([1, 2, 4]); post = '#pragma pack(pop)\n'
    return T('%s P_%s' % (kw, name), '%s%s %sP_%s { %s};\n%s' % (pre, kw, at, name, tx, post), lv, sb, desc='%s { %s}' % (kw, tx))

def add(p, t, i):
    """functions for one type"""
    n = t.name; pt = n + ' *'; B = 192; d = t.desc[:140]
    if t.name.startswith('union') or 'union' in t.text: bools = []; t.leaves = [x for x in t.leaves if x[1] != '_Bool' or x[2]] or t.leaves
    BP = {ptr: ' && '.join('*(unsigned char *)&%s->%s < 2' % (ptr, x[0]) for x in t.leaves if x[1] == '_Bool' and not x[2]) or None for ptr in 'pq'}
    fn0 = p.fn
    def fn(ret, params, body, **kw):
        ps = [BP[nm] for ty, nm in params if ty == pt and BP[nm]]
        return fn0(ret, params, body, pre=' && '.join(ps) or None, **kw)
    p.prelude += t.text; p.refprelude += t.text
    offs = [(x[0], '(long)&((%s *)0)->%s' % (n, x[0])) for x in t.leaves if x[2] is None][:14]
    fn('void', [('long *', 'o')], 'o[0] = sizeof(%s); o[1] = _Alignof(%s);' % (n, n) + ''.join(' o[%d] = %s;' % (k + 2, e) for k, (_, e) in enumerate(offs)), bufsz=8 * (2 + len(offs)), slots='\n'.join(['lsizeof', 'lalignof'] + ['loffset ' + x for x, _ in offs]), desc='layout of ' + d)
    sz = 'sizeof(%s) <= %d' % (n, B)
    get = set_ = com = inc = ''
    for k, (path, ty, w) in enumerate(t.leaves):
        lv = 'p->' + path
        if ty.endswith('*'): get += 'case %d: return (long)%s; ' % (k, lv); set_ += 'case %d: %s = (char *)v; return 0; ' % (k, lv); continue
        if ty in FLT:
            it = 'int' if ty == 'float' else 'long'; get += 'case %d: return *(%s *)&%s; ' % (k, it, lv); set_ += 'case %d: *(%s *)&%s = v; return 1; ' % (k, it, lv); continue
        get += 'case %d: return %s; ' % (k, lv); set_ += 'case %d: return %s = v; ' % (k, lv)
        if ty != '_Bool':
            com += 'case %d: return %s += v; ' % (k, lv); inc += 'case %d: return v & 1 ? %s++ : --%s; ' % (k, lv, lv)
        else: com += 'case %d: return %s |= v; ' % (k, lv); inc += 'case %d: return %s ^= v; ' % (k, lv)
    P = [(pt, 'p'), ('unsigned char', 'k'), ('long', 'v')]
    fn('long', [(pt, 'p'), ('unsigned char', 'k')], 'switch (k) { %s} return 3;' % get, bufsz=B, desc='read ' + d)
    fn('long', P, 'switch (k) { %s} return 3;' % set_, bufsz=B, desc='write ' + d)
    if com: fn('long', P, 'switch (k) { %s} return 3;' % com, bufsz=B, desc='compound assignment ' + d)
    if inc and i % 2: fn('long', P, 'switch (k) { %s} return 3;' % inc, bufsz=B, desc='increment ' + d)
    lv = [x for x in t.leaves if x[1] in INT and not (x[2] and size(x[1]) == 8)]
    # comparisons and promotions of members
    if lv:
        a = lv[i % len(lv)]; b = lv[(i * 7 + 1) % len(lv)]
        fn('long', [(pt, 'p'), ('int', 'v')], 'return (p->%s - 1 < 0) | (p->%s < p->%s) << 1 | ((long)(p->%s * 2 - p->%s) << 2) ^ (p->%s < v) << 30;' % (a[0], a[0], b[0], a[0], b[0], a[0]), bufsz=B, desc='promotion of %s, %s in %s' % (a[0], b[0], d))
        fn('long', [(pt, 'p'), ('int', 'v')], 'if (p->%s) v += 3; if (!p->%s && p->%s) v += 5; return p->%s ? v : -p->%s;' % (a[0], b[0], a[0], b[0], a[0]), bufsz=B, desc='truth of %s, %s in %s' % (a[0], b[0], d))
        # copies: observe the members
        w = 'q.%s = v; ' % a[0]
        items = dump_items(p, t, '(&q)')[:16]; O = [(pt, 'p'), ('int', 'v')]
        sl = {'slots': '\n'.join('l' + x[1] for x in items), 'bufsz': max(8 * len(items), B)}
        st = ''.join(' o[%d] = %s;' % (k, x[2]) for k, x in enumerate(items)); O2 = [('long *', 'o'), (pt, 'p'), ('int', 'v')]
        pr = 'static %s P_g%d(%s x, int v) { x.%s ^= v; return x; }\n' % (n, i, n, b[0]) if b[1] != '_Bool' or b[2] else ''
        p.prelude += pr; p.refprelude += pr
        fn('void', O2, '%s q = *p; %s%s' % (n, w, st), desc='copy, then write %s in %s' % (a[0], d), **sl)
        if pr: fn('void', O2, '%s q; q = P_g%d(*p, v);%s' % (n, i, st), desc='pass and return ' + d, **sl)
        if pr: fn('long', [(pt, 'p'), ('int', 'v')], 'return P_g%d(*p, v).%s;' % (i, a[0]), bufsz=B, desc='member of returned ' + d)
        fn('long', [(pt, 'p'), (pt, 'q'), ('int', 'v')], 'return (v ? *p : *q).%s;' % a[0], bufsz=B, desc='member of conditional ' + d)
        fn('long', [(pt, 'p'), (pt, 'q')], '%s x[2]; x[1] = *p; x[0] = *q; %s *y = x; y++; return (*p = *q = *y).%s + (y - x);' % (n, n, a[0]), bufsz=B, desc='array of ' + d)
    for sb in t.subs[:2]:
        fn('void', O2 if lv else [('long *', 'o'), (pt, 'p'), ('int', 'v')], '%s q = *p; q.%s = p[0].%s; %s%s' % (n, sb, sb.replace('[0]', '[1]') if '[' in sb else sb, w if lv else '', st if lv else ''), desc='copy member %s of %s' % (sb, d), **(sl if lv else dict(bufsz=B)))

def random_types(seed, n, name, **kw):
    R = random.Random(seed); p = Prog(name, '', '')
    for i in range(n): add(p, rnd_type(R, 'T%d' % i, **kw), i)
    return p

def fixed_types():
    progs = [Prog('fixed0', '', '')]
    def s(body, leaves, kw='struct', at='', pre='', post='', subs=()):
        i = s.n; s.n += 1
        if i % 5 == 4: progs.append(Prog('fixed%d' % len(progs), '', ''))
        p = progs[-1]
        lv = []
        for l in leaves.split(';'):
            l = l.strip().split(':'); ty, path = l[0].strip().rsplit(' ', 1)
            if path.startswith('*'): ty += ' *'; path = path[1:]
            lv.append((path, ty, int(l[1]) if len(l) > 1 else None))
        add(p, T('%s P_F%d' % (kw, i), '%s%s %sP_F%d { %s };\n%s' % (pre, kw, at, i, body, post), lv, subs, desc='%s {%s}' % (kw, body)), i)
    s.n = 0
    def same(x, **kw): s(x + ';', x, **kw)
    same('char a; int b:8; short c'); same('int a:3; unsigned b:3; int c:26; int d:1'); same('unsigned a:1; unsigned b:31; unsigned c:32; unsigned d:1')
    same('char a:4; char b:4; char c:5; char d:4'); same('short a:9; short b:9; char c'); same('long a:40; int b:24; int c:8; char d'); same('unsigned long a:63; unsigned long b:1; unsigned long c:64')
    same('_Bool a:1; _Bool b:1; unsigned c:6; _Bool d'); same('unsigned char a:7; unsigned short b:9; unsigned c:17; unsigned long d:33'); same('int a; char b; double c; char d'); same('char a; short b; char c; int d; char e; long f; char g; float h')
    same('int a:5; char b; int c:5; char d; short e:3'); same('long a:1; char b; long c:62'); same('char a; char b; char c; int d:7; int e:2')
    s('int a : 3; int : 0; int b : 4; char : 0; char c; short : 5; int d : 2; long : 0;', 'int a:3; int b:4; char c; int d:2'); s('int : 4; unsigned a : 5; int : 9; unsigned b : 6; unsigned : 0; unsigned c : 7;', 'unsigned a:5; unsigned b:6; unsigned c:7'); s('char a; int : 0; char b; char : 8; char c;', 'char a; char b; char c')
    same('int a:5; unsigned b:32; long c:50; char d', kw='union'); same('char a; short b; long c; double d; char *e', kw='union'); same('_Bool a; char b; short c', kw='union')
    s('int a; struct { char b; union { short c; int d; }; }; char e;', 'int a; char b; short c; int d; char e'); s('char a[3]; struct { short x[3]; char y; } b; char c;', 'char a[0]; char a[2]; short b.x[0]; short b.x[2]; char b.y; char c', subs=['b']); s('struct { int x : 7; int y : 9; } a[3]; char b;', 'int a[0].x:7; int a[1].y:9; int a[2].x:7; char b', subs=['a[0]'])
    s('char a[2][3]; short b[2][2];', 'char a[0][0]; char a[1][2]; short b[0][1]; short b[1][0]'); s('int a, *b, c[2];', 'int a; int *b; int c[0]; int c[1]'); s('enum { P_A = -1, P_B = 300 } a; int b;', 'int a; int b')
    s('enum P_E1 { P_EA = -3, P_EB = 5 } a : 4; unsigned b : 4;', 'int a:4; unsigned b:4'); s('volatile int a; volatile short b; char *volatile c;', 'char *c; short b')
    for at in ['__attribute__((packed)) ']:
        same('char a; int b; short c; long d; char e', at=at); same('char a; double b; float c', at=at); same('char a; short b', at=at, kw='union')
    for k in (1, 2, 4, 8): same('char a; int b; char c; long d; short e', pre='#pragma pack(push, %d)\n' % k, post='#pragma pack(pop)\n'); same('char a; long b; int c', pre='#pragma pack(%d)\n' % k, post='#pragma pack()\n')
    s('char a; _Alignas(8) char b; char c;', 'char a; char b; char c'); s('_Alignas(int) char a; char b; _Alignas(16) short c;', 'char a; char b; short c'); s('int a; char b[];', 'int a')
    progs[-1].fn('long', [('struct P_F%d *' % (s.n - 1), 'p'), ('unsigned char', 'k'), ('int', 'v')], 'int x = p->b[k & 7]; p->b[k >> 3 & 7] = v; return x;', bufsz=16, desc='flexible array member')
    p = Prog('indexing', '', ''); progs.append(p)
    for k, (b, r) in enumerate([('return p[i & 3].a[j & 1];', 0), ('p[i & 3].a[j & 1] = j; return p[i & 3].b;', 0), ('struct P_Q *q = &p[i & 3]; return q->b - (q - p);', 0), ('return &p[i & 3].a[j & 1] - (short *)p;', 0), ('p[i & 3].c[j & 1].y = i; return p[j & 3].c[i & 1].x;', 0), ('p[i & 3] = p[j & 3]; return p->a[0];', 0), ('p[i & 3].c[0] = p[j & 3].c[1]; return p[i & 1].c[0].y;', 0), ('int (*f)[2] = (int (*)[2])p; return f[i & 3][j & 1];', 0), ('int *q = &p->b; q[(i & 1) * 5] += j; return *q;', 0)]):
        if k == 0: t = 'struct P_Q { short a[2]; int b; struct { char x; unsigned short y : 11; } c[2]; };\n'; p.prelude += t; p.refprelude += t
        p.fn('long', [('struct P_Q *', 'p'), ('unsigned char', 'i'), ('unsigned char', 'j')], b, bufsz=96, desc='indexing: ' + b)
    return progs

PT = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double']
def punning():
    """local objects accessed through lvalues of other types and through unions"""
    p = Prog('punning', '', ''); SZ = {'float': 4, 'double': 8}; sz = lambda t: SZ.get(t) or tv.size(t)
    for a in PT:
        for b in PT:
            if a == b: continue
            U = 'union { %s a; %s b; } u; ' % (a, b); par = [(a, 'x'), (b, 'y')]; k = sz(a) // sz(b)
            p.fn(b if sz(b) <= sz(a) else a, par, U + ('u.a = x; return u.b;' if sz(b) <= sz(a) else 'u.b = y; return u.a;'), desc='union of %s and %s' % (a, b))
            p.fn(a, par, U + ('u.a = x; u.b = y; return u.a;' if sz(b) <= sz(a) else 'u.a = x; u.b = y; if (x > 3) u.a = x; return u.a;'), desc='union of %s and %s, both written' % (a, b))
            if 'char' in b:
                p.fn(b, par, '%s z = x; return *(%s *)&z;' % (a, b), desc='%s read as %s' % (a, b)); p.fn(a, par, '%s z = x; *(%s *)&z = y; return z;' % (a, b), desc='%s written as %s' % (a, b))
                p.fn(b, par + [('unsigned char', 'i')], '%s z = x; %s *q = (%s *)&z + (i & %d); *q = *q == y ? *q : ((%s *)&z)[%d]; return ((%s *)&z)[0];' % (a, b, b, k - 1, b, k - 1, b), desc='%s accessed as array of %s' % (a, b))
    for t in PT:
        p.fn(t, [(t, 'x')], '%s z; unsigned char *d = (unsigned char *)&z, *s = (unsigned char *)&x; for (int i = 0; i < %d; i++) d[i] = s[i]; return z;' % (t, sz(t)), desc='%s copied by bytes' % t)
        p.fn('int', [(t, 'x')], 'struct { %s a; char b; } q; q.a = x; q.b = 5; return ((unsigned char *)&q)[0] + *(char *)((char *)&q + %d);' % (t, sz(t)), desc='first byte of a structure with %s' % t)
    return p

def check():
    c = core.Check('C07', 'translation_validation')
    c.bounds = ['aggregates up to 192 bytes, nesting depth 3, %s types' % ('about 190' if core.TIER == 'quick' else 'about 4500'), 'all contents of the objects, all stored values, every scalar member chosen symbolically']
    c.outside = ['bit-fields in packed structures', 'concurrent access to neighbouring members']
    for p in fixed_types(): jobs(c, p, per=16)
    jobs(c, punning(), per=45)
    for k in range(14 if core.TIER == 'quick' else 400):
        jobs(c, random_types(core.SEED * 2003 + k, 7, 'bits%d' % k), per=16); jobs(c, random_types(core.SEED * 2003 + k + 500, 4, 'plain%d' % k, nobits=True), per=16)
    return c
