"""Generator side of the translation-validation harness (harness/tv.c)."""
import core
from core import VERIF

INT = {'_Bool': ('b', 1, False, 0), 'char': ('c', 1, True, 1), 'signed char': ('c', 1, True, 1), 'unsigned char': ('C', 1, False, 1),
       'short': ('s', 2, True, 2), 'unsigned short': ('S', 2, False, 2), 'int': ('i', 4, True, 3), 'unsigned': ('I', 4, False, 3),
       'long': ('l', 8, True, 4), 'unsigned long': ('L', 8, False, 4), 'long long': ('l', 8, True, 5), 'unsigned long long': ('L', 8, False, 5)}
FLT = {'float': ('f', 4), 'double': ('d', 8)}
TYPES = list(INT) + list(FLT)
def isint(t): return t in INT
def kind(t): return 'p' if t.endswith('*') else (INT.get(t) or FLT[t])[0]
def size(t): return (INT.get(t) or FLT[t])[1]
def signed(t): return INT[t][2]
def promote(t):
    return 'int' if isint(t) and INT[t][3] < 3 else t
def common(a, b):
    for f in ('double', 'float'):
        if f in (a, b): return f
    a, b = promote(a), promote(b)
    if a == b: return a
    if signed(a) == signed(b): return a if INT[a][3] >= INT[b][3] else b
    s, u = (a, b) if signed(a) else (b, a)
    if INT[u][3] >= INT[s][3]: return u
    if size(s) > size(u): return s
    return {'int': 'unsigned', 'long': 'unsigned long', 'long long': 'unsigned long long'}[s]

def smin(t): return '(-2147483647-1)' if size(t) == 4 else '(-9223372036854775807L-1)'
def pre_div(ct, a, b):
    """division of a by b in the integer type ct is defined"""
    s = '(%s)(%s) != 0' % (ct, b)
    if signed(ct): s += ' && !((%s)(%s) == %s && (%s)(%s) == -1)' % (ct, a, smin(ct), ct, b)
    return '(' + s + ')'
def pre_shift(lt, b, bt):
    w = 8 * size(promote(lt))
    return '((%s) >= 0 && (%s) < %d)' % (b, b, w) if signed(promote(bt)) else '((%s) < %d)' % (b, w)
def pre_f2i(t, x):
    """the floating value x converts to integer type t"""
    if t == '_Bool': return '1'
    lim = {('c', 1): ('-129.0', '128.0'), ('s', 2): ('-32769.0', '32768.0'), ('i', 4): ('-2147483649.0', '2147483648.0')}
    k, s, sg, _ = INT[t]
    if sg and s == 8: return '((double)(%s) >= -9223372036854775808.0 && (double)(%s) < 9223372036854775808.0)' % (x, x)
    lo, hi = {1: ('-129.0', '128.0'), 2: ('-32769.0', '32768.0'), 4: ('-2147483649.0', '2147483648.0')}[s] if sg else ('-1.0', {1: '256.0', 2: '65536.0', 4: '4294967296.0', 8: '18446744073709551616.0'}[s])
    return '((double)(%s) > %s && (double)(%s) < %s)' % (x, lo, x, hi)

class Fn:
    def __init__(self, name, ret, params, body, desc=None, pre=None, bufsz=0, slots=None, refbody=None, lead='', conc=0):
        self.name = name; self.ret = ret; self.params = params; self.body = body; self.pre = pre; self.bufsz = bufsz; self.slots = slots
        self.desc = desc or body; self.refbody = refbody; self.lead = lead; self.conc = conc

def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'

class Prog:
    """A source file with many functions. Global names are written P_name; the text handed to the compiler
    under test uses the plain prefix t_, the reference uses ref_."""
    def __init__(self, name, prelude='', refprelude=None):
        self.name = name; self.prelude = prelude; self.refprelude = prelude if refprelude is None else refprelude; self.fns = []
        self.tail = ''
    def fn(self, ret, params, body, **kw):
        f = Fn('t_f%d' % len(self.fns), ret, params, body, **kw); f.idx = len(self.fns); self.fns.append(f); return f
    def out(self, params, items, pre=None, desc=None, lead='', ptrtype='long'):
        """items: (kind, label, expression); results are stored to 8-byte slots"""
        b = lead; slots = []
        for n, (k, lab, e) in enumerate(items):
            slots.append(k + lab)
            if k == 'd': b += ' ((double *)o)[%d] = %s;' % (n, e)
            else: b += ' o[%d] = %s;' % (n, e)
        return self.fn('void', params + [('long *', 'o')], b, pre=pre, bufsz=8 * len(items), slots='\n'.join(slots), desc=desc or ', '.join(i[1] for i in items))
    def decl(self, f, pfx):
        return '%s%s %sf%d(%s)' % ('', f.ret, pfx, f.idx, ', '.join('%s %s' % p for p in f.params) or 'void')
    def write(self, chk):
        src = self.prelude.replace('P_', 't_') + '\n'; pre = src; fsrc = []
        ref = '#include "%s/harness/tv.h"\n' % VERIF + self.refprelude.replace('P_', 'ref_') + '\n'
        tab = []
        for f in self.fns:
            fsrc.append(f.lead.replace('P_', 't_') + self.decl(f, 't_').replace('P_', 't_') + ' {' + f.body.replace('P_', 't_') + '}\n')
            ref += f.lead.replace('P_', 'ref_') + 'static ' + self.decl(f, 'ref_').replace('P_', 'ref_') + ' {' + (f.refbody or f.body).replace('P_', 'ref_') + '}\n'
            args = []; decls = ''
            for k, (t, n) in enumerate(f.params):
                if t.strip().endswith('*'): decls += '%s%s = (void *)a_[%d]; ' % (t, n, k)
                elif t in FLT: decls += '%s %s; __builtin_memcpy(&%s, &a_[%d], %d); ' % (t, n, n, k, size(t))
                else: decls += '%s %s = (%s)a_[%d]; ' % (t, n, t, k)
                args.append(n)
            decls = decls.replace('P_', 'ref_')
            call = 'ref_f%d(%s)' % (f.idx, ', '.join(args))
            if f.ret == 'void': body = call + ';'
            elif f.ret in FLT: body = '%s q_ = %s; __builtin_memcpy(&r_->x, &q_, %d);' % (f.ret, call, size(f.ret))
            else: body = 'r_->i = (uint64_t)%s;' % call
            ref += 'static void w_%d(uint64_t *a_, struct tvret *r_) { %s%s }\n' % (f.idx, decls, body)
            if f.pre:
                ref += 'static int pre_%d(uint64_t *a_) { %sreturn %s; }\n' % (f.idx, decls, f.pre.replace('P_', 'ref_'))
            kinds = ''.join(kind(t.strip()) for t, _ in f.params)
            tab.append('{"%s", %s, w_%d, %s, "%s", \'%s\', %d, %d, %s}' % (f.name, cstr(f.desc[:160]), f.idx, 'pre_%d' % f.idx if f.pre else '0', kinds, 'v' if f.ret == 'void' else kind(f.ret), f.bufsz, f.conc, cstr(f.slots) if f.slots else '0'))
        tail = self.tail.replace('P_', 't_'); src = pre + ''.join(fsrc) + tail
        def parts(name, x):
            l = [x[i:i + 2000] for i in range(0, len(x), 2000)] or ['']
            return 'const char *const %s[] = {%s, 0};\n' % (name, ',\n'.join(cstr(q) for q in l))
        ref += 'const struct tvfn tv_fns[] = {\n' + ',\n'.join(tab) + '};\nconst int tv_nfns = %d;\n' % len(tab)
        ref += parts('tv_pre', pre) + parts('tv_tail', tail)
        for k, x in enumerate(fsrc): ref += 'static ' + parts('src_%d' % k, x)
        ref += 'const char *const *const tv_src[] = {%s};\n' % ', '.join('src_%d' % k for k in range(len(fsrc)))
        self.src = src
        return chk.source(ref, 'ref_%s.c' % self.name)

def jobs(chk, prog, per=None, flags='', **kw):
    ref = prog.write(chk); n = len(prog.fns); per = per or n; res = []
    for k in range(0, n, per):
        j = core.Job('%s%s[%d:%d]' % (prog.name, flags and ' ' + flags, k, min(n, k + per)), VERIF + '/harness/tv.c', ref=ref, arg=k, arg2=min(per, n - k), sarg=flags, **kw)
        res.append(chk.add(j))
    return res
