"""C14: conditional inclusion."""
import random
import core, lit
from lit import H, Cases, cbytes

PRE = r'''
typedef unsigned long u64; typedef long i64;
static inline u64 bits(const uint8_t *h, int n) { u64 v = 0; for (int k = 0; k < n; k++) v = v * 2 + (h[k] - '0'); return v; }
'''
class E:
    def __init__(s, txt, ref, sg, pre='1'): s.txt = txt; s.ref = ref; s.sg = sg; s.pre = pre
def both(p, q): return q if p == '1' else p if q == '1' else '(%s && %s)' % (p, q)
class Gen:
    """expressions of the controlling kind; the reference computes in 64-bit integers"""
    def __init__(s, R): s.R = R; s.n = 0; s.decl = ''; s.sets = []
    def leaf(s, sg, w, base='0b', suf=None):
        v = 'a%d' % s.n; suf = suf if suf is not None else (s.R.choice(['', 'l', 'LL', 'L']) if sg else s.R.choice(['u', 'UL', 'uLL', 'U']))
        if sg and w == 64: w = 63
        s.decl += 'const %s %s = (%s)bits(h + %d, %d); ' % (('i64' if sg else 'u64',) * 1 + (v,) + ('i64' if sg else 'u64',) + (s.n, w)); s.n += w; s.sets += ['01'] * w
        return E(base + H * w + suf, v, sg)
    def un(s, op, a): return E('%s(%s)' % (op, a.txt), '((i64)!(%s))' % a.ref if op == '!' else '(%s(%s))' % (op, a.ref) if a.sg is False or op != '-' else '((i64)(0 - (u64)(%s)))' % a.ref, True if op == '!' else a.sg, a.pre)
    def bin(s, op, a, b):
        R = s.R; ta = '(%s) %s (%s)' % (a.txt, op, b.txt)
        if op in ('&&', '||'):
            pre = a.pre if b.pre == '1' else '(%s && (%s(%s) || %s))' % (a.pre, '!' if op == '&&' else '', a.ref, b.pre)
            return E(ta, '((i64)((%s) %s (%s)))' % (a.ref, op, b.ref), True, pre)
        pre = both(a.pre, b.pre)
        if op in ('<<', '>>'):
            pre = both(pre, '((u64)(%s) < 64)' % b.ref)
            r = '((%s)((u64)(%s) << (%s)))' % ('i64' if a.sg else 'u64', a.ref, b.ref) if op == '<<' else '((%s) >> (%s))' % (a.ref, b.ref)
            return E(ta, r, a.sg, pre)
        sg = a.sg and b.sg; t = 'i64' if sg else 'u64'
        if op in ('/', '%'):
            pre = both(pre, '((%s) != 0)' % b.ref)
            if sg: pre = both(pre, '!((%s) == (-9223372036854775807L - 1) && (%s) == -1)' % (a.ref, b.ref))
        if op in ('<', '>', '<=', '>=', '==', '!='): return E(ta, '((i64)((%s)(%s) %s (%s)(%s)))' % (t, a.ref, op, t, b.ref), True, pre)
        if op in ('+', '-', '*'): return E(ta, '((%s)((u64)(%s) %s (u64)(%s)))' % (t, a.ref, op, b.ref), sg, pre)
        return E(ta, '((%s)(%s) %s (%s)(%s))' % (t, a.ref, op, t, b.ref), sg, pre)
    def cond(s, c, a, b):
        sg = a.sg and b.sg; t = 'i64' if sg else 'u64'
        pre = c.pre if a.pre == b.pre == '1' else both(c.pre, '((%s) ? %s : %s)' % (c.ref, a.pre, b.pre))
        return E('(%s) ? (%s) : (%s)' % (c.txt, a.txt, b.txt), '((%s) ? (%s)(%s) : (%s)(%s))' % (c.ref, t, a.ref, t, b.ref), sg, pre)
def observe(C, g, e, desc):
    """truth, exact value (against a symbolic constant) and signedness of an expression"""
    k = g.n; n = g.n; bad = 'if (!(%s)) { e->accept = 3; return; } ' % e.pre
    kk = '0x%sull' % (H * 0) if False else None
    src = '#define X (%s)\n#if %s\nchar v = 1;\n#else\nchar v = 0;\n#endif\n' % (e.txt, e.txt)
    src += '#if X == 0b%sull\nchar w = 1;\n#else\nchar w = 0;\n#endif\n#if X * 0 - 1 < 0\nchar s = 1;\n#else\nchar s = 0;\n#endif\n' % (H * 64)
    order = g.sets * 2 # the definition of X and the direct use
    # the same digits in both spellings: only the first copy is symbolic, the other uses the macro
    src = '#define X (%s)\n#if X\nchar v = 1;\n#else\nchar v = 0;\n#endif\n#if X == 0b%sull\nchar w = 1;\n#else\nchar w = 0;\n#endif\n#if X * 0 - 1 < 0\nchar s = 1;\n#else\nchar s = 0;\n#endif\n' % (e.txt, H * 64)
    C.add(desc, src, g.sets + ['01'] * 64, g.decl + 'u64 K = bits(h + %d, 64); ' % n + bad + 'ex_int(e, "v", 1, (%s) != 0); ex_int(e, "w", 1, (u64)(%s) == K); ex_int(e, "s", 1, %d);' % (e.ref, e.ref, 1 if e.sg else 0))

def exprs(R, quick):
    C = Cases('expr', PRE)
    ops = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||']
    for op in ops:
        for sa in (True, False):
            for sb in (True, False):
                g = Gen(R); hard = op in '*/%'; a = g.leaf(sa, 10 if hard else 64); b = g.leaf(sb, 6 if hard else 64 if op not in ('<<', '>>') else 7)
                if sa and R.random() < .6: a = g.un('-', a)
                if sb and op not in ('<<', '>>') and R.random() < .6: b = g.un('-', b)
                observe(C, g, g.bin(op, a, b), '%s %s %s' % ('signed' if sa else 'unsigned', op, 'signed' if sb else 'unsigned'))
    for op in '-+~!':
        for sa in (True, False): g = Gen(R); observe(C, g, g.un(op, g.leaf(sa, 64)), '%s %s' % (op, 'signed' if sa else 'unsigned'))
    for sa in (True, False):
        for sb in (True, False): g = Gen(R); observe(C, g, g.cond(g.leaf(True, 8), g.un('-', g.leaf(sa, 30)), g.leaf(sb, 30)), '?: of %s and %s' % (sa, sb))
    for k in range(24 if quick else 300):
        g = Gen(R)
        def ex(d):
            x = R.random()
            if d == 0 or x < .1: return g.leaf(R.random() < .6, R.choice([2, 4, 8, 33]))
            if x < .25: return g.un(R.choice('-~!+'), ex(d - 1))
            if x < .38: return g.cond(ex(d - 1), ex(d - 1), ex(d - 1))
            return g.bin(R.choice(['+', '-', '&', '|', '^', '<', '>=', '==', '!=', '&&', '||', '<<', '>>', '<=', '>']), ex(d - 1), ex(d - 1))
        e = ex(3)
        while g.n > 70 or g.n == 0: g.n = 0; g.decl = ''; g.sets = []; e = ex(2)
        observe(C, g, e, 'nested expression %d' % k)
    return C

def flat(R, quick):
    """operator precedence: expressions without parentheses; the reference is the same text compiled as C over 64-bit constants"""
    C = Cases('prec', PRE); ops = ['+', '-', '*', '<<', '>>', '&', '|', '^', '<', '>', '<=', '>=', '==', '!=', '&&', '||', '?:']
    for k in range(40 if quick else 400):
        n = R.choice([3, 4, 5]); t = ''; r = ''; d = ''; sets = []
        for i in range(n):
            u = R.choice(['', '', '', '-', '!', '~', '- -', '!!'])
            d += 'const i64 a%d = bits(h + %d, 3); ' % (i, 3 * i); t += u + '0b' + H * 3; r += u + 'a%d' % i; sets += ['01'] * 3
            if i + 1 < n:
                op = R.choice(ops)
                if op == '?:':
                    if i + 2 >= n: op = '+'
                    else:
                        w = R.choice(['', '-']); d += 'const i64 b%d = bits(h + %d, 3); ' % (i, 3 * n); t += ' ? %d : ' % (i + 2); r += ' ? %dL : ' % (i + 2); continue
                if op in ('<<', '>>'): t += ' %s %d %s ' % (op, i, '+'); r += ' %s %d %s ' % (op, i, '+'); # a small count; the next operand adds to it
                else: t += ' %s ' % op; r += ' %s ' % op
        r2 = r
        C.add('flat expression: ' + t.replace(H, '.').replace('0b...', 'x'), '#define X %s\n#if X\nchar v = 1;\n#else\nchar v = 0;\n#endif\n' % t, sets, d + 'ex_int(e, "v", 1, (%s) != 0);' % r)
    return C

def groups(R, quick):
    """random nests of conditional groups over symbolic conditions"""
    C = Cases('group', PRE)
    junk = ['#error skipped\n', '#include "no such file"\n', '#include <nothing>\n', '#define B 77\n', '#undef A\n', '# not a directive\n', '#\n', '# 12 "x"\n', '@ ` \\ $ 0x1.8q 1..2\n', '"text" \'c\' // comment \' "\n', '#pragma once\n', '#line zero\n', '#if (1 / 0\n#elif )\n#else extra(\n#endif\n', '/* #else\n#endif */\n', '#ifdef\n#endif\n', '#elifx\n', '#elseif\n', '"#endif"\n']
    for k in range(40 if quick else 400):
        st = {'n': 0, 'id': 0, 'sets': []}
        def cnd():
            form = R.choice(['#%s X', '#%s defined %s', '#%s !defined(%s)', 'ifdef', 'ifndef', '#%s !X', '#%s X && defined %s'])
            return form
        def hole(s): st['sets'].append(s); st['n'] += 1; return st['n'] - 1
        def cond(kind):
            """(text after the directive, C condition)"""
            f = R.choice(['lit', 'lit', 'not', 'def', 'ndef', 'defp', 'mac', 'and', 'chr', 'undef'])
            if f == 'lit': k = hole('09'); return H, 'h[%d] != \'0\'' % k
            if f == 'not': k = hole('09'); return '! ' + H + ' /* c */', 'h[%d] == \'0\'' % k
            if f == 'def': k = hole('AD'); return 'defined ' + H, "h[%d] == 'A'" % k
            if f == 'ndef': k = hole('AD'); return '!defined(%s)' % H, "h[%d] != 'A'" % k
            if f == 'defp': k = hole('AD'); return 'defined ( %s ) // x' % H, "h[%d] == 'A'" % k
            if f == 'mac': k = hole('04'); return 'F(%s, 2)' % H, "h[%d] - '0' == 2" % k
            if f == 'and': a = hole('01'); b = hole('AC'); return '%s && \\\n defined %s' % (H, H), "h[%d] == '1' && h[%d] == 'A'" % (a, b)
            if f == 'chr': k = hole('az'); return "'%s' == 'q'" % H, "h[%d] == 'q'" % k
            k = hole('AD'); return '%s == 5' % H, "h[%d] == 'A'" % k
        def group(d, live):
            """(text, reference statements)"""
            t = ''; r = ''
            for _ in range(R.choice([1, 1, 2, 3]) if d else 1):
                x = R.random()
                if d and x < .65: a, b = section(d - 1); t += a; r += b
                else: st['id'] += 1; t += ' %d,\n' % st['id']; r += 'o[m++] = %d; ' % st['id']
            return t, r
        def sometimes_junk(): return ''
        def section(d):
            form = R.choice(['if', 'if', 'if', 'ifdef', 'ifndef'])
            if form == 'if': ct, cr = cond(0); t = R.choice(['#if %s\n', '  # if %s\n', '#if\\\n %s\n']) % ct
            else: k = hole('AD'); t = '#%s %s\n' % (form, H); cr = "h[%d] %s 'A'" % (k, '==' if form == 'ifdef' else '!=')
            a, b = group(d, 1); t += a; r = 'if (%s) { %s}' % (cr, b)
            for _ in range(R.choice([0, 0, 1, 2])): ct, cr = cond(0); a, b = group(d, 1); t += '#elif %s\n%s' % (ct, a); r += ' else if (%s) { %s}' % (cr, b)
            if R.random() < .6: a, b = group(d, 1); t += R.choice(['#else\n', '# else /* x */\n', '#else// y\n']) + a; r += ' else { %s}' % b
            # a group no condition selects, with text that must not be looked at
            if R.random() < .35:
                j = ''.join(R.choice(junk) for _ in range(3)); t = '#if 0\n%s#else\n%s#endif\n' % (j, t + '#endif\n') if R.random() < .5 else '#if 1\n%s#endif\n#elif 1 / 0 (\n%s#elif\n%s#else\n%s#endif\n' % (t, j, j, j)
                return t, r
            return t + R.choice(['#endif\n', '# endif\n', '#endif // z\n']), r
        a, b = section(3 if quick else R.choice([3, 4]))
        while len(st['sets']) > 14 or len(st['sets']) < 3: st.update(n=0, id=0, sets=[]); a, b = section(3)
        C.add('nest %d' % k, '#define A 5\n#define F(x, y) x == y\nchar v[64] = { 99,\n%s 98 };\n' % a, st['sets'], 'uint8_t o[64] = {99}; int m = 1; %s o[m] = 98; ex_bytes(e, "v", 64, o);' % b)
    return C

def illformed(R):
    C = Cases('ill', PRE)
    bad = ['#if 1\nint v;', '#if 0\nint v;', '#ifdef X\n#else\nint v;', '#endif\nint v;', '#else\n#endif\nint v;', '#elif 1\n#endif\nint v;', '#if 1\n#else\n#else\n#endif\nint v;', '#if 0\n#else\n#elif 1\n#endif\nint v;', '#if 1\n#endif\n#endif\nint v;', '#if\n#endif\nint v;', '#if 1 2\n#endif\nint v;', '#if (1\n#endif\nint v;', '#if 1)\n#endif\nint v;', '#if 1 +\n#endif\nint v;', '#if + \n#endif\nint v;', '#if 1 ? 2\n#endif\nint v;', '#if 1 ? 2 :\n#endif\nint v;', '#if 1.0\n#endif\nint v;', '#if "x"\n#endif\nint v;', '#if 1 / 0\n#endif\nint v;', '#if 1 % 0\n#endif\nint v;', '#if 1 || (1 ? 2 / 0 : 0 == )\n#endif\nint v;', '#if defined\n#endif\nint v;', '#if defined 3\n#endif\nint v;', '#if defined(X\n#endif\nint v;', '#ifdef\n#endif\nint v;', '#ifndef\n#endif\nint v;', '#ifdef 3\n#endif\nint v;', '#if x = 1\n#endif\nint v;', '#if 1 == == 1\n#endif\nint v;', '#if 2 2\n#endif\nint v;', '#if ++1\n#endif\nint v;', '#if sizeof(int) == 4\n#endif\nint v;', '#if (int)1\n#endif\nint v;', '#error\nint v;', '#error message\nint v;', '#if 1\n#error x\n#endif\nint v;', '#nonsense\nint v;', '#if 08\n#endif\nint v;', '#if 0x\n#endif\nint v;', '#if 0\n#elif\n#endif\nint v;', '#if 0\n#elif 1 1\n#endif\nint v;']
    for b in bad: C.add('ill-formed: ' + b.replace('\n', ' | '), b + '\n', [], 'e->accept = 0;'); C.add('ill-formed in a file without a final newline: ' + b.replace('\n', ' | '), 'int w;\n' + b[:b.rindex('\n')] if b.endswith('\nint v;') else b, [], 'e->accept = 0;')
    for op in ['/', '%']: C.add('division by a symbolic value: ' + op, '#if 5 %s %s || 1\nint v = 3;\n#endif\n' % (op, H), ['09'], "if (h[0] == '0') { e->accept = 0; return; } ex_int(e, \"v\", 4, 3);")
    C.add('unevaluated division', '#if (%s && 1 / %s) || (1 ? 4 : 1 %% %s)\nint v = 3;\n#endif\n' % (H, H, H), ['01', '01', '09'], "if (h[0] == '1' && h[1] == '0') { e->accept = 0; return; } ex_int(e, \"v\", 4, 3);")
    C.add('identifiers are zero', '#if %s%s == 0 && int == 0 && while + 1\nint v = 3;\n#endif\n' % (H, H), ['az', 'az'], 'ex_int(e, "v", 4, 3);')
    C.add('character constants', "#if '%s' == %s%s && L'%s' < u'%s' && U'a' == 97 && '\\x%s' != '\\n' && '\\377' < 0\nint v = 3;\n#else\nint v = 4;\n#endif\n" % ((H,) * 6), ['az', '69', '09', 'AZ', 'az', '09'], "ex_int(e, \"v\", 4, h[0] == (h[1] - '0') * 10 + h[2] - '0' ? 3 : 4);")
    C.add('literal suffixes', '#if 0x80000000 > -1 && 4294967295 > -1 && 0xffffffff + 1 != 0 && -1 > 0u && 0x8000000000000000 > 0 && -0x7fffffffffffffff < 0 && 0x%s0000000 > -%s && -1L < 1l && ~0ull == 0xffffffffffffffff && 037777777777 > -1\nint v = 3;\n#endif\n' % (H, H), ['19', '09'], 'ex_int(e, "v", 4, 3);')
    C.add('null directives and spacing', '#\n # \n/* x */ # /* y */ if /* z */ %s /* w\n */\n#\n\tint v = 1;\n#  else\nint v = 2;\n # endif\n#' % H, ['01'], "ex_int(e, \"v\", 4, h[0] == '1' ? 1 : 2);")
    for op in ['<', '>', '<=', '>=', '==', '!=', '&&', '||']:
        C.add('a comparison is signed: ' + op, '#if (1u %s %su) - 2 < 0 && (%s %s 3u) - 2 < 0 && -((2u %s 1u) + 1) < 0\nint v = 3;\n#endif\n' % (op, H, H, op, op), ['09', '09'], 'ex_int(e, "v", 4, 3);')
    C.add('unary operators and signedness', '#if (!%su) - 2 < 0 && (defined A) - 1 < 0 && -%su > 0 && ~%su > 0 && +%su - 10 > 0 && ~%s < 0 && (1 ? -1 : %su) > 0 && (0 ? %su : -1) > 0 && (%s ? 1 : 2) - 3 < 0 && (-1 >> 1%s) < 0 && (-1 >> 1u) < 0 && (-1 << 1%su) < 0 && 0 - 1%s < 0\nint v = 3;\n#endif\n' % ((H,) * 11), ['09', '19', '09', '09', '09', '09', '09', '09', '09', '09', '09'], 'ex_int(e, "v", 4, 3);')
    for op, q in (('/', '%'), ('%', '/')):
        C.add('unsigned division of extremes: ' + op, '#if (0x%s00000000000000%su %s 0xfffffffffffffff%su) %s 0x80 == 1\nint v = 1;\n#else\nint v = 0;\n#endif\n'.replace('%s 0x80', '%s') % (H, H, op, H, ''), ['88', '07', '8f'[:1] + '9'], 'uint64_t a = 0x8000000000000000u + (h[1] - 48), b = 0xfffffffffffffff0u + (h[2] - 48); ex_int(e, "v", 4, %s);' % ('a >= b' if op == '/' else 'h[1] == 49 && 0'))
        C.add('signed division of extremes: ' + op, '#if ((-0x7fffffffffffffff - %s) %s -%s) * 0 == 0\nint v = 1;\n#else\nint v = 0;\n#endif\n' % (H, op, H), ['01', '12'], "if (h[0] == '1' && h[1] == '1') { e->accept = 0; return; } ex_int(e, \"v\", 4, 1);")
    C.add('unsigned division by all ones', '#if 0x800000000000000%su / 0xffffffffffffffffu == 0 && 0x800000000000000%s / -1 == 0 && 0x800000000000000%su %% -1 != 0 && 0x%s / -1u == 0\nint v = 1;\n#endif\n' % ((H,) * 4), ['09', '09', '09', '09'], 'ex_int(e, "v", 4, 1);')
    body = ['#if 1\n%s__LINE__\n#endif\n', '#define Q%d\n__LINE__\n', '#undef Q\n__LINE__\n', '#ifdef NO\n1\n#else\n__LINE__\n#endif\n', '#if 0\n#elif 1\n\n__LINE__\n#endif\n', '#pragma push_macro("Q")\n__LINE__\n', '#pragma pop_macro("Q")\nM\n', '__LINE__\n', 'M\n', '# /* x\n*/ define R R\n__LINE__\n', '#line\\\n 7%s\n__LINE__\n', '#if __LINE__ > 5000\n1\n#else\n__LINE__\n#endif\n']
    for k, b in enumerate(body):
        src = '#define M __LINE__\n#define F(x) x\n#line %s%s\nint a =\n' % (H, H); n = 'n + %d' % (src[src.rindex('#line'):].count('\n') - 1); b = b.replace('%d', '2'); sets = ['19', '09']
        if '7%s' in b: b = b % H; sets.append('09'); n = '70 + h[2] - 48'
        else:
            b = b.replace('%s', ''); j = b.index('__LINE__' if '__LINE__' in b and '#if __LINE__' not in b else 'M\n' if '\nM\n' in b or b == 'M\n' else '\n__LINE__') ; j = j + 1 if b[j] == '\n' else j; n += ' + %d' % b[:j].count('\n')
        C.add('the first token after a directive: ' + b.replace('\n', ' | '), src + b + ';\nint z = __LINE__;\n', sets, 'int n = (h[0] - 48) * 10 + h[1] - 48; ex_int(e, "a", 4, %s);%s' % (n, '' if '7' in b else ' ex_int(e, "z", 4, n + %d);' % (b.count('\n') + 2)))
    C.add('line numbers', 'int a = __LINE__;\n#line %s%s%s\nint b = __LINE__;\n\nint c = __LINE__; char f[] = __FILE__;\n#line %s00 "f.c"\nint d = __LINE__; char g[] = __FILE__;\n#define L %s0 "z%s.c"\n#line L\nint i = __LINE__; char j[] = __FILE__;\n' % ((H,) * 6), ['12', '02', '89', '12', '12', 'az'], 'int n = (h[0] - 48) * 100 + (h[1] - 48) * 10 + h[2] - 48; char j[5] = {\'z\', h[5], \'.\', \'c\'}; ex_int(e, "a", 4, 1); ex_int(e, "b", 4, n); ex_int(e, "c", 4, n + 2); ex_bytes(e, "f", 4, "t.c"); ex_int(e, "d", 4, (h[3] - 48) * 100); ex_bytes(e, "g", 4, "f.c"); ex_int(e, "i", 4, (h[4] - 48) * 10); ex_bytes(e, "j", 5, j);')
    C.add('includes', '#define A <std%s.h>\n#define B(x) <x.h>\n#define C "../t.c"\n#define OFF <%s\n#if %s == 1\n#include A\nint v = 1 ? sizeof (bool) : 0;\n#elif 2\n#include B(stddef)\nint v = offsetof(struct { char a[3]; int x; }, x) + 3;\n#endif\n' % ('bool', H, H), ['az', '02'], 'ex_int(e, "v", 4, h[1] == \'1\' ? 1 : 7);')
    C.add('conditions use the macros at that point', '#define A %s\n#if A == 3\n#undef A\n#define A 4\n#elif A == 4\n#undef A\n#endif\n#ifdef A\nint v = A;\n#else\nint v = 77;\n#endif\n' % H, ['09'], "int a = h[0] - '0'; ex_int(e, \"v\", 4, a == 3 ? 4 : a == 4 ? 77 : a);")
    return C

def check():
    c = core.Check('C14'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 43 + 14)
    c.bounds = ['controlling expressions: every operator over literals of up to 64 symbolic binary digits, signed and unsigned (multiplication, division: 10 by 6 digits); truth, exact value (against a symbolic 64-digit literal) and signedness observed; random nested and flat (precedence) expressions', 'random nests of #if/#ifdef/#ifndef/#elif/#else up to depth %d with up to 14 symbolic conditions; skipped groups hold invalid text and directives' % (3 if quick else 4), 'a table of ill-formed conditionals, with and without a final newline']
    c.outside = ['extra tokens after #else, #endif and identifiers of #ifdef', 'defined produced by macro expansion', '#elifdef/#elifndef (C23)', 'implementation-defined #pragma']
    lit.jobs(c, exprs(R, quick), per=6); lit.jobs(c, flat(R, quick), per=10); lit.jobs(c, groups(R, quick), per=4); lit.jobs(c, illformed(R), per=10)
    return c
