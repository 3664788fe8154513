"""C03: values and types of integer and floating literals."""
import random
import core, lit
from lit import H, Cases

PRE = r'''
static int digit(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return c - 'A' + 10; }
// value and type of an integer literal: returns the index of its type (0 int .. 5 unsigned long long), -1 if none
static int classify(unsigned long long v, int over, int dec, int u, int l) {
  if (over) return -1;
  if (l == 0) { if (!u && v <= 0x7fffffffull) return 0; if ((u || !dec) && v <= 0xffffffffull) return 1; }
  if (l <= 1) { if (!u && v <= 0x7fffffffffffffffull) return 2; if (u || !dec) return 3; return -1; }
  if (!u && v <= 0x7fffffffffffffffull) return 4; if (u || !dec) return 5; return -1; }
static void lit(struct lexp *e, const uint8_t *h, int n, int base, unsigned long long v, int u, int l) {
  int over = 0;
  for (int k = 0; k < n; k++) { int d = digit((char)h[k]); unsigned long long m = 0xffffffffffffffffull / base; over |= v > m | (v == m & d > 0xffffffffffffffffull % base); v = v * base + d; }
  int t = classify(v, over, base == 10, u, l);
  if (t < 0) { e->accept = 0; return; }
  ex_int(e, "v", 8, v); ex_int(e, "t", 1, t); }
'''
GEN = 'unsigned long v = %s; char t = _Generic(%s, int: 0, unsigned: 1, long: 2, unsigned long: 3, long long: 4, unsigned long long: 5, default: 9);'
SUF = {'': (0, 0), 'u': (1, 0), 'U': (1, 0), 'l': (0, 1), 'L': (0, 1), 'ul': (1, 1), 'uL': (1, 1), 'Ul': (1, 1), 'UL': (1, 1), 'lu': (1, 1), 'LU': (1, 1), 'll': (0, 2), 'LL': (0, 2), 'ull': (1, 2), 'ULL': (1, 2), 'uLL': (1, 2), 'llu': (1, 2), 'LLU': (1, 2), 'Ull': (1, 2), 'LLu': (1, 2)}

def integers(c, R):
    C = Cases('int', PRE)
    def add(kind, n, suf, body, sets, base, v0='0'):
        u, l = SUF[suf]; C.add('%s literal of %d digits, suffix "%s"' % (kind, n, suf), '#define X %s%s\n' % (body, suf) + GEN % ('X', 'X'), sets, 'lit(e, h, %d, %d, %sULL, %d, %d);' % (body.count(H), base, v0, u, l))
    sufs = list(SUF)
    few = sufs if core.TIER != 'quick' else ['', 'u', 'l', 'UL', 'lu', 'll', 'LLU']
    B = {19: '9223372036854775807', 20: '18446744073709551615'}
    for n in range(1, 22):
        ss = sufs if n in (10, 19, 20) or core.TIER != 'quick' else ['', R.choice(sufs[1:])]
        for s in ss:
            if n <= 10: add('decimal', n, s, H * n, ['19'] + ['09'] * (n - 1), 10); continue
            # the leading digits are fixed: around the limits of the types, or at random
            for pre in ([B[n], R.choice(['1', '5', '9']) + ''.join(R.choice('0123456789') for _ in range(20))] if n in B else [R.choice(['1', '4', '9']) + ''.join(R.choice('0123456789') for _ in range(20))]):
                w = 7 if core.TIER == 'quick' else 9; pre = pre[:n - w]; add('decimal', n, s, pre + H * w, ['09'] * w, 10, pre)
    for n in range(1, 23):
        ss = few if n in (11, 22) or core.TIER != 'quick' else ['', R.choice(sufs[1:])]
        for s in ss:
            if n <= 11: add('octal', n, s, '0' + H * n, ['07'] * n, 8); continue
            for pre in ([R.choice(['1', '17']), R.choice('012') + '7' * 20, ''.join(R.choice('01234567') for _ in range(20))] if n == 22 else [''.join(R.choice('01234567') for _ in range(20))]):
                pre = pre[:n - 10]; k = n - len(pre); add('octal', n, s, '0' + pre + H * k, ['07'] * k, 8, '0' + pre)
    for n in range(1, 18):
        ss = few if n in (8, 16) or core.TIER != 'quick' else ['', R.choice(sufs[1:])]
        for s in ss:
            x = R.choice(['0x', '0X']); free = set(R.sample(range(n), min(n, 2 if n < 5 or core.TIER != 'quick' else 1)))
            sets = ['09afAF' if k in free else R.choice(['09', '09', 'ad', 'ff', 'AD', 'FF', 'ee', 'EE']) for k in range(n)]
            add('hexadecimal', n, s, x + H * n, sets, 16)
    C, D = Cases('bin', PRE), C
    for n in (1, 2, 31, 32, 33, 63, 64, 65):
        for s in (sufs if core.TIER != 'quick' else ['', 'u', R.choice(sufs[1:])]): add('binary', n, s, R.choice(['0b', '0B']) + H * n, ['01'] * n, 2)
    C, B = D, C
    C.add('literal 0', '#define X 0\n' + GEN % ('X', 'X'), [], 'ex_int(e, "v", 8, 0); ex_int(e, "t", 1, 0);')
    # digit separators
    for n in (4, 9, 12):
        body = ''.join((H + ("'" if k % 3 == 2 and k < n - 1 else '')) for k in range(n)); C.add('decimal literal with separators', '#define X %s\n' % body + GEN % ('X', 'X'), ['19'] + ['09'] * (n - 1), 'lit(e, h, %d, 10, 0, 0, 0);' % n)
    return C, B

FPRE = r'''
static void flt(struct lexp *e, const uint8_t *h, int n, int base, double scale, int div, int f) {
  unsigned long long m = 0; for (int k = 0; k < n; k++) { char c = h[k]; int d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'f') d = c - 'a' + 10; else d = c - 'A' + 10; m = m * base + d; }
  double r = (double)m; if (scale != 1) r = div ? r / scale : r * scale; float g = r; unsigned long long x; if (f) { unsigned y; memcpy(&y, &g, 4); x = y; } else memcpy(&x, &r, 8);
  ex_int(e, "v", f ? 4 : 8, x); ex_int(e, "t", 1, f); }
'''
def floats(c, R):
    C = Cases('flt', FPRE)
    def add(body, sets, base, exp2, exp10, suf):
        n = body.count(H); f = suf in ('f', 'F'); e = exp2 if base == 16 else exp10; sc = ('%d.0' % 2 ** abs(e)) if base == 16 else '1e%d' % abs(e)
        C.add('floating literal %s%s' % (body.replace(H, 'D'), suf), '#define X %s%s\n%s v = X; char t = _Generic(X, float: 1, double: 0, default: 9);' % (body, suf, 'float' if f else 'double'), sets, 'flt(e, h, %d, %d, %s, %d, %d);' % (n, base, sc if e else '1', e < 0, f))
    for i, fr in [(1, 0), (1, 1), (0, 1), (2, 2), (3, 0), (0, 3), (5, 4), (9, 6), (0, 15), (15, 0), (12, 3)]:
        for ex in ['', 'e0', 'E5', 'e+3', 'e-2', 'E-07', 'e12'] if core.TIER != 'quick' else ['', R.choice(['e0', 'E5', 'e+3']), R.choice(['e-2', 'E-07', 'e12'])]:
            for suf in ['', 'f', 'F'] if core.TIER != 'quick' else ['', R.choice('fF')]:
                e10 = int(ex[1:]) if ex else 0
                if fr == 0 and ex and i < 9: body = H * i + ex
                else: body = H * i + '.' + H * fr + ex
                if abs(e10 - fr) <= 22: add(body, ['09'] * (i + fr), 10, 0, e10 - fr, suf)
    for i, fr in [(1, 0), (1, 1), (0, 2), (2, 3), (6, 6)]:
        for ex in ['p0', 'P4', 'p-3', 'p+10'] if core.TIER != 'quick' else [R.choice(['p0', 'P4', 'p-3', 'p+10'])]:
            for suf in ['', 'f', 'F'] if core.TIER != 'quick' else ['', R.choice('fF')]:
                add(R.choice(['0x', '0X']) + H * i + ('.' + H * fr if fr or R.random() < .5 else '') + ex, [R.choice(['09', '09', 'ad', 'ff', 'AD', 'FF']) if i + fr > 2 else R.choice(['09af', '09AF']) for _ in range(i + fr)], 16, int(ex[1:]) - 4 * fr, 0, suf)
    # all byte values after a literal: what is a suffix and what is not
    SPRE = 'e->accept = 0;'
    for lit0, name in [('12', 'integer'), ('1.5', 'floating'), ('0x1f', 'hexadecimal'), ('017', 'octal')]: pass
    return C
def suffixes(c):
    """any two letters after a literal: accepted exactly when they form a suffix"""
    C = Cases('suf', r'''
static int is(const uint8_t *h, int n, const char *s) { if ((int)strlen(s) != n) return 0; for (int k = 0; k < n; k++) if (h[k] != (uint8_t)s[k]) return 0; return 1; }
static void suf(struct lexp *e, const uint8_t *h, int n, int fl, int dec) {
  static const char *const I[] = {"u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU", "ll", "LL", "ull", "uLL", "Ull", "ULL", "llu", "llU", "LLu", "LLU"}; static const int T[] = {1, 1, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 5, 5, 5, 5, 5, 5, 5, 5};
  if (fl) { e->accept = 0; if (is(h, n, "f") | is(h, n, "F")) { e->accept = 1; ex_int(e, "t", 1, 6); } else if (is(h, n, "l") | is(h, n, "L")) e->accept = 3; return; }
  e->accept = 0; for (int k = 0; k < 22; k++) if (is(h, n, I[k])) { e->accept = 1; ex_int(e, "t", 1, T[k]); } }
''')
    for lit0, fl in [('12', 0), ('1.5', 1), ('0x1c', 0), ('017', 0), ('1e3', 1), ('.5', 1), ('0', 0), ('0x1p3', 1), ('0b101', 0)]:
        for n in (1, 2, 3) if core.TIER != 'quick' else (1, 2):
            rng = 'gzGZ' if lit0[:2] == '0x' else 'fzFZ' if not fl else 'azAZ'
            if not fl and lit0[:2] != '0x': rng = 'gozzlluullLLUUGO'
            if not fl: rng = 'gozzlluuLLUUGOQZ' if '0x' in lit0 else 'gozzlluuLLUUGOQWYZddDD'
            if fl: rng = 'agizfflluuAGIZFFLL'
            C.add('literal %s followed by %d letters' % (lit0, n), '#define X %s\nlong v = X; char t = _Generic(X, int: 0, unsigned: 1, long: 2, unsigned long: 3, long long: 4, unsigned long long: 5, float: 6, double: 7, default: 9);' % (lit0 + H * n), [rng] * n, 'suf(e, h, %d, %d, 0);' % (n, fl))
    for t in ['08', '09', '018', '0129', '0b12', '0b2', '0x', '0b', '1e', '1e+', '0xg', '1.5.2', '1..2', '12.5e']: C.add('malformed literal ' + t, 'double v = %s;' % t, [], 'e->accept = 0;')
    for b, rng in [('0', '89'), ('01', '89'), ('0b', '29'), ('0b1', '29')]: C.add('malformed literal %sD' % b, 'double v = %s;' % (b + H), [rng], 'e->accept = 0;')
    return C

def check():
    c = core.Check('C03'); R = random.Random(core.SEED * 31 + 3)
    c.bounds = ['integer literals of up to 21 decimal, 23 octal, 17 hexadecimal and 65 binary digits, every suffix; the last 7 (decimal), 10 (octal) or all digits symbolic, hexadecimal digits with two fully symbolic positions', 'floating literals of up to 15 digits with a fixed exponent', 'one to two (thorough: three) arbitrary letters as a suffix']
    c.outside = ['long double literals', 'floating literals of more than 15 digits or exponents beyond 10^22 (strtod of the host C library converts them)']
    c.assumptions = ['strtod is modelled as one correctly rounded operation on the exact integer of the digits']
    a, b = integers(c, R); lit.jobs(c, a, per=5); lit.jobs(c, b, per=2); lit.jobs(c, floats(c, R), per=6); lit.jobs(c, suffixes(c), per=3)
    return c
