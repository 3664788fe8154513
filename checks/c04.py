"""C04: character constants and string literals."""
import random
import core, lit
from lit import H, Cases, cbytes

PRE = r'''
typedef unsigned u32;
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static u32 units[256]; static int nunits, bad;
static void cp8(u32 c) { if (c < 0x80) units[nunits++] = c; else if (c < 0x800) { units[nunits++] = 0xc0 | c >> 6; units[nunits++] = 0x80 | (c & 63); } else if (c < 0x10000) { units[nunits++] = 0xe0 | c >> 12; units[nunits++] = 0x80 | (c >> 6 & 63); units[nunits++] = 0x80 | (c & 63); } else { units[nunits++] = 0xf0 | c >> 18; units[nunits++] = 0x80 | (c >> 12 & 63); units[nunits++] = 0x80 | (c >> 6 & 63); units[nunits++] = 0x80 | (c & 63); } }
static void cp(u32 c, int w) { if (w == 1) cp8(c); else if (w == 2 && c > 0xffff) { c -= 0x10000; units[nunits++] = 0xd800 | c >> 10; units[nunits++] = 0xdc00 | (c & 0x3ff); } else units[nunits++] = c; }
// code units of a sequence of adjacent literals with quote q and elements of w bytes; bad: 0 fine, 1 must be diagnosed, 2 not covered
static void decode(const uint8_t *h, const char *t, int q, int w) {
  static uint8_t s[400]; int n = 0, hole = 0; for (; t[n]; n++) s[n] = t[n] == 1 ? h[hole++] : (uint8_t)t[n]; s[n] = 0;
  nunits = 0; bad = 0; u32 max = w == 1 ? 0xff : w == 2 ? 0xffff : 0xffffffffu; int i = 0;
  while (i < n) {
    if (s[i] != q) { i++; continue; } // prefixes and white space
    i++;
    while (s[i] != q) {
      if (i >= n) { bad = 2; return; }
      if (s[i] == '\\' && s[i + 1] == '\n') { i += 2; continue; }
      if (s[i] == '\\') {
        i++; u32 v = 0; int c = s[i];
        if (c >= '0' && c <= '7') { for (int k = 0; k < 3 && s[i] >= '0' && s[i] <= '7'; k++) v = v * 8 + s[i++] - '0'; if (v > max) bad = 1; units[nunits++] = v; continue; }
        if (c == 'x') { i++; if (hexv(s[i]) < 0) { bad = 1; return; } int over = 0; while (hexv(s[i]) >= 0) { over |= v > 0xfffffffu; v = v * 16 + hexv(s[i++]); } if (over || v > max) bad = 1; units[nunits++] = v; continue; }
        if (c == 'u' || c == 'U') { i++; for (int k = 0; k < (c == 'u' ? 4 : 8); k++) { if (hexv(s[i]) < 0) { bad = 1; return; } v = v * 16 + hexv(s[i++]); } if ((v < 0xa0 && v != '$' && v != '@' && v != '`') || (v >= 0xd800 && v < 0xe000) || v > 0x10ffff) { bad = 1; v = 0xa0; } cp(v, w); continue; }
        i++;
        switch (c) { case '\'': case '"': case '?': case '\\': v = c; break; case 'a': v = 7; break; case 'b': v = 8; break; case 't': v = 9; break; case 'n': v = 10; break; case 'v': v = 11; break; case 'f': v = 12; break; case 'r': v = 13; break; default: bad = 1; }
        units[nunits++] = v; continue; }
      if (s[i] == '\n') { bad = 1; return; }
      if (w == 1 || s[i] < 0x80) { units[nunits++] = s[i++]; continue; }
      u32 v = s[i], m = 0; int k = v >= 0xf0 && v < 0xf5 ? 3 : v >= 0xe0 && v < 0xf0 ? 2 : v >= 0xc2 && v < 0xe0 ? 1 : 0; if (!k) { bad = 2; return; }
      v &= 0x3f >> k; m = k == 1 ? 0x80 : k == 2 ? 0x800 : 0x10000; i++; while (k--) { if ((s[i] & 0xc0) != 0x80) { bad = 2; return; } v = v << 6 | (s[i++] & 63); }
      if (v < m || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) { bad = 2; return; }
      cp(v, w); }
    i++; } }
static void str(struct lexp *e, const uint8_t *h, const char *t, int w) {
  decode(h, t, '"', w); if (bad) { e->accept = bad == 1 ? 0 : 3; return; }
  units[nunits++] = 0; uint8_t *b = malloc(nunits * w); for (int k = 0; k < nunits; k++) for (int j = 0; j < w; j++) b[k * w + j] = units[k] >> (8 * j);
  ex_bytes(e, "v", nunits * w, b); ex_int(e, "n", 8, nunits * w); ex_int(e, "t", 1, w == 1 ? 1 : w == 2 ? 2 : 3); }
static void chr(struct lexp *e, const uint8_t *h, const char *t, int w, int ty) {
  decode(h, t, '\'', w); if (bad || nunits != 1) { e->accept = bad == 1 || (!bad && !nunits) ? 0 : 3; return; }
  long v = w == 1 ? (long)(signed char)units[0] : ty == 0 ? (long)(int)units[0] : (long)units[0]; ex_int(e, "v", 8, v); ex_int(e, "t", 1, ty); }
'''
# ordinary characters of a literal in either quote style
PLAIN = ' !#&([]~'; HEX = '09afAF'; OCT = '07'
def u8seq(n): return {2: ['\xc2\xdf', '\x80\xbf'], 3: ['\xe0\xef', '\x80\xbf', '\x80\xbf'], 4: ['\xf0\xf4', '\x80\xbf', '\x80\xbf', '\x80\xbf']}[n]
STR = {'': ('char', 1), 'u8': ('char', 1), 'u': ('unsigned short', 2), 'U': ('unsigned', 4), 'L': ('int', 4)}
GS = '_Generic(&(%s)[0], char *: 1, unsigned short *: 2, unsigned *: 3, int *: 3, default: 9)'
GC = '_Generic(%s, int: 0, unsigned short: 2, unsigned: 3, default: 9)'

# hexadecimal digits: two positions range over all of them, the others over one class each
def hexs(n):
    full = RH.sample(range(n), min(n, 2)); return [HEX if k in full else RH.choice(['09', 'af', 'AF']) for k in range(n)]
RH = random.Random(core.SEED * 59 + 4)
# text of one element, and the sets of its holes
def elements(p):
    e = [('an ordinary character', H, [PLAIN]), ('two ordinary characters', H + H, [PLAIN] * 2), ('a simple escape', '\\' + H, [' ~'.replace(' ', '\x20') if False else '!/\x3a\x54\x56\x74\x76\x77\x79\x7e']),
         ('an octal escape', '\\' + H, [OCT]), ('an octal escape of two digits', '\\' + H * 2, [OCT] * 2), ('an octal escape of three digits', '\\' + H * 3, [OCT] * 3), ('an octal escape and a digit', '\\' + H * 3 + H, [OCT] * 3 + ['09']), ('a short octal escape and a digit', '\\' + H + H, [OCT, '89']),
         ('a hexadecimal escape', '\\x' + H, [HEX]), ('a hexadecimal escape of two digits', '\\x' + H * 2, [HEX] * 2), ('a hexadecimal escape of three digits', '\\x0' + H * 3, hexs(3)), ('a hexadecimal escape with no digit', '\\x' + H, ['gz']),
         ('a universal character name', '\\u' + H * 4, hexs(4)), ('a long universal character name', '\\U00' + H * 6, ['01'] + ['01'] + hexs(4)), ('an incomplete universal character name', '\\u' + H * 3 + H, hexs(3) + ['gz']),
         ('two UTF-8 bytes', H * 2, u8seq(2)), ('three UTF-8 bytes', H * 3, u8seq(3)), ('four UTF-8 bytes', H * 4, u8seq(4)), ('a splice', 'a\\\nb', [])]
    if p in ('U', 'L', 'u'): e += [('a wide hexadecimal escape', '\\x' + H * 4, hexs(4))]
    if p in ('U', 'L'): e += [('a wide hexadecimal escape of eight digits', '\\x' + H * 8, hexs(8)), ('a wide octal escape', '\\' + H * 3, [OCT] * 3)]
    return e
def strings(quick, R):
    C = Cases('str', PRE)
    def add(name, p, text, sets):
        t, w = STR[p]; C.add(name, '%s v[] = %s; unsigned long n = sizeof(%s); char t = %s;' % (t, text, text, GS % text), sets * 3, 'str(e, h, %s, %d);' % (cbytes(text), w))
    def tie(name, p, text, sets): # one occurrence through a macro: the same holes everywhere
        t, w = STR[p]; C.add(name, '#define S %s\n%s v[] = S; unsigned long n = sizeof(S); char t = %s;' % (text, t, GS % 'S'), sets, 'str(e, h, %s, %d);' % (cbytes(text), w))
    for p in STR:
        for name, x, sets in elements(p): tie('%s string: %s' % (p or 'plain', name), p, '%s"%s"' % (p, x), sets)
        for name, x, sets in elements(p): tie('%s string: %s between characters' % (p or 'plain', name), p, '%s"%s%s%s"' % (p, H, x, H), [PLAIN] + sets + ['AZgz'])
        el = elements(p)
        for k in range(6 if quick else 60):
            a, b = R.choice(el), R.choice(el); tie('%s string: %s then %s' % (p or 'plain', a[0], b[0]), p, '%s"%s%s"' % (p, a[1], b[1]), a[2] + b[2])
        for k in range(6 if quick else 40):
            a, b = R.choice(el), R.choice(el); pa, pb = R.choice([(p, p), (p, ''), ('', p)])
            tie('%s string: %s joined to %s' % (p or 'plain', a[0], b[0]), p, '%s"%s" %s"%s"' % (pa, a[1], pb, b[1]), a[2] + b[2])
    return C
def splices(): # line splices that a macro definition cannot show, and literals in other places
    C = Cases('place', PRE)
    for nl in ('\n', '\r\n'):
        C.add('splice inside an escape' , 'char v[] = "a\\\\%sx%s\\%sg\\%s%s";' % (nl, H, nl, nl, H), [HEX, 'az'], 'units[0] = 0; char b[5]; b[0] = \'a\'; b[1] = hexv(h[0]); b[2] = \'g\'; b[3] = h[1]; b[4] = 0; ex_bytes(e, "v", 5, b);')
        C.add('escaped backslash before u' , 'char v[] = "\\\\u00%s%s\\\\U%s\\\\";' % (H, H, H), [HEX] * 3, 'char b[10] = {92, 117, 48, 48, h[0], h[1], 92, 85, h[2], 92}; ex_bytes(e, "v", 10, b);')
        C.add('escaped backslash and a universal character name', 'char v[] = "\\\\u\\u00%s%s";' % (H, H), ['af', HEX], 'char b[5] = {92, 117, 0xc0 | (hexv(h[0]) >> 2), 0x80 | (hexv(h[0]) & 3) << 4 | hexv(h[1]), 0}; ex_bytes(e, "v", 5, b);')
    C.add('exact fit', 'char v[3] = "%s%s%s", w[5] = "%s\\000%s", x[2][2] = { "%s%s", {"%s"} };' % ((H,) * 8), [PLAIN] * 8, 'char w[5] = {h[3], 0, h[4]}, x[4] = {h[5], h[6], h[7]}; ex_bytes(e, "v", 3, h); ex_bytes(e, "w", 5, w); ex_bytes(e, "x", 4, x);')
    C.add('subscript of a literal in an array size', 'char v[] = { %s }; unsigned long n = sizeof("%s%s") + sizeof("" "%s" ""), m = sizeof(L"%s") + sizeof(u"%s%s") + sizeof(U"") ;' % ("'%s'" % H, H, H, H, H, H, H), [PLAIN] * 7, 'ex_int(e, "v", 1, h[0]); ex_int(e, "n", 8, 5); ex_int(e, "m", 8, 8 + 6 + 4);')
    C.add('mixed prefixes', 'int v[] = L"%s" "%s" L"%s"; char w[] = "%s" u8"%s"; unsigned x[] = "%s" U"%s";' % ((H,) * 7), [PLAIN] * 7, 'int v[4] = {h[0], h[1], h[2]}; char w[3] = {h[3], h[4]}; unsigned x[3] = {h[5], h[6]}; ex_bytes(e, "v", 16, v); ex_bytes(e, "w", 3, w); ex_bytes(e, "x", 12, x);')
    C.add('pointers to literals', 'const char *const p = "%s%s", *q = "%s"; int f(void) { return p[0] == q[0]; } struct { const char *a; char b[4]; } s[] = { { "x%s", "%s%s" } }; char v = sizeof s;' % ((H,) * 6), [PLAIN] * 6, 'ex_int(e, "v", 1, 16);')
    C.add('wide literals of the Microsoft ABI', '_Static_assert(sizeof(L"%s%s") == 6, ""); int v;' % (H, H), [PLAIN] * 2, '', args='-c\n-o\nt.o\n-fabi=ms')
    return C
def chars(quick):
    C = Cases('chr', PRE)
    for p, w, ty in (('', 1, 0), ('u', 2, 2), ('U', 4, 3), ('L', 4, 0)):
        for name, x, sets in elements(p):
            t = "%s'%s'" % (p, x); C.add('%s constant: %s' % (p or 'plain', name), '#define S %s\nlong v = S; char t = %s;' % (t, GC % 'S'), sets, 'chr(e, h, %s, %d, %d);' % (cbytes(t), w, ty))
    C.add('empty constant', "int v = ''; ", [], 'e->accept = 0;')
    C.add('quotes', "int v = '\"', w = '\\\"', x = '\\''; char y[] = \"'\\'\";", [], 'ex_int(e, "v", 4, 34); ex_int(e, "w", 4, 34); ex_int(e, "x", 4, 39); ex_bytes(e, "y", 3, "\'\'");')
    return C

def check():
    c = core.Check('C04'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 41 + 4)
    c.bounds = ['every literal form (plain, u8, u, U, L; character and string) over every kind of element: ordinary characters, all simple escapes, octal escapes of 1-3 and hexadecimal escapes of 1-8 digits, universal character names, UTF-8 sequences of 2-4 bytes; all digits and bytes symbolic', 'pairs of elements within one literal and across adjacent literals (a random sample), splices inside literals, exact-fit and padded arrays']
    c.outside = ['multi-character constants and multi-byte characters in plain constants (implementation-defined)', 'bytes that are not valid UTF-8 in wide literals', 'trigraphs']
    lit.jobs(c, strings(quick, R), per=1 if __import__('os').environ.get('ONE') else 8); lit.jobs(c, splices(), per=6); lit.jobs(c, chars(quick), per=8)
    return c
