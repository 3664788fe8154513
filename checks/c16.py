"""C16: tokens, comments, splices, white space. The text under test and the same token sequence written with single
spaces (produced by a reference implementation of translation phases 2 and 3) must compile to the same object."""
import random
import core, lit
from lit import H, Cases, cbytes

PRE = r'''
static uint8_t src[2000], out[4000];
static int idc(int c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z') | (c >= '0' && c <= '9') | c == '_' | c == '$' | c >= 0x80; }
static const char *const punct[] = {"...", "<<=", ">>=", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##", "%:%:", "<:", ":>", "<%", "%>", "%:", 0};
static const char *const digraph[][2] = {{"%:%:", "##"}, {"<:", "["}, {":>", "]"}, {"<%", "{"}, {"%>", "}"}, {"%:", "#"}, {0, 0}};
static void canon(const uint8_t *h, const char *t, struct lexp *e) {
  static uint8_t raw[2000]; int n = 0, hole = 0, m = 0; for (; t[n]; n++) raw[n] = t[n] == 1 ? h[hole++] : (uint8_t)t[n];
  for (int i = 0; i < n;) { if (raw[i] == '\\' && i + 1 < n && raw[i + 1] == '\n') { i += 2; continue; } if (raw[i] == '\\' && i + 2 < n && raw[i + 1] == '\r' && raw[i + 2] == '\n') { i += 3; continue; } src[m++] = raw[i++]; } // phase 2
  src[m] = src[m + 1] = src[m + 2] = 0; int o = 0, i = 0;
  while (i < m) {
    int c = src[i];
    if (c == ' ' || c == '\t' || c == '\v' || c == '\f' || c == '\r') { i++; continue; }
    if (c == '\n') { out[o++] = '\n'; i++; continue; }
    if (c == '/' && src[i + 1] == '/') { while (i < m && src[i] != '\n') i++; continue; }
    if (c == '/' && src[i + 1] == '*') { i += 2; while (i < m && !(src[i] == '*' && src[i + 1] == '/')) i++; if (i >= m) { e->accept = 0; return; } i += 2; continue; }
    int s = i;
    if (c == '"' || c == '\'' || ((c == 'L' || c == 'u' || c == 'U') && (src[i + 1] == '"' || src[i + 1] == '\'')) || (c == 'u' && src[i + 1] == '8' && src[i + 2] == '"')) {
      while (src[i] != '"' && src[i] != '\'') i++; int q = src[i++];
      while (i < m && src[i] != q && src[i] != '\n') i += src[i] == '\\' && i + 1 < m && src[i + 1] != '\n' ? 2 : 1;
      if (i >= m || src[i] != q) { e->accept = 0; return; } i++; }
    else if ((c >= '0' && c <= '9') || (c == '.' && src[i + 1] >= '0' && src[i + 1] <= '9')) {
      while (1) { int d = src[i]; if ((d == 'e' || d == 'E' || d == 'p' || d == 'P') && (src[i + 1] == '+' || src[i + 1] == '-')) i += 2; else if (idc(d) || d == '.') i++; else if (d == '\'' && idc(src[i + 1])) i += 2; else break; } }
    else if (idc(c)) while (idc(src[i])) i++;
    else { int l = 1; for (int k = 0; punct[k]; k++) { int pl = strlen(punct[k]), eq = 1; for (int j = 0; j < pl; j++) eq = eq && src[i + j] == (uint8_t)punct[k][j]; if (eq) { l = pl; break; } } i += l; }
    int id = idc(c) && !(c >= '0' && c <= '9'); for (int k = 0; digraph[k][0]; k++) { int l = strlen(digraph[k][0]), eq = l == i - s; for (int j = 0; eq && j < l; j++) eq = src[s + j] == (uint8_t)digraph[k][0][j]; if (eq) { for (const char *p = digraph[k][1]; *p; p++) out[o++] = *p; s = i; break; } } while (s < i) out[o++] = src[s++]; if (!(id && src[i] == '(')) out[o++] = ' '; } // a parenthesis stays next to a macro name
  out[o] = 0; e->alt = (char *)out; e->altlen = o; }
'''
def ref(t): return 'canon(h, %s, e);' % cbytes(t)
OPS = '!!%%&&**++--..//::<<==>>??^^||~~'
def alpha(s): return ''.join(c + c for c in s)

def check():
    c = core.Check('C16'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 47 + 16)
    C = Cases('ops', PRE)
    def add(name, t, sets, dst=None): (dst or C).add(name, t, sets, ref(t))
    # operators: all strings of the operator characters, in expressions
    small = ['+-', '-+', '&|', '<>=', '*&', '!=', '->.', '/%*', '<=>', '^=|', '+-=', '&=*', '-~!', '?:+', '##+']
    for s in small: add('operators from %s' % s, 'int f(int a, int b, int *p, struct s { int c, b; } *q) { return (a %s b); }' % (H * 3), [alpha(s)] * 3)
    for s in ['+-=', '&|=', '<>=-', '*/=%', '!~-&']: add('statement operators from %s' % s, 'int a, b, *p; void f(void) { a %s%s%s b; }' % (H, H, H), [alpha(s)] * 3)
    for s in ['+-a', '&*p', '-!~', '<>-']: add('operators of four characters from %s' % s, 'int f(int a, int b, int *p) { return a%s b; }' % (H * 4), [alpha(s)] * 4)
    for s in ['<:>%']: add('digraphs from %s' % s, 'int a[5]; int f(int b) { return a%s%s b %s%s; }' % (H, H, H, H), [alpha('<:[%'), alpha(':[ %'), alpha(':%>]'), alpha('>] ')]); add('digraph braces', 'int v[] = %s%s 1, 2 %s%s;' % (H, H, H, H), [alpha('<:{'), alpha(':% '), alpha('%>}'), alpha('> :')])
    add('digraph directives', '%s%s%s define F(x) %s%sx\n#define G(a, b) a %s%s%s%s b\nchar *v = F(y); int G(p, q);' % ((H,) * 9), ['  ', alpha('%#'), alpha(': #'), alpha('%#'), alpha(': '), alpha('%#'), alpha(':#'), alpha('% '), alpha(': ')])
    add('member operators', 'struct s { int c; struct s *d; } q, *r; int f(void) { return (r%s%sd)%s%sc; }' % (H, H, H, H), [alpha('->. ')] * 4)
    add('all characters between operands', 'int f(int a, int b) { return a %s b; }' % H, ['\x01\xff'])
    add('all characters before an operand', 'int f(int a, int b) { return b + %s%s; }' % (H, 'a'), ['\x01\xff'])
    add('all characters inside an identifier', 'int ab, a, b, aab, a1b, a_b, azb; int f(void) { return sizeof(a%sb); }' % H, ['\x01\xff'])
    add('all characters at the start of a line', 'int a = 3;\n%s\nint b = 4;\n' % H, ['\x01\xff'])
    add('two arbitrary characters between operands', 'int f(int a, int b) { return a%s%sb; }' % (H, H), ['\x01\x7f', OPS + '  \t\t\n\r09az__'])
    N = Cases('num', PRE)
    for s in ['0.9e', '1.+e', '0xp-', 'eE+1', "1'2", '1uL.', '0b1_']: add('numbers from %s' % s, 'double v[] = { 1%s };' % (H * 3), [alpha(s)] * 3, N)
    for s in ['1.-', '.0e+', 'x0+', '1e-x']: add('numbers and operators from %s' % s, 'double x, e, v = (1%s 2);' % (H * 4), [alpha(s)] * 4, N)
    for s in ['.1', '.1x', '.e5']: add('points from %s' % s, 'struct { int x; } e; double v = 2 + %s;' % (H * 3), [alpha(s)] * 3, N)
    K = Cases('com', PRE)
    for n in (1, 2, 3, 4, 5): add('comment holding %d characters' % n, 'int v[] = { 1, /*%s*/ 2, 3 };' % (H * n), [alpha('*/x') if n > 2 else alpha('*/x\n\\"\'')] * n, K)
    add('unfinished comment', 'int v[] = { 1, 2 };\n/*%s' % (H * 3), [alpha('*/x\n')] * 3, K)
    add('comment boundaries', 'int v[] = { 9 %s%s 3 %s%s+2 };' % ((H,) * 4), [alpha('/*+ '), alpha('/* '), alpha('*/ '), alpha('/* ')], K)
    add('line comment', 'int v[] = { 1 //%s%s%s\n + 4\n };' % ((H,) * 3), [alpha('\\\n\rx/*')] * 3, K)
    add('line comment ended by a splice', 'int v[] = { 1 // c %s%s\n + 4\n };' % ((H,) * 2), [alpha('\\ \r/?')] * 2, K)
    add('comment inside a directive', '#define A 1 /* %s%s */ + 2\n#define B(x) x // %s%s\nint v[] = { A, B(3), 5 };' % ((H,) * 4), [alpha('*/\n\\'), alpha('*/ x'), alpha('*/\\\n'), alpha(' x\n')], K)
    add('comment markers in literals', 'char v[] = "/%s%s/" "//%s"; int w = \'%s\';' % ((H,) * 4), [alpha('*/"x')] * 2 + [alpha('*/x')] * 2, K)
    add('quotes in comments', 'int v = 1; /* %s%s */ int w = 2; // %s%s\nint x = 3;' % ((H,) * 4), [alpha('"\'\\')] * 4, K)
    add('comments separate tokens', 'int%sa%s=%s1%s;' % ('/*%s*/' % H, '/*/%s*/' % H, '/**%s/' % H, '//%s\n' % H), [alpha('*/ x\n')] * 4, K)
    S = Cases('splice', PRE)
    words = ['int v = 12 + 34;', 'int v = 1 <<= 2;', 'char v[] = "ab" "c";', "int v = 'x' + 0x1fu;", 'int f(void) { return sizeof(int); } // c\nint w;', 'int a; /* c */ int b; int v = 1;', '#define AB 17\nint v = AB;', '#if 1\nint v = 1;\n#else\nint v = 2;\n#endif\n', 'double v = 1.5e+3; int w = 1;', 'int f(int *a) { return a[1] -> 2; }', 'int f(int a) { a >>= 1; a ++; return a != 2 && a; }', 'unsigned v[] = L"ab", *w = u8"a";', 'int v = u8 + L;', 'struct { int x; } s; int f(void) { return s.x; }', 'int f(int a, ...);']
    for w in words: # a splice-like pair at every position, chosen symbolically
        for nl in ('\\\n', '\\\r\n') if not quick else (R.choice(['\\\n', '\\\r\n']),):
            for p in (range(len(w) + 1) if not quick else R.sample(range(len(w) + 1), min(6, len(w)))):
                add('splice at %d of %s' % (p, w.split('\n')[0]), w[:p] + H + nl[1:] + w[p:], [alpha('\\ ')], S)
    add('several splices', 'int v = 1%s\n%s\n%s\n2;' % (H, H, H), [alpha('\\ +')] * 3, S)
    add('splices in operators', 'int f(int a, int b) { return a +%s\n%s%s\n b; }' % (H, H, H), [alpha('\\+ '), alpha('+-\\'), alpha('\\+ ')], S)
    add('carriage returns', 'int v = 1;%s%s#define A 2%s%sint w = A;%s\n' % ((H,) * 5), [alpha('\r \n'), '\n\n', alpha('\r '), '\n\n', alpha('\r ')], S)
    W = Cases('white', PRE)
    add('white space', 'int%sf(int%sa)%s{%sreturn%sa;}' % ((H,) * 5), [alpha(' \t\v\f\r\n')] * 5, W)
    add('white space in directives', '#%sdefine%sA%s3%s\n%s#%sundef B\nint v = A;' % ((H,) * 6), [alpha(' \t')] * 6, W)
    add('white space before a macro parenthesis', '#define A%s(x) x\nint x = 5; int f(int, int); int w = A%s(3) + 1;' % (H, H), [alpha('\t '), alpha(' \t\n')], W)
    add('prefixes', "char v[] = %s%s\"x\"; int w = %s'y';" % (H, H, H), [alpha('u8LU a'), alpha('u8LU '), alpha('uLU a')], W)
    add('escapes in literals', 'char v[] = "%s%s%s"; int w = 4;' % ((H,) * 3), [alpha('\\"na')] * 3, W)
    add('escapes in constants', "int v = '%s%s%s'; int w = 4;" % ((H,) * 3), [alpha("\\'na")] * 3, W)
    add('identifiers', 'int %s%s%s, v;' % ((H,) * 3), ['!aa__', '!' + alpha('aZ_9$') + '\xc3\xc3', '!' + alpha('z0_') + '\xa9\xa9'], W)
    add('keywords', 'i%st v%s w%s x;' % ((H,) * 3), [alpha('nmN'), alpha(',;='), alpha(',;=')], W)
    c.bounds = ['every string of up to 4 operator characters (from groups of 2-4 characters, 3 for most) between operands; one arbitrary byte in operand, identifier and line-start positions; pp-numbers and operators of up to 4 characters', 'comments holding up to 5 characters of * / x, quotes, newline and backslash; line comments; comment markers in literals', 'a splice (with either newline convention) at positions of %d declarations; carriage returns, all white-space characters, literal prefixes and escapes' % len(words)]
    c.outside = ['trigraphs', 'universal character names in identifiers', 'header names', 'NUL bytes']
    for x, per in ((C, 2), (N, 2), (K, 2), (S, 12), (W, 2)): lit.jobs(c, x, per=per)
    return c
