"""C13: macro definition and expansion."""
import random
import core, lit
from lit import H, Cases, cbytes

PRE = '#include "%s/harness/mp.h"\n' % core.VERIF
ARGS = '-E\n-o\nt.o'
def addc(C, name, src, sets):
    assert src.count(H) == len(sets), (name, src, sets)
    C.add(name, src, sets, 'static const char T[] = %s; mp_run(e, T, sizeof T - 1, h);' % cbytes(src), ARGS)

def fixed():
    C = Cases('mac', PRE); a = lambda n, s, *sets: addc(C, n, s, list(sets))
    # the examples of the standard, with symbolic choices in them
    a('standard example: rescanning', '#define x 3\n#define f(a) f(x * (a))\n#undef x\n#define x 2\n#define g f\n#define z z[0]\n#define h g(~\n#define m(a) a(w)\n#define w 0,1\n#define t(a) a\n#define p() int\n#define q(x) x\n#define r(x,y) x ## y\n#define s(x) # x\nf(y+1) + f(f(z)) % t(t(g)(0) + t)(1);\ng(x+(3,4)-w) | h 5) & m\n(f)^m(m);\np() i[q()] = { q(1), r(2,3), r(4,), r(,5), r(,) };\nchar c[2][6] = { s(hello), s() };\n'.replace('y+1', H + '+1').replace('r(4,)', 'r(%s,)' % H), 'xz', 'xz')
    a('standard example: strings', '#define s(x) # x\n#define xstr(s) str(s)\n#define str(s) # s\n#define INCFILE(n) vers ## n\n#define glue(a, b) a ## b\n#define xglue(a, b) glue(a, b)\n#define HIGHLOW "hello"\n#define LOW LOW ", world"\nint a = sizeof s(strncmp("abc\\0d", "abc", \'\\4\') == %s);\nxstr(INCFILE(%s).h);\nglue(HIGH, %sOW);\nxglue(HIGH, %sOW) ;\n' % (H, H, H, H), '09', '09', 'LM', 'LM')
    a('standard example: placemarkers', '#define t(x,y,z) x ## y ## z\nint j[] = { t(%s,%s,3), t(,4,%s), t(6,,7), t(8,9,), t(10,,), t(,11,), t(,,12), t(,,) };\n' % (H, H, H), '19', 'ab', 'xy')
    a('standard example: variadic', '#define debug(...) fprintf(stderr, __VA_ARGS__)\n#define showlist(...) puts(#__VA_ARGS__)\n#define report(test, ...) ((test)?puts(#test): printf(__VA_ARGS__))\ndebug("Flag");\ndebug("X = %%d\\n", %s);\nshowlist(The first%s second, and (third%sthen) items.);\nreport(x>y, "x is %%d but y is %%d", x%s y);\n' % (H, H, H, H), 'az', '+-', '+.', '+/')
    a('hash of hash', '#define hash_hash # ## #\n#define mkstr(a) # a\n#define in_between(a) mkstr(a)\n#define join(c, d) in_between(c hash_hash d)\nchar p[] = join(%s, y);\n' % H, 'xz')
    a('object-like stringizing operator is an ordinary token', '#define A # x\n#define B a # A\n%s; B;\n' % H, 'AC')
    a('object-like paste', '#define A x ## %s\n#define xy 7\n#define B A+A\nA B; %s\n' % (H, H), 'xz', 'AC')
    a('space decides between the kinds of macro', '#define A%s(x) x + x\nA(3); A (4); A;\n' % H, '  AB')
    a('name without arguments', '#define F(x) [x]\n#define G F\nF; F + G; (F)(1); G(%s); G\n (2); F\n\n\n(3); F %s 4); F;\n' % (H, H), 'FG', '((++')
    a('self reference', '#define A B + %s\n#define B C * %s\n#define C A - %s\nA; B; C;\n' % (H, H, H), 'AD', 'AD', 'AD')
    a('mutual recursion of function-like macros', '#define F(x) x + G(x%s\n#define G(x) F(x) * %s(x)\nF(1)) G(2) F(G)(3)); %s(F(4)));\n' % (H, H, H), '))++', 'FH', 'FH')
    a('arguments are expanded once on their own', '#define F(x) x x\n#define G(x) F(x) #x\n#define A 1 %s B\n#define B A\n#define E\nG(A%s) ; F(E) ; F(E A E) ; G(%s) ;\n' % (H, H, H), ',,++', 'AB', 'ABEE')
    a('parameters hide macros', '#define x 5\n#define F(x) x %s #x\n#define G(a) F(a) x\nF(1); G(x); F(x); F(%s)\n;' % (H, H), 'xz', 'xz')
    a('parentheses and commas in arguments', '#define F(a, b) [a|b]\n#define C ,\n#define P (\n#define LR (1, 2)\nF(%s1, 2%s, 3); F((1, 2), (3)); F(1 C 2, 3); F LR; F(x, P 3); F((,),(()));\n' % (H, H), '((  ', '))  ')
    a('number of arguments', '#define Z() z\n#define O(a) <a>\n#define T(a, b) <a,b>\n%s(%s%s%s);\n' % (H, H, H, H), 'OOTTZZ', '1122  ', ',,  ', '34  ')
    a('empty arguments', '#define F(a, b, c) <a!b!c> a##b##c #a#b\n#define O(a) <a> x##a a##y #a\n#define Q(a, b) q a ## b r\nF(,,); F(%s,,); F(,%s,) ; F(,,%s); O(); O(%s) ; Q(,); Q(%s,) Q(,%s);\n' % ((H,) * 6), '11', '11aa', '11  ', 'aa', '11', 'aa')
    a('empty arguments, joined texts', '#define F(a, b, c) <a!b!c> a##b##c #a; #b\n#define O(a) <a> x##a a##y #a\n#define Q(a, b) q a ## b r\nF(,,); F(%s,,); F(,%s,) ; F(,,%s); O(); O(%s) ; Q(,); Q(%s,) Q(,%s);\n' % ((H,) * 6), '11', '11aa', '11  ', 'aa', '11', 'aa')
    a('pastes', '#define P(a, b) a ## b\n#define ab 1\n#define a7 2\nP(a,%s) P(%s,b) P(1,%s) P(1.,%s) P(.,%s) P(1e,%s) P(<,%s) P(<<,=) P(-,%s) P(&,%s) P(a,b)7 P(1,2.3e) P(0x,1F) P(L, x) ;\n' % ((H,) * 9), 'b8', 'aa__', '6f..', '33ee', '5699', '++--77', '<=', '=>', '==&&')
    for x, w in [('L', 4), ('u', 2), ('U', 4), ('u8', 1)]: C.add('paste of a prefix and a string: ' + x, '#define P(a, b) a ## b\n#define W(x) P(%s, x)\n#define V(x) %s ## x\n' % (x, x) + 'int a = sizeof W("%s"), b = sizeof V("%s%s"), c = sizeof P(%s, "%s");\n' % (H, H, H, x, H), ['az', '09', 'ff', 'AZ'], 'ex_int(e, "a", 4, %d); ex_int(e, "b", 4, %d); ex_int(e, "c", 4, %d);' % (2 * w, 3 * w, 2 * w))
    for x in 'LuU': C.add('paste of a prefix and a character: ' + x, '#define V(x) %s ## x\n' % x + "int a = V('%s'), b = sizeof V('%s');\n" % (H, H), ['az', 'AZ'], 'ex_int(e, "a", 4, h[0]); ex_int(e, "b", 4, %d);' % (2 if x == 'u' else 4))
    a('invalid pastes need not be accepted, valid neighbours must be', '#define P(a, b) a ## b\nP(%s,%s);\n' % (H, H), '((++--//..', '++==..11>>')
    a('paste makes a macro name', '#define AB %s ## B\n#define B b\n#define A a\n#define P(x, y) x ## y\nAB; P(A, B); P(A,) P(,B); P(P, (A,%s)) P(P,);\n' % (H, H), 'AC', 'BC')
    a('stringized forms', '#define S(x) #x\nS( a   %s  b ); S("%s\\n" \'\\\\\' \'"\'); S(a+%sb); S(\n1\n2 ) ; S(%s(,) x); S( "\\"" ); S(\'\\\'\');\n' % ((H,) * 4), '  ab', 'az', '  ++', 'xx  ')
    a('stringized operators', '#define S(x) #x\nS(a<<=%s>>=b->c...d##e#f&&g||h++ --i); S(/ * ! ~ ^ %% ? : [ ] { } ; .); S(== != <= >= += -= *= /= %%= &= |= ^=);\n' % H, 'xy')
    a('stringize after expansion', '#define S_(...) #__VA_ARGS__\n#define S(...) S_(__VA_ARGS__)\n#define A %s b\n#define E\n#define F(x) <x>\nS(A) ; S( A , A ) ; S(F(%s)) ; S_(A E) ; S(E) ;\n' % (H, H), 'az', 'AE')
    a('variadic arguments', '#define V(...) [__VA_ARGS__]\n#define W(a, ...) a{__VA_ARGS__}a\n#define X(a, b, ...) #__VA_ARGS__\nV(); V(1); V(1,%s); V((,),2); W(1,2,3); W(,); W(%s,4%s5); X(1,2,3%s 4 ,5); X(1,2,) ; W((1,2),(3)); V(V(1,2),V(%s));\n' % ((H,) * 5), '29', 'az', ',,++', ',,++', ',,++')
    a('variadic arguments counted', '#define N_(a, b, c, d, n, ...) n\n#define N(...) N_(__VA_ARGS__, 4, 3, 2, 1, 0)\nN(a%sb) N(a%sb%sc) N(1) ;\n' % ((H,) * 3), ',,++', ',,++', ',,++')
    a('deferred expansion', '#define EMPTY()\n#define DEFER(id) id EMPTY()\n#define EXPAND(...) __VA_ARGS__\n#define A() 12%s\nDEFER(A)(); EXPAND(DEFER(A)()); EXPAND(EXPAND(DEFER(%s))());\n' % (H, H), '09', 'AC')
    a('conditional macros', '#define CAT(a, ...) a ## __VA_ARGS__\n#define IIF(c) CAT(IIF_, c)\n#define IIF_0(t, ...) __VA_ARGS__\n#define IIF_1(t, ...) t\n#define COMPL(b) CAT(COMPL_, b)\n#define COMPL_0 1\n#define COMPL_1 0\nIIF(%s)(a, b, c); IIF(COMPL(%s))(x, y); COMPL(%s);\n' % ((H,) * 3), '01', '01', '02')
    a('repetition', '#define R0(m, x)\n#define R1(m, x) m(x) R0(m, x)\n#define R2(m, x) m(x) R1(m, x)\n#define R3(m, x) m(x) R2(m, x)\n#define M(x) x,\n#define R(n, m, x) R##n(m, x)\nint a[] = { R(%s, M, %s) }; R(%s, M, M(1));\n' % ((H,) * 3), '04', 'RM', '23')
    a('undef', '#define A 1\n#define F(x) A x A\nA F(A);\n#undef %s\nA F(2);\n#define A %s\nF(3) A;\n#undef A\n#define A(x) x x\nF((4)) A(5);\n#undef A\n#undef A\nF(A) A(6);\n' % (H, H), 'AC', '29')
    a('redefinition', '#define A %s + 1\n#define A 1 + 1\n#define F(x) x%s+ x\n#define F(x) x + x\n#define G(%s) x\n#define G(x) x\nA F(2) G(3);\n' % (H, H, H), '12', '  ++', 'xy')
    a('a later definition does not affect earlier text', 'A; %s;\n#define A B\n#define B A C\nA; B;\n#define C A\nA;B;C;\n' % H, 'AC')
    a('ill-formed definitions', '#define %s%s%s x\nx;\n' % (H, H, H), 'AB11((', '((  AB', '))11,,')
    for t in ['F(x x', 'F(x, x) x', 'F(x,) x', 'F(,x) x', 'F(x y) x', 'F(1) x', 'F(..., x) x', 'F(x...) x', 'F(x) #y', 'F(x) #', 'F(x) x ##', 'F(x) ## x', 'A ## x', 'A x ##', 'F() __VA_ARGS__', 'A __VA_ARGS__', 'F(__VA_ARGS__) x', '__VA_ARGS__ x', 'defined x', 'F( x', 'F(', 'F(x', 'F(x,', '(x)', '1 x', '"a"']:
        if t != 'F(x...) x': a('ill-formed definition: ' + t, '#define %s\nx %s;\n' % (t, H), 'ab')
    a('unfinished invocation', '#define F(x, y) x y\nF(1, %s2%s' % (H, H), '((  ', '))  ')
    a('unfinished invocation in an argument', '#define F(x) x\n#define G F(1\nF(G); %s);' % H, 'ab')
    a('predefined', '__STDC__ __STDC_HOSTED__ %s __LINE__;\n#define A __LINE__\n\nA A; __LINE__\n;' % H, 'ab')
    C.l.pop()
    return C

def rand(R, n):
    C = Cases('rnd', PRE)
    for k in range(n):
        sets = []
        def hole(s): sets.append(s); return H
        funcs = {}
        for nm in 'ABC':
            x = R.random(); funcs[nm] = None if x < .4 else R.choice([['x'], ['x', 'y'], ['x', 'y'], [], ['...'], ['x', '...']])
        def body(ps):
            ids = [p if p != '...' else '__VA_ARGS__' for p in ps or []]; t = []; m = R.choice([1, 2, 3, 4, 5]); strd = 0; fn = ps is not None
            while len(t) < m:
                x = R.random()
                if ids and x < .3: t.append(R.choice(ids))
                elif x < .42: t.append(hole('AC' if R.random() < .5 else 'AD'))
                elif x < .55: t.append(R.choice('ABC'))
                elif x < .66: nm = R.choice('ABC'); q = funcs[nm]; t.append('%s(%s)' % (nm, ', '.join(R.choice(ids + ['1', 'A', 'B', 'C', '', '(2)']) for _ in range(len(q) if q else 1))))
                elif x < .72: t.append('(')
                elif x < .76: t.append(')')
                elif x < .8: t.append(',')
                elif x < .84 and ids and not strd: t.append('#' + R.choice(ids)); strd = 1; t.append('+')
                elif x < .9 and t and t[-1] not in '(),+' and '#' not in t[-1] and '(' not in t[-1]: t.append('##'); t.append(R.choice(ids + ['A', 'B', 'C', 'z']))
                else: t.append(R.choice(['1', 'z', '+', '-', 'q', 'x', 'y']))
            return R.choice([' ', ' ', '']).join(' ' + w if w[0].isalnum() else w for w in t)
        t = ''
        for nm in 'ABC':
            ps = funcs[nm]; t += '#define %s%s %s\n' % (nm, '' if ps is None else '(%s)' % ', '.join(ps), body(ps).strip())
        def text(d):
            w = []
            for _ in range(R.choice([1, 2, 3])):
                x = R.random(); nm = R.choice('ABC'); q = funcs[nm]
                if x < .25: w.append(nm)
                elif x < .35 and len(sets) < 5: w.append(hole('AC'))
                elif x < .8 and d: w.append('%s%s(%s)' % (nm, R.choice(['', ' ']), ', '.join(text(d - 1) for _ in range(len(q) if q else R.choice([0, 1])))))
                elif x < .87 and len(sets) < 5: w.append(hole(R.choice([',,++', '((--', '))zz', 'AABB', 'CCzz'])))
                else: w.append(R.choice(['1', 'z', '-', '(A)', '(B, 1)']))
            return ' '.join(w)
        for _ in range(3): t += text(2) + ' ;\n'
        if len(sets) == 0: t += hole('AC') + ' ;\n'
        while len(sets) > 5: # too many choices: fix the first ones
            k0 = t.index(H); s = sets.pop(0); t = t[:k0] + s[0] + t[k0 + 1:]
        addc(C, 'random macros %d' % k, t, sets)
    return C

def glued():
    """pasted tokens are the tokens that their spelling says: the object equals that of the same text spelled out"""
    C = Cases('glue', '''static char *cat3(const char *a, const uint8_t *h, int n, const char *b) { int la = strlen(a), lb = strlen(b); char *r = malloc(la + lb + n + 1); memcpy(r, a, la); for (int k = 0; k < n; k++) r[la + k] = h[k]; memcpy(r + la + n, b, lb + 1); return r; }
static int among(const char *l, const uint8_t *h, int n) { int ok = 0; for (; *l; l++) { int eq = 1; for (int k = 0; k < n; k++) eq &= h[k] == (uint8_t)l[k]; ok |= eq & (l[n] == ' '); while (*l != ' ') l++; } return ok; }
''')
    D = '#define C(a, b) a ## b\n#define D(a, b, c) a ## b ## c\n#define O %s\n'
    def a(name, pre, use, post, ops, sets):
        n = len(sets); t = ops + ' '
        head = '#define C(a, b) a ## b\n#define D(a, b, c) a ## b ## c\n#define P(x) x\n#define Q(x, y) P(C(x, y))\n' + pre
        C.add(name, head + use + post, sets, 'if (!among(%s, h, %d)) { e->accept = 3; return; } e->alt = cat3(%s, h, %d, %s); e->altlen = strlen(e->alt);' % (cbytes(t), n, cbytes(head), n, cbytes(post)))
    each = lambda s: '!' + ''.join(c + c for c in s)
    two = '<< >> <= >= == != && || += -= *= /= %= &= |= ^='; A = each('<>=!&|+-*/%^'); B = each('<>=&|')
    f = 'int f(int x) { return x '
    a('binary and assignment operators', f, 'C(%s, %s)' % (H, H), ' 3; }\n', two, [A, B]); a('operators through another macro', f, 'Q(%s,%s)' % (H, H), ' 3; }\n', two, [A, B])
    a('shift assignment, 2 and 1', f, 'C(%s%s, %s)' % (H, H, H), ' 3; }\n', '<<= >>=', [each('<>'), each('<>'), each('=')]); a('shift assignment, 1 and 2', f, 'C(%s, %s%s)' % (H, H, H), ' 3; }\n', '<<= >>=', [each('<>'), each('<>'), each('=')])
    a('shift assignment, 1, 1 and 1', f, 'D(%s, %s, %s)' % (H, H, H), ' 3; }\n', '<<= >>=', [each('<>'), each('<>'), each('=')])
    a('increment', f, 'C(%s, %s)' % (H, H), '; }\n', '++ --', [each('+-'), each('+-')]); a('prefix increment', 'int f(int x) { return ', 'C(%s, %s)' % (H, H), ' x; }\n', '++ --', [each('+-'), each('+-')])
    a('arrow', 'struct s { int a, b; }; int f(struct s *p) { return p ', 'C(%s, %s)' % (H, H), ' b; }\n', '->', [each('-'), each('>-')])
    a('digraphs', 'int v ', 'C(%s, %s)' % (H, H), ' 3] = {1, 2, 3};\n', '<:', [each('<%'), each(':')]); a('digraphs, closing', 'int v [3 ', 'C(%s, %s)' % (H, H), ' = {1, 2, 3};\n', ':>', [each(':'), each('>')]); a('digraphs, braces', 'int f(void) ', 'C(%s, %s)' % (H, H), ' return 5; }\n', '<%', [each('<'), each('%:')]); a('digraphs, closing braces', 'int f(void) { return 5; ', 'C(%s, %s)' % (H, H), '\n', '%>', [each('%'), each('>:')])
    a('numbers', 'double v = ', 'C(%s, %s%s)' % (H, H, H), ';\n', '1e2 1.5 .25 0x3 123 12f 1e5', [each('10.2'), each('e.2x135'), each('25f3LeE')]) ; a('numbers, from the right', 'double v = ', 'C(%s%s, %s)' % (H, H, H), ';\n', '1e2 1.5 .25 0x3 123 1.f 2.5 0xf 07u 7ul', [each('10.27'), each('e.2xu'), each('25f3ul')])
    a('suffixes', 'long v = sizeof(', 'D(%s, %s, %s)' % (H, H, H), ');\n', '1ul 2lu 1ll 2LL 3UL 3uL 12l 123 0x1', [each('1230'), each('ulLU2x'), each('ulL31')])
    a('keywords', '', 'C(i%s, %s)' % (H, H), ' v = 5;\n', 'nt', [each('ns'), each('ts')]) if 0 else None
    a('identifiers', 'int f(int a1, int ab, int a_) { return ', 'C(%s, %s)' % (H, H), '; }\n', 'a1 ab a_', ['ac', '__09az']); a('three parts of an identifier', 'int f(int a1b, int abb, int a_2) { return ', 'D(%s, %s, %s)' % (H, H, H), '; }\n', 'a1b abb a_2', ['ab', '__0z' if 0 else '__09az', '09ab'])
    a('a keyword', '', 'C(%s%s, %s)' % (H, H, H), ' v = 7;\n', 'int', ['ij', 'mn', 'st'])
    for pfx in ('L', 'u', 'U', 'u8'):
        C.add('prefix %s of a string' % pfx, '#define C(a, b) a ## b\n#define D(a) C(%s, a)\nchar v[] = { sizeof C(%s, "a%s"), sizeof D("%sb"), sizeof *C(%s, "x") };\n' % (pfx, pfx, H, H, pfx), ['az', '09'], '{ char t[200]; const char *p = "char v[] = { sizeof %s\\"a?\\", sizeof %s\\"?b\\", sizeof *%s\\"x\\" };\\n"; int k = 0, q = 0; for (; p[k]; k++) t[k] = p[k] == 63 ? h[q++] : p[k]; t[k] = 0; e->alt = malloc(k + 1); memcpy(e->alt, t, k + 1); e->altlen = k; }' % (pfx, pfx, pfx))
        if pfx != 'u8': C.add('prefix %s of a character' % pfx, "#define C(a, b) a ## b\nlong v = C(%s, '%s'), w = sizeof C(%s, 'a');\n" % (pfx, H, pfx), ['az'], 'ex_int(e, "v", 8, h[0]); ex_int(e, "w", 8, %d);' % (2 if pfx == 'u' else 4))
    return C

def check():
    c = core.Check('C13'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 31 + 13)
    c.bounds = ['fixed texts (the examples of the standard and one per rule) and random sets of three mutually referring macros, each with up to 9 symbolic characters that choose macro names, parameters, punctuators; the whole -E output is compared token by token with a reference expansion by hide sets']
    c.outside = ['texts whose expansion the standard leaves unspecified or undefined (detected by running the reference in both ways)', 'omitted variable arguments and the GNU comma paste', 'directives inside arguments', '__DATE__, __TIME__']
    lit.jobs(c, fixed(), per=2); lit.jobs(c, rand(R, 160 if quick else 600), per=4)
    lit.jobs(c, glued(), per=4)
    return c
