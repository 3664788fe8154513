"""C22: programs that violate a syntax rule or an enforced constraint are rejected."""
import json, random
import core, lit
from lit import H, Cases, cbytes
sys_path = core.VERIF + '/tools'
import sys
sys.path.insert(0, sys_path)
import c22_tables as TB

def mutations(C, data, R, n):
    """one token of a valid program replaced by, or preceded by, a symbolic character"""
    ch = data['ch']; sets = ''.join(c + c for c in ch); l = data['muts']
    if n < len(l): l = sorted(R.sample(l, n))
    for name, b, e, v in l:
        s = data['bases'][name]; t = [2] * 256
        for c, x in zip(ch, v): t[ord(c)] = int(x)
        C.add('%s: %s at %d' % (name, 'insertion' if b == e else 'replacement of ' + s[b:e], b), s[:b] + H + ' ' + s[e:] + '\n', [sets], 'static const unsigned char T[256] = {%s}; e->accept = T[h[0]];' % ','.join(map(str, t)))
def violations(C, data, R, per):
    """violations in contexts chosen by a symbolic digit"""
    for (kind, text, v), (k2, pre, texts, ctxs) in [(x, next(y for y in TB.VIOL if y[0] == x[0])) for x in data['viol']]:
        w = list(range(len(ctxs)))
        if per < len(w): w = sorted(R.sample(w, per))
        if kind == 'file scope' and '#' in text: # conditional groups may not be closed
            for k in w: C.add('%s: %s' % (kind, text), pre + ctxs[k].replace('@', text).replace('#define MM', '#define M' + H) + '\n' if '#define MM' in ctxs[k] else pre + ctxs[k].replace('@', text) + '\nint e' + H + ';\n', ['MM' if 'MM' in ctxs[k] else 'azAZ'], 'e->accept = %s;' % v[k])
            continue
        src = pre + '#define C %s\n' % H
        for j, k in enumerate(w): src += '#%s C == %d\n%s\n' % ('elif' if j else 'if', j, ctxs[k].replace('@', text))
        C.add('%s: %s' % (kind, text), src + '#endif\n', ['0' + chr(47 + len(w))], 'static const char T[] = "%s"; e->accept = T[h[0] - 48] - 48;' % ''.join(v[k] for k in w))
def symbolic():
    C = Cases('symbolic'); a = lambda n, s, sets, acc: C.add(n, s, sets, 'int a = h[0] - 48, b = h[1] - 48, c = h[2] - 48; (void)a; (void)b; (void)c; e->accept = %s;' % acc)
    d = '09'
    for ex, ac in [('%s - 3', 'a != 3'), ('%s == %s', 'a == b'), ('%s < %s', 'a < b'), ('%s && !%s', 'a && !b'), ('%s ? %s : %s', 'a ? b : c'), ('(%s ^ %s) & %s', '(a ^ b) & c'), ('%s %% 4 == %s / 2', 'a % 4 == b / 2'), ('-%s + %s', 'a != b'), ('sizeof(char[%s + 1]) > %s', 'a + 1 > b'), ('(char)(%s + 250) < 0', 'a + 250 < 256')]:
        n = ex.count('%s'); s = ex % ((H,) * n); ac = '(%s) != 0' % ac
        a('static assertion ' + ex, 'int x; _Static_assert(%s, "m"); int f(void) { return x; }\n' % s, [d] * n, ac); a('static assertion in a block ' + ex, 'int f(int x) { if (x) { x++; _Static_assert(%s, "m"); } return x; }\n' % s, [d] * n, ac); a('static assertion in a struct ' + ex, 'struct S { int x; _Static_assert(%s, "m"); int y; } s; int g;\n' % s, [d] * n, ac)
        if 'sizeof' not in ex and 'char' not in ex:
            a('#error under ' + ex, 'int x;\n#if %s\nint y;\n#else\n#error no\n#endif\n' % s, [d] * n, ac); a('#error in #elif of ' + ex, 'int x;\n#if 0\n#elif !(%s)\n#  error no\n#endif\nint y;\n' % s, [d] * n, ac)
            a('division by zero of ' + ex, '#if 1 / ((%s) != 0)\n#endif\nint x;\n' % s, [d] * n, '(%s) ? 1 : 0' % ac)
    # names chosen symbolically
    L = 'az'; V = "abcxyz"; INN = lambda k, names: '(' + ' || '.join("h[%d] == '%s'" % (k, c) for c in names) + ')'
    pre = 'int x, z; static const int c = 1; const int *p; int *const q = 0; enum { e = 3 }; int f(int); typedef int t; int a[3]; struct s { int m; const int k; int b : 3; int n[2]; } s, *r; const struct s w; struct o { int m, l; } o, *u; const struct o v;\n'
    a('undeclared identifier', pre + 'int main(int i, char **g) { int j = 2; { int y = 1; (void)y; } return (int)(long)&%s; }\n' % H, [L], INN(0, 'xzcpqfasrwouvigj'))
    a('identifier in an expression', pre + 'int main(int i) { int j = 2; { int y = 1; (void)y; } { extern int d; (void)d; } j = 3 + %s; return j; }\n' % H, [L], '%s ? 2 : %s' % (INN(0, 'pqafru'), INN(0, 'xzceij')))
    a('assignment', pre + 'int main(int i) { register int j = 2; %s = 4; return j; }\n' % H, [L], '%s ? 2 : %s' % (INN(0, 'pru'), INN(0, 'xzij')))
    for op in ['+= 2', '<<= 1', '|= 1', '++', '--']: a('compound assignment ' + op, pre + 'int main(int i) { register int j = 2; %s %s; return j; }\n' % (H, op), [L], '%s ? 2 : %s' % (INN(0, 'pru') if op[0] in '+-' else '0', INN(0, 'xzij')))
    a('prefix increment', pre + 'int main(int i) { register int j = 2; ++%s; return --%s; }\n' % (H, H), [L, L], '%s ? 2 : (%s && %s)' % ('%s || %s' % (INN(0, 'pru'), INN(1, 'pru')), INN(0, 'xzij'), INN(1, 'xzij')))
    a('assignment to a member', pre + 'int main(void) { s.%s = 1; return 0; }\n' % H, [L], INN(0, 'mb')); a('assignment through a pointer to a struct', pre + 'int main(void) { r->%s = 1; return 0; }\n' % H, [L], INN(0, 'mb')); a('assignment to a member of a const struct', pre + 'int main(void) { w.%s = 1; return 0; }\n' % H, [L], '0'); a('use of a member', pre + 'int main(void) { return w.%s + r->%s + s.n[1]; }\n' % (H, H), [L, L], '%s ? 2 : %s && %s' % ("h[0] == 'n' || h[1] == 'n'", INN(0, 'mkb'), INN(1, 'mkb')))
    a('assignment to a member of some object', pre + 'int main(void) { %s.m = 1; return 0; }\n' % H, [L], INN(0, 'so')); a('assignment of a struct', pre + 'int main(void) { struct o y; y.m = 1; %s = y; return 0; }\n' % H, [L], INN(0, 'oy')); a('assignment of some struct', pre + 'int main(void) { struct o y; y = %s; return 0; }\n' % H, [L], INN(0, 'ovy')); a('member of a pointer', pre + 'int main(void) { return %s->m; }\n' % H, [L], INN(0, 'ru'))
    a('dereference', pre + 'int main(void) { return *%s != 0; }\n' % H, [L], INN(0, 'pqaf') + " ? 1 : 0"); a('write through a pointer', pre + 'int main(void) { *%s = 2; return 0; }\n' % H, [L], INN(0, 'qa')); a('subscript', pre + 'int main(int i, int *k, const int *l) { %s[1] = 2; return 0; }\n' % H, [L], INN(0, 'qak')); a('call', pre + 'int g(void); int main(int i, int (*h)(int), int b(int)) { return %s(1); }\n' % H, [L], INN(0, 'fhb')); a('type name', pre + 'int main(void) { %s * y; return 0; }\n' % H, [L], "h[0] == 't'" + ' ? 1 : 0')
    a('address of some object', pre + 'int main(int i, register int y) { register int j; register struct o k; return &%s != 0; }\n' % H, [L], INN(0, 'xzcpqfasrwouvi')); a('address of a bit-field', pre + 'int main(void) { return &s.%s != 0; }\n' % H, [L], INN(0, 'mkn')); a('sizeof a bit-field', pre + 'int main(void) { return sizeof s.%s != 0; }\n' % H, [L], INN(0, 'mkn'))
    a('label', 'int main(void) { int y = 0; a: y++; if (y < 3) goto %s; { b: y = 9; } c: return y; }\n' % H, [L], INN(0, 'abc')); a('labels of another function', 'void f(void) { a: goto a; } int main(void) { b: goto %s; }\nvoid g(void) { c: goto c; }\n' % H, [L], INN(0, 'b')); a('duplicate label', 'int main(void) { a: ; b: ; { %s: ; } goto a; }\n' % H, [L], "!" + INN(0, 'ab'))
    # duplicates
    for n, s, nh in [('enumerators', 'enum { %s, %s, %s };', 3), ('members', 'struct S { int %s; char %s; long %s; } x;', 3), ('members in an unnamed struct', 'struct S { int %s; struct { char %s; }; union { long %s; float Z; }; } x;', 3), ('parameters', 'int F(int %s, int %s, char *%s) { return 0; }', 3), ('locals', 'int F(void) { int %s = 1; long %s = 2; static char %s; return 0; }', 3), ('enumerator and object', 'int F(void) { enum { %s, Y }; int %s = 2; typedef int %s; return 0; }', 3), ('initialized objects', 'int %s = 1; int %s = 2; int %s = 3;', 3), ('functions', 'int %s(void) { return 1; } int %s(void) { return 2; } int %s(void) { return 3; }', 3), ('tags', 'struct %s { int a; }; union %s { int a; }; enum %s { Q };', 3), ('labels', 'int F(void) { %s: ; { %s: ; { %s: return 0; } } }', 3)]:
        a('duplicate ' + n, s % ((H,) * nh) + '\n', ['acAC'] * nh, 'h[0] != h[1] && h[1] != h[2] && h[0] != h[2]')
    a('objects of different types', 'int %s; long %s; int %s;\n' % (H, H, H), ['ad'] * 3, 'h[0] != h[1] && h[1] != h[2]'); a('object and function', 'int %s; int %s(void); int %s;\n' % (H, H, H), ['ad'] * 3, 'h[0] != h[1] && h[1] != h[2]'); a('object and typedef', 'int %s; typedef int %s; extern int %s;\n' % (H, H, H), ['ad'] * 3, 'h[0] != h[1] && h[1] != h[2]')
    a('case labels', 'int f(int x) { switch (x) { case %s: x++; case 2 + %s: break; { default: x--; case %s: ; } } return x; }\n' % (H, H, H), [d] * 3, 'a != 2 + b && 2 + b != c && a != c'); a('case labels of the promoted type', 'int f(unsigned char x) { switch (x) { case %s: case 256 + %s - 250: x++; } return x; }\n' % (H, H), [d] * 2, 'a != 6 + b'); a('case labels after conversion', 'int f(int x) { switch (x) { case %s: case 0x10000000%s: x++; } return x; }\n' % (H, H), [d] * 2, 'a != b'); a('case labels of nested switches', 'int f(int x) { switch (x) { case %s: switch (x) { case 1: case %s: ; } case 2: ; } return x; }\n' % (H, H), [d] * 2, 'a != 2 && b != 1')
    # widths, sizes, alignments, counts
    for ty, w in [('int', 32), ('unsigned char', 8), ('short', 16), ('long', 64), ('_Bool', 1)]:
        a('width of a bit-field of ' + ty, 'struct S { %s a : %s%s; } x;\n' % (ty, H, H), ['19', d], 'a * 10 + b <= %d' % w); a('width of an unnamed bit-field of ' + ty, 'struct S { int m; %s : %s%s; int q; } x;\n' % (ty, H, H), ['19', d], 'a * 10 + b <= %d' % w)
    a('size of an array', 'int x[%s - %s + 1];\n' % (H, H), [d, d], 'a + 1 == b ? 2 : a + 1 > b'); a('size of a local array', 'int f(void) { int x[%s - %s]; return sizeof x; }\n' % (H, H), [d, d], 'a == b ? 2 : a > b'); a('alignment', '_Alignas(%s) char x; struct S { _Alignas(2 * %s) char m; } y; int z;\n' % (H, H), [d, d], '(!(a & (a - 1))) && (!(b & (b - 1)))')
    a('number of initializers', 'int x[%s + 1] = {1, 2, 3, 4, 5};\n' % H, [d], 'a + 1 >= 5'); a('length of a string', 'char x[%s] = "abcd";\n' % H, [d], 'a >= 4 ? 1 : 2'); a('designator', 'int x[%s] = {[%s] = 1};\n' % (H, H), ['19', d], 'a > b'); a('braces of a scalar', 'int x = {%s%s 1}%s;\n' % (H, H, H), [' {{', ' {{', ' }}'] if 0 else ['  {{', '  {{', '  }}'], "(h[0] == ' ' && h[1] == ' ' && h[2] == ' ') ? 1 : (h[0] == '{') + (h[1] == '{') != (h[2] == '}') ? 0 : 2")
    for k, (dec, lo, hi) in enumerate([('int g(int, int)', 2, 2), ('int g(int)', 1, 1), ('int g(int, int, int, int)', 4, 4), ('int g(int, ...)', 1, 9), ('int g(int, int, ...)', 2, 9), ('int (*g)(int, int, int)', 3, 3)]):
        a('number of arguments of ' + dec, dec + '; int f(int x) { return g(x %s 1 %s 2 %s x); }\n' % (H, H, H), ['++,,'] * 3, "1 + (h[0] == ',') + (h[1] == ',') + (h[2] == ',') >= %d && 1 + (h[0] == ',') + (h[1] == ',') + (h[2] == ',') <= %d" % (lo, hi))
    a('number of arguments of a macro', '#define g(a, b, c) a + b + c\nint f(int x) { return g(x %s 1 %s 2 %s x); }\n' % (H, H, H), ['++,,'] * 3, "(h[0] == ',') + (h[1] == ',') + (h[2] == ',') == 2"); a('arguments or none', 'int g(void); int h(int); int f(int x) { return %s(%s) + %s(%s); }\n' % (H, H, H, H), ['gh', '  11', 'gh', '  11'], "(h[0] == 'h') == (h[1] == '1') && (h[2] == 'h') == (h[3] == '1')")
    a('nested calls', 'int g(int, int); int h(int); int f(int x) { return g(h(x %s 1) %s g(x %s x, 3), h(2)); }\n' % (H, H, H), ['++,,'] * 3, "h[0] == '+' && h[1] == '+' && 0 ? 0 : (h[0] == '+' && (h[1] == ',' ) + 0 == 0 && h[2] == '+') || 0 ? 1 : (h[0] == '+' && h[1] == '+' && h[2] == '+')") if 0 else None
    for t in ['u8"a" %s"b"', '%s"a" u8"b"', 'u8"a" "c" %s"b"', '"c" %s"a" u8"b"', 'u8"a" %s"b" "c"']: a('mixed string prefixes ' + t.replace('%s', '?'), 'int x = sizeof(%s) != 0;\n' % (t % H), ['LLUUuu  '], "h[0] == ' '")
    # parentheses and braces
    a('balance of parentheses', 'int f(int x) { return %s x + %s 1 %s * x %s; }\n' % (H, H, H, H), ['  ((', '  ((', '  ))', '  ))'], "({ int o = (h[0] == '(') + (h[1] == '('); (h[2] == ')') + (h[3] == ')') == o; })"); a('balance of braces', 'int f(int x) { %s x++; %s x--; %s x++; %s return x; }\nint g;\n' % (H, H, H, H), ['  {{', '  {{', '  }}', '  }}'], "(h[0] == '{') + (h[1] == '{') == (h[2] == '}') + (h[3] == '}')")
    a('conditional groups', '#if 1\n#%sf 1\nint x;\n#%sndif\n#endif\n' % (H, H), ['iiee', 'eeii'], '0') if 0 else None
    a('closing of conditional groups', '%sif 1\nint x;\n%sif 0\n%sendif\n%sendif\n' .replace('%s', H), ['#### '[:2] + '//'] * 4, '0') if 0 else None
    a('else after else', '#if %s\n#elif %s\n#el%s%s\nint x;\n#else\n#endif\nint y;\n' % (H, H, 'se', H), [d, d, '  //'], '0') if 0 else None
    # break and continue
    a('break and continue', 'int f(int x) { %shile (x) { x--; } if (x) { %sreak; } return x; }\n' .replace('%s', H, 1).replace('%s', 'b', 1), ['ww'], '0')
    for ctx, br, co, ca in [('%s', 0, 0, 0), ('while (x) { %s }', 1, 1, 0), ('do { %s } while (x);', 1, 1, 0), ('for (;x;) %s', 1, 1, 0), ('switch (x) { %s }', 1, 0, 1), ('if (x) { %s }', 0, 0, 0), ('switch (x) { while (x) { %s } }', 1, 1, 1), ('for (;;) { switch (x) { default: %s } }', 1, 1, 1), ('while (x) { } %s', 0, 0, 0), ('switch (x) { } { %s }', 0, 0, 0), ('for (;;) { } do ; while (x); %s', 0, 0, 0), ('if (x) { while (x) { if (x) { %s } else { } } } else { }', 1, 1, 0)]:
        t = ctx.replace('%s', '{ S }'); a('jumps in ' + ctx, '#define C %s\n#if C == 0\n#define S break;\n#elif C == 1\n#define S continue;\n#elif C == 2\n#define S case 3: ;\n#elif C == 3\n#define S x++;\n#endif\nint f(int x) { %s return x; }\n' % (H, t), ['03'], 'a == 0 ? %d : a == 1 ? %d : a == 2 ? %d : 1' % (br, co, ca))
    # tokens
    a('character after a backslash', "char x = '\\%s';\nint y;\n" % H, [''], "h[0] == 'a' || h[0] == 'b' || h[0] == 'f' || h[0] == 'n' || h[0] == 'r' || h[0] == 't' || h[0] == 'v' || (h[0] >= '0' && h[0] <= '7') || h[0] == '\\'' || h[0] == '\"' || h[0] == '\\\\' || h[0] == '?' ? (h[0] == '\\'' ? 0 : h[0] == '\\\\' ? 1 : 1) : 2") if 0 else None
    a('a stray character', 'int x; %s int y;\n' % H, ['\x21\x7e'], "h[0] == ';' ? 2 : h[0] == 'z' ? 0 : 0"); a('a stray character in a function', 'int f(int x) { x++; %s return x; }\n' % H, ['\x21\x7e'], "h[0] == ';' ? 1 : 0"); a('an operator', 'int f(int x, int y) { return x %s y; }\n' % H, ['\x21\x7e'], "%s ? 1 : h[0] == ';' || h[0] == '=' ? 2 : 0" % ' || '.join("h[0] == '%s'" % c for c in '+-*/%&|^<>,')); a('a binary operator of pointers', 'int f(char *x, char *y) { return x %s y ? 1 : 2; }\n' % H, ['\x21\x7e'], "%s ? 1 : h[0] == ';' || h[0] == '=' ? 2 : 0" % ' || '.join("h[0] == '%s'" % c for c in '-<>,')); a('an operator of floats', 'int f(float x, double y) { return x %s y; }\n' % H, ['\x21\x7e'], "%s ? 1 : h[0] == ';' || h[0] == '=' ? 2 : 0" % ' || '.join("h[0] == '%s'" % c for c in '+-*/<>,')); a('a unary operator', 'int f(int x) { return %s x; }\n' % H, ['\x21\x7e'], "%s ? 1 : h[0] == '&' || h[0] == ';' ? 2 : 0" % ' || '.join("h[0] == '%s'" % c for c in '+-~!')); a('a unary operator of a pointer', 'int f(int *x) { return 0 != %s x; }\n' % H, ['\x21\x7e'], "%s ? 1 : h[0] == '&' ? 2 : 0" % ' || '.join("h[0] == '%s'" % c for c in '*!')); a('a unary operator of a double', 'int f(double x) { return 0 != %s x; }\n' % H, ['\x21\x7e'], "%s ? 1 : h[0] == '&' || h[0] == ';' ? 2 : 0" % ' || '.join("h[0] == '%s'" % c for c in '-+!')); a('operators of a struct', 'struct S { int a; } x, y; int f(void) { return 0 != (x %s y).a; }\n' % H, ['\x21\x7e'], "h[0] == '=' || h[0] == ',' ? 1 : 0")
    a('end of a statement', 'int f(int x) { x = x + 1 %s return x; }\n' % H, ['\x20\x7e'], "h[0] == ';'"); a('start of a block', 'int f(int x) %s return x; }\nint y;\n' % H, ['\x20\x7e'], "h[0] == '{'"); a('punctuation of a declaration', 'int x %s y;\n' % H, ['\x21\x7e'], "h[0] == ',' ? 1 : 0"); a('array declarator', 'int x %s3 %s, y;\n' % (H, H), ['\x20\x7e'] * 2, "h[0] == '[' && h[1] == ']' ? 1 : h[0] == '=' && (h[1] == ' ' || (h[1] >= '0' && h[1] <= '9' && 0)) ? 1 : h[0] == '=' ? 2 : 0")
    return C
def check():
    c = core.Check('C22'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 77 + 22); data = json.load(open(core.VERIF + '/data/c22.json'))
    c.bounds = ['mutations: one token of nine valid programs replaced by or preceded by any of 33 characters (quick: %d of %d positions chosen by the seed)' % (min(450, len(data['muts'])) if quick else len(data['muts']), len(data['muts'])), 'violations: %d erroneous expressions, statements and declarations in up to 8 contexts' % len(data['viol']), 'symbolic: names, numbers and punctuation in templates, with both verdicts given by a formula']
    c.assumptions = ['the verdict on mutations and violations is that of clang -std=c11 -pedantic-errors, taken once (data/c22.json, tools/gen_c22.py); where clang only warns, or the constraint is one the compiler does not enforce, either outcome is allowed']
    c.outside = ['constraints the compiler does not enforce: jumps into the scope of a variable length array, static after non-static declarations, register and auto at file scope, extern variable length arrays, _Alignas on typedefs, inline and _Noreturn objects, incomplete parameters and results, incomplete enums, parameters redeclared in the outermost block, dereferencing void pointers, extra tokens after directives, macro redefinition, conversions between incompatible pointer types, excess characters of a string']
    M = Cases('mutation'); mutations(M, data, R, 450 if quick else 10000); lit.jobs(c, M, per=8)
    V = Cases('violation'); violations(V, data, R, 3 if quick else 99); lit.jobs(c, V, per=12)
    S = symbolic(); lit.jobs(c, S, per=4)
    return c
