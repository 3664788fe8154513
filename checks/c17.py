"""C17: command-line options."""
import random
import core, lit
from lit import H, Cases, cbytes

F = lambda name: '\x02%s\x02' % name
PRE = '''static char *cat(const char *a, const char *b, const char *c) { char *r = malloc(strlen(a) + strlen(b) + strlen(c) + 1), *p = r; for (; *a; a++) *p++ = *a; for (; *b; b++) *p++ = *b; for (; *c; c++) *p++ = *c; *p = 0; return r; }
static char *put(char c) { char *r = malloc(2); r[0] = c; r[1] = 0; return r; }
static void alt(struct lexp *e, char *t, const char *args) { e->alt = t; e->altlen = strlen(t); e->altargs = args; }
'''
CO = '-c\n-o\nt.o'
def fill(t, k0=0):
    """a C expression for a text whose holes are h[k0..]"""
    p = t.split(H); r = cbytes(p[0])
    for j, x in enumerate(p[1:]): r = 'cat(%s, put(h[%d]), %s)' % (r, k0 + j, cbytes(x))
    return r
def defines():
    C = Cases('define', PREE); S = '#define STR_(...) #__VA_ARGS__\n#define STR(...) STR_(__VA_ARGS__)\n'
    def same(n, src, args, sets, defs, altargs=CO, acc=2, srcholes=0): # the text after the directives `defs` compiles to the same object without the options
        C.add(n, src, sets, 'e->accept = %s; alt(e, cat(%s, %s, ""), %s);' % (acc, fill(defs, srcholes), fill(src), cbytes(altargs)), args)
    use = S + 'char s[] = STR(X);\nint a = X;\n'; us = S + 'char s[] = STR(X);\n'
    for sp, w in (('', 'attached'), ('\n', 'separate')):
        same('-D with a value, ' + w, us, '-D%sX=%s%s1\n%s' % (sp, H, H, CO), [' ~'] * 2, '#define X %s%s1\n' % (H, H), acc='h[0] == \'/\' || h[1] == \'/\' || h[0] == 92 || h[1] == 92 ? 3 : 2') # comments and splices
        same('-D with a number, ' + w, use, CO + '\n-D%sX=%s%s' % (sp, H, H), ['19', '09'], '#define X %s%s\n' % (H, H), acc='1'); same('-D without a value, ' + w, use + 'int b = %s + X;\n' % H, '-D%sX\n' % sp + CO, ['19'], '#define X 1\n', acc='1')
        same('-D with an empty value, ' + w, us + '#if X + %s\nint b;\n#endif\n#ifdef X\nint c;\n#endif\n' % H, '-D%sX=\n' % sp + CO, ['09'], '#define X\n', acc='1'); same('-U of a macro defined by an option, ' + w, 'int X = 4, Y = %s;\n' % H, '-D%sX=2\n-D%sY=3\n-U%sX\n-U%sY\n' % (sp, sp, sp, sp) + CO, ['09'], '', acc='1')
        same('-U of a predefined macro, ' + w, '#ifdef __x86_64__\nint a = %s;\n#else\nint b;\n#endif\n#ifdef __STDC__\nint c;\n#endif\n' % H, '-U%s__x86_64__\n' % sp + CO, ['09'], '#undef __x86_64__\n', acc='1'); same('-U of an undefined macro, ' + w, 'int X = %s;\n' % H, '-U%sX\n-UY\n' % sp + CO, ['09'], '', acc='1')
        same('names of -D and -U, ' + w, S + 'char s[] = STR(A B AA AB BA BB);\n', '-D%s%s=1\n-D%s%s=2\n-D%s%s%s=3\n-U%s%s\n' % (sp, H, sp, H, sp, H, H, sp, H) + CO, ['AC', 'AC', 'AB', 'AB', 'AC'], '#define %s 1\n' .replace('%s', H) + '#undef Z\n' * 0, acc='3') if 0 else None
    # which of the names are defined
    C.add('names of -D and -U', S + 'char s[] = STR(A B AA AB BA BB);\n', ['AC', 'AC', 'AB', 'AB', 'AC'], 'e->accept = h[0] != h[1]; if (h[0] == h[1]) e->accept = 3; char b[40]; int n = 0; const char *w = "A B AA AB BA BB"; for (int i = 0; w[i];) { int l = 1; while (w[i + l] && w[i + l] != 32) l++; char v = 0; if (l == 1) { if (w[i] == h[0]) v = \'1\'; if (w[i] == h[1]) v = \'2\'; if (w[i] == h[4]) v = 0; } else if (w[i] == h[2] && w[i + 1] == h[3]) v = \'3\'; if (v) b[n++] = v; else for (int k = 0; k < l; k++) b[n++] = w[i + k]; i += l; if (w[i]) b[n++] = w[i++]; } b[n++] = 0; ex_bytes(e, "s", n, b);', '-D%s=1\n-D\n%s=2\n-D%s%s=3\n-U\n%s\n' % (H, H, H, H, H) + CO)
    same('values with macros', S + 'char s[] = STR(X Y);\nint a = X;\n', '-DX=Y%s1\n-DY=(Z*%s)\n-DZ=%s\n' % (H, H, H) + CO, ['++--', '19', '19'], '#define Z %s\n#define Y (Z*%s)\n#define X Y%s1\n', acc='1') if 0 else C.add('values with macros', 'int a = X, b = Y, c = Z;\n', ['++--', '19', '19'], 'int y = (h[2] - 48) * (h[1] - 48); ex_int(e, "a", 4, h[0] == \'+\' ? y + 1 : y - 1); ex_int(e, "b", 4, y); ex_int(e, "c", 4, h[2] - 48);', '-DX=Y%s1\n-DY=(Z*%s)\n-DZ=%s\n' % (H, H, H) + CO)
    C.add('value with equals signs', S + 'char s[] = STR(X);\n', ['  ==', '<>'], 'char b[9]; int n = 0; if (h[1] == \'=\') n = 0; b[n++] = \'1\'; b[n++] = h[0]; b[n++] = h[1]; b[n++] = \'=\'; b[n++] = \'2\'; b[n] = 0; if (h[0] != 32 || h[1] == 61) e->accept = 3; b[1] = 32; ex_bytes(e, "s", 6, b);', '-DX=1%s%s=2\n' % (H, H) + CO)
    C.add('strings in values', 'char s[] = X;\n', ['az', ' !#[]~'], 'char b[4] = {h[0], h[1], 0}; ex_bytes(e, "s", 3, b);', '-DX="%s%s"\n' % (H, H) + CO); C.add('conditionals on options', '#if defined(A) && A > %s\nint a = A;\n#elif B\nint b = B;\n#else\nint c;\n#endif\n' % H, ['09', 'AB', '09'], 'int v = h[2] - 48; if (h[1] == \'A\' && v > h[0] - 48) ex_int(e, "a", 4, v); else if (h[1] == \'B\' && v) ex_int(e, "b", 4, v); else ex_int(e, "c", 4, 0);', '-D%s=%s\n' % (H, H) + CO)
    C.add('redefinition in the source', '#undef X\n#define X %s\nint a = X;\n#undef Y\nint b = sizeof(struct { char Y[3]; });\n' % H, ['09', '09'], 'ex_int(e, "a", 4, h[0] - 48); ex_int(e, "b", 4, 3);', '-DX=%s\n-DY=+\n' % H + CO)
    # the same under -E
    for w, sp in (('attached', ''), ('separate', '\n')):
        C.add('-E with -D and -U, ' + w, 'int A = 5, B = 6, C = 7;\n', ['AC', '19', 'AC'], 'char b[80]; int n = 0; const char *t = "int A = 5, B = 6, C = 7;"; for (int i = 0; t[i]; i++) if (t[i] >= 65 && t[i] <= 67 && t[i] == h[0] && t[i] != h[2]) { b[n++] = \'(\'; b[n++] = h[1]; b[n++] = \')\'; } else b[n++] = t[i]; b[n] = 0; char *c = malloc(n + 1); memcpy(c, b, n + 1); e->text = c; e->cmp = cmp_tokens;', '-E\n-D%s%s=(%s)\n-U%s%s' % (sp, H, H, sp, H))
    return C
PREE = PRE + '''// same characters, white space aside
static int cmp_tokens(struct lexp *e, const char *o, unsigned long n) { const char *t = e->text; unsigned long i = 0; for (;;) { while (i < n && (o[i] == 32 || o[i] == 10)) i++; while (*t == 32 || *t == 10) t++; if (i == n || !*t) return i == n && !*t; if (o[i++] != *t++) return 0; } }
'''
def includes():
    C = Cases('include', PREE); a = lambda n, s, sets, ref, args=CO: C.add(n, s, sets, ref, args)
    hd = ''.join(F('%sx.h' % d) + '#define V %d\n' % k for k, d in enumerate(['', 'a/', 'b/', 'c/']))
    for sp in ('', '\n'):
        a('order of -I%s' % (' (separate)' if sp else ''), '#include <x.h>\nint v = V;\n' + hd, ['ac', 'ac'], 'ex_int(e, "v", 4, h[0] - \'a\' + 1);', '-I%s%s\n-I%s%s\n' % (sp, H, sp, H) + CO); a('only some directories have it%s' % (' (separate)' if sp else ''), '#include <x.h>\nint v = V;\n' + F('b/x.h') + '#define V 7\n' + F('d/x.h') + '#define V 9\n' + F('a/q.h') + '\n', ['ae', 'ae'], 'int f = h[0] == \'b\' || h[0] == \'d\' ? h[0] : h[1]; e->accept = f == \'b\' || f == \'d\'; ex_int(e, "v", 4, f == \'b\' ? 7 : 9);', '-I%s%s\n' % (sp, H) + CO + '\n-I%s%s' % (sp, H))
    a('quotes search the directory of the file first', '#include %sx.h%s\nint v = V;\n' % (H, H) + hd, ['""<<', '"">>'], 'e->accept = (h[0] == \'"\') == (h[1] == \'"\'); ex_int(e, "v", 4, h[0] == \'"\' ? 0 : 2);', '-Ib\n' + CO); a('quotes fall back to -I', '#include "x.h"\nint v = V;\n' + F('b/x.h') + '#define V 4%s\n' % H, ['09'], 'ex_int(e, "v", 4, 40 + h[0] - 48);', CO + '\n-Ib'); a('the main file in a directory', F('a/m.c') + '#include "x.h"\nint v = V;\n#include "../b/x.h"\nint w = V;\n#include "%s/x.h"\nint u = V;\n' % H + ''.join(F(x) + '#undef V\n#define V %d\n' % k for k, x in enumerate(['x.h', 'a/x.h', 'b/x.h', 'a/c/x.h', 'a/d/x.h', 'c/x.h', 'a/../b/x.h'])), ['ce'], 'e->accept = h[0] != \'e\'; ex_int(e, "v", 4, 1); ex_int(e, "w", 4, 6); ex_int(e, "u", 4, h[0] == \'c\' ? 3 : 4);', '!a/m.c\n' + CO)
    nest = F('a/y.h') + '#define V 1\n' + F('b/y.h') + '#define V 2\n' + F('y.h') + '#define V 3\n' + F('c/y.h') + '#define V 4\n'
    for tail in ('\n', '', '\n\n', '\nint zz;\n', ' // c\n'): a('nested includes are relative to their file, %r' % tail, '#include "%s/x.h"\nint v = V;\n' % H + ''.join(F(d + '/x.h') + '#include %sy.h%s%s' % (q, p, tail) for d, q, p in (('a', '"', '"'), ('b', '"', '"'), ('d', '<', '>'))) + nest, ['ae'], 'e->accept = h[0] == \'a\' || h[0] == \'b\' || h[0] == \'d\'; ex_int(e, "v", 4, h[0] == \'a\' ? 1 : h[0] == \'b\' ? 2 : 4);', '-Ic\n' + CO)
    a('includes through macros', '#define Q %sx.h%s\n#define P Q\n#include P\nint v = V;\n' % (H, H) + hd, ['""<<', '"">>'], 'e->accept = (h[0] == \'"\') == (h[1] == \'"\'); ex_int(e, "v", 4, h[0] == \'"\' ? 0 : 3);', '-Ic\n' + CO); a('include given by an option', '#include X\nint v = V;\n' + hd, ['ac'], 'ex_int(e, "v", 4, h[0] - \'a\' + 1);', '-DX="%s/x.h"\n' % H + CO)
    a('-I before the default directories', '#include <stddef.h>\n#ifndef MINE\nint v = 1;\n#else\nint v = 2;\n#endif\n' + F('a/stddef.h') + '#define MINE\n' + F('b/other.h') + '\n', ['ac'], 'ex_int(e, "v", 4, h[0] == \'a\' ? 2 : 1);', '-I%s\n' % H + CO); a('missing header', '#include "%s.h"\nint v;\n' % H + F('x.h') + '\n', ['az'], 'e->accept = h[0] == \'x\';'); a('missing system header', '#include <%s.h>\nint v;\n' % H + F('d/x.h') + '\n', ['az'], 'e->accept = h[0] == \'x\';', '-Id\n' + CO)
    a('-E uses the directories', '#include <x.h>\nint v = V;\n' + hd, ['ac'], 'e->text = cat("int v =", put(h[0] - \'a\' + 49), ";"); e->cmp = cmp_tokens;', '-E\n-I%s' % H)
    return C
def outputs():
    C = Cases('output', PREE); a = lambda n, s, sets, ref, args: C.add(n, s, sets, ref, args)
    T = 'int v = %s;\n' % H; V = 'ex_int(e, "v", 4, h[0] - 48); '; N = 'char *nm = cat(put(h[1]), ".o", ""); e->out = nm; '
    no = lambda *l: ''.join('ex_file(e, "%s", 0); ' % x for x in l)
    a('-o, separate', T, ['09', 'az'], V + N + 'if (h[1] != \'t\') { %s } %s' % (no('t.o'), no('a.out', 't.s')), '-c\n-o\n%s.o' % H); a('-o, attached', T, ['09', 'az'], V + N + 'if (h[1] != \'t\') { %s } %s' % (no('t.o'), no('a.out')), '-o%s.o\n-c' % H); a('-o with another suffix', T, ['09', 'az'], V + 'e->out = cat("x.", put(h[1]), ""); ' + no('t.o', 'x.o'), '-o\nx.%s\n-c' % H) if 0 else None
    a('the default name of an object', T, ['09'], V + no('a.out', 't.s', 't.d', 't'), '-c'); a('the default name for a file in a directory', F('d/m.c') + T, ['09'], V + 'e->out = "m.o"; ' + no('d/m.o', 'a.out', 't.o'), '!d/m.c\n-c'); a('the name of the input is kept up to its suffix', F('x.y.c') + T, ['09'], V + 'e->out = "x.y.o"; ' + no('x.o', 'x.y.c.o'), '!x.y.c\n-c'); a('the order of options', T, ['09'], V + no('a.out'), '!-c\nt.c\n-o\nt.o'); a('operand last', T, ['09'], V + no('a.out'), '!-o\nt.o\n-c\nt.c'); a('the last -o counts', T, ['09'], V + no('x.o'), '-o\nx.o\n-c\n-o\nt.o')
    a('several files', T + F('b.c') + 'int w = %s;\n' % H, ['09', '09'], V + no('a.out'), '!t.c\nb.c\n-c'); a('several files, the other one', T + F('b.c') + 'int w = %s;\n' % H, ['09', '09'], 'e->out = "b.o"; ex_int(e, "w", 4, h[1] - 48); ' + no('a.out'), '!t.c\n-c\nb.c'); a('macros of one file are unknown in the next', '#define X 1\n#define Y 2\nstruct s { int a; }; typedef int t; enum { z = 4 }; static int f(void) { return X; } int g(void) { return f(); }\n' + F('b.c') + '#ifdef X\n#error X\n#endif\nlong s, t, z; char f; int Y = %s;\n' % H, ['09'], 'e->out = "b.o"; ex_int(e, "Y", 4, h[0] - 48); ex_int(e, "s", 8, 0); ex_int(e, "f", 1, 0);', '!t.c\n-c\nb.c')
    a('options hold for every file', 'int v = X;\n' + F('b.c') + 'int w = X;\n#ifdef Y\n#error\n#endif\n', ['09'], 'e->out = "b.o"; ex_int(e, "w", 4, h[0] - 48);', '!t.c\nb.c\n-c\n-DX=%s\n-DY\n-UY' % H); a('-o with several files', T + F('b.c') + 'int w;\n', ['09', 'cS'], 'e->accept = h[1] == \'c\' || h[1] == \'S\' ? 0 : 3;', '!t.c\nb.c\n-o\nt.o\n-%s' % H) if 0 else a('-o with several files', T + F('b.c') + 'int w;\n', ['09', 'SScc'], 'e->accept = 0;', '!t.c\nb.c\n-o\nt.o\n-%s' % H)
    a('-E writes no object', T, ['09'], 'e->text = cat("int v = ", put(h[0]), ";"); e->cmp = cmp_tokens; ' + no('t.o', 'a.out', 't.s'), '-E'); a('-S writes no object', T, ['09'], no('t.o', 'a.out'), '-S'); a('missing input', T, ['09', 'az'], 'e->accept = h[1] == \'t\';', '!%s.c\n-c' % H); a('unknown options', T, ['09', 'az'], 'e->accept = h[1] == \'c\' ? 1 : h[1] == \'g\' ? 1 : h[1] == \'s\' || h[1] == \'o\' || h[1] == \'l\' || h[1] == \'f\' ? 2 : 0; ' , '-c\n-%s' % H); a('missing operand of an option', T, ['09', 'AZaz'], 'char c = h[1]; e->accept = c == \'D\' || c == \'U\' || c == \'I\' || c == \'L\' || c == \'l\' || c == \'f\' || c == \'o\' || c == \'O\' ? 0 : c == \'c\' || c == \'g\' || c == \'W\' ? 1 : c == \'E\' || c == \'S\' || c == \'s\' || c == \'M\' ? 2 : 0;', '-c\n-%s' % H)
    # dependencies
    I = '#include "x.h"\n#include <y.h>\nint v = V + W + %s;\n' % H + F('x.h') + '#define V 1\n#include "z.h"\n' + F('d/y.h') + '#define W 2\n' + F('z.h') + '\n'; D = 'ex_int(e, "v", 4, h[0] - 45); '
    for args, out, f, tgt in [('-c\n-MD\n-o\nt.o', 't.o', 't.d', 't.o'), ('-c\n-MD\n-o\nq.o', 'q.o', 'q.d', 'q.o'), ('-c\n-MD', 't.o', 't.d', 't.o'), ('-c\n-MD\n-MF\nm.x\n-o\nt.o', 't.o', 'm.x', 't.o'), ('-MFm.x\n-c\n-MD\n-o\nt.o', 't.o', 'm.x', 't.o'), ('-MD\n-MT\ngoal\n-c\n-o\nt.o', 't.o', 't.d', 'goal'), ('-MTa b\n-MD\n-c\n-o\nt.o\n-MF\nd/k.mk', 't.o', 'd/k.mk', 'a b')]:
        a('dependencies: ' + args.replace('\n', ' '), I, ['09'], D + 'e->out = "%s"; ex_file(e, "%s", "%s: t.c x.h z.h d/y.h\\n"); %s' % (out, f, tgt, no(*[x for x in ('t.d', 'q.d') if x != f])), '-Id\n' + args)
    a('dependencies that are not included', '#if %s > 4\n#include "x.h"\n#else\n#include "y.h"\n#endif\n#include "o.h"\n#include "o.h"\n' % H + F('x.h') + 'int v = 1;\n' + F('y.h') + 'int v = 2;\n' + F('o.h') + '#pragma once\nint o;\n', ['09'], 'ex_file(e, "t.d", h[0] > \'4\' ? "t.o: t.c x.h o.h" : "t.o: t.c y.h o.h"); ex_int(e, "v", 4, h[0] > \'4\' ? 1 : 2);', '-MD\n' + CO); a('names in dependencies', '#include "%s%s.h"\n' % (H, H) + F('ab.h') + '\n' + F('ba.h') + '\n' + F('aa.h') + '\n', ['ab', 'ab', 'xz', 'tu'], 'e->accept = h[0] == \'b\' && h[1] == \'b\' ? 0 : 1; char *n = cat(put(h[0]), put(h[1]), ".h\\n"), *m = cat(put(h[2]), ": t.c ", n); ex_file(e, cat(put(h[3]), ".m", ""), m);', '-MD\n-MF\n%s.m\n-MT\n%s\n'.replace('%s.m', '@M').replace('%s', H).replace('@M', H + '.m') + CO) if 0 else None
    a('no dependencies unless asked for', I, ['09'], D + no('t.d', 'm.x'), '-Id\n-MF\nm.x\n-c\n-o\nt.o')
    # options without effect on the object
    P = 'static int k = %s; int f(int x) { int a[3] = {x, k, 2}; for (int i = 0; i < x; i++) a[i %% 3] += k * i; return a[1]; } int v = sizeof(f(1));\n' % H
    for n, o in [('-W', '-W%s%s' % (H, H)), ('-std', '-std=c%s%s' % (H, H)), ('-g', '-g'), ('-fabi=sysv', '-fabi=sysv'), ('-O', '-O%s' % H), ('-O, separate', '-O\n%s' % H), ('-L and -l', '-L.\n-l%s' % H), ('-L and -l, separate', '-L\n.\n-l\n%s' % H)]:
        a('no effect: ' + n, P, ['09'] + ['az09' if n[1] != 'O' else '09'] * o.count(H), 'e->accept = 1; e->altargs = %s;' % cbytes(CO), o + '\n' + CO) if n[1] != 'O' else None
    return C
# programs for -E: compiling the preprocessed text gives the same object
def prep(R, n):
    C = Cases('preprocessed', PREE); a = lambda name, s, *sets: C.add(name, s, list(sets), 'e->accept = 2; e->altE = 1;', '-c\n-o\nt.o')
    W = lambda x: ''.join(c + c for c in x); O = W('+-*/<>=!&|^%#:.'); N = W('0e.x+-"')
    T = [('macros', '#define A(x) (x + %s)\n#define S(x) #x\n#define C(a, b) a##b\nint C(v, 1) = A(2) %s A(3); char s[] = S(a %s b) S( "q\\n" ); int C(w,%s) = 0x1;\n', ['09', O, '!/', '09']), ('operators', 'int f(int a, int b) { a %s%s b; return a %s b; }\n', [O, O, W('+=-')]), ('expanded operators', '#define P %s\n#define Q(x) P x P\nint f(int a, int b) { return a P%s b Q(%s) a; }\n', [O, O, W('+-1')]), ('adjacent numbers and names', '#define E\n#define N 1%s\nint f(int a, int e1, int x2) { return N%sE a E%s; }\n', [N, '!/', W('1e+')]), ('floating constants and signs', '#define M -\n#define N 1e\nfloat f = 1.%se%s1 M%s1; double d = M M %s;\n', ['09', '++--', '++--', '09']), ('strings', 'char a[] = "%s\\%s"; char b[] = "x" "%s";\n', ['!~', W('09abxn"'), W('0a')]),
      ('character constants', "int a = '%s', c = '\\%s'; char s[] = \"a\" \"%s\";\n", ['!~', W('07ntx'), W('0"')]), ('wide and unicode strings', 'int s[] = L"%s"; unsigned short u[] = u"%s"; char v[] = u8"x" "%s"; int c = L\'%s\';\n', ['!~', W('a1'), W('a'), W('bc')]), ('comments', 'int a/*%s*/ = 1; int b/*x%s\n*/= 1/**/%s2; // %s\\\nx\nint c;\n', [' ~', W(' *'), W(' +\t'), W('a*/')]), ('directives', '#if %s\nint a;\n#elif %s > 4\n#line 77 "q.c"\nint b = __LINE__;\n#else\nchar c[] = __FILE__;\nint l = __LINE__;\n#endif\nint m = __LINE__;\n', ['09', '09']), ('pragmas', 'struct A { char c; long l; };\n#pragma pack(%s)\nstruct B { char c; long l; };\n#pragma pack()\nstruct C { char c; long l; }; int a = sizeof(struct A), b = sizeof(struct B), c = sizeof(struct C);\n', [W('1248')]),
      ('pragmas with a stack', '#pragma pack(push, %s)\nstruct B { char c; long l; int i; };\n#define Z 2\n#pragma pack(push)\n#pragma pack(%s)\nstruct D { char c; int l; };\n#pragma pack(pop)\nstruct E { char c; int l; };\n#pragma pack(pop)\nstruct C { char c; long l; }; int b = sizeof(struct B), c = sizeof(struct C), d = sizeof(struct D) * 16 + sizeof(struct E);\n', [W('1248'), W('1248')]), ('includes', '#include "a%s.h"\nint z = V;\n' + F('ax.h') + '#define V x%s + 1\nenum { x1, x2 };\n#undef V\n#define V 3\n' + F('ay.h') + '#define V 4\nint y;', ['xz', '12']), ('system headers', '#include <stddef.h>\n#include <stdarg.h>\nsize_t a = sizeof(wchar_t) + offsetof(struct { char c; int d; }, d) + %s; int f(int n, ...) { va_list l; va_start(l, n); n = va_arg(l, int); va_end(l); return n; }\n', [W('19')]), ('predefined names', 'const char *f(void) { return __func__; } long v = __STDC_VERSION__ + %s; int s = __STDC__, h = __STDC_HOSTED__;\n', [W('19')]),
      ('empty arguments', '#define F(a, b) a-b +a ## b -a\nint x = 1 + F(%s,) + F(,%s) + 0; int y = 0 -F(%s,-%s);\n', [W('19 '), W('19 '), W('0-'), W('0-')]), ('increments', '#define D(x) -x\n#define I(x) +x\nint f(int a, int b) { return D(-a) %sI(+b) - D(%sb) -%s-a; }\n', ['++--', '++--', '  ++--']), ('tokens that join', '#define e(x) x\n#define n\nint f(int a, int *p) { return a e(%s)e(%s) a; }\n', [O, O]), ('line splices', 'int a\\\nb = 1%s\\\n2; char s[] = "x\\\n%s";\n', ['09', '!~']), ('digraphs', '%%:define Q(x) %%:x\nint a<:%s:> = <%% 1 %%>; char s<::> = Q(<:%s);\n', ['19', W('09az:')]), ('labels and punctuators', 'struct s { int a : 3; }; int f(struct s *p, ...) { x: if (p->a) goto x; return p ? p->a : %s; } int (*g)(struct s *, ...) = f; int q[] = { [1] = %s };\n', ['09', '09'])]
    for name, t, sets in T: a(name, t.replace('%s', H).replace('%%', '%'), *sets)
    # random texts of macros
    names = ['A', 'B', 'C', 'D']
    for k in range(n):
        src = ''; holes = []
        for w in names[:3]:
            fn = R.random() < .5; body = ''
            for _ in range(R.randint(1, 4)):
                z = R.random()
                if z < .3: body += H + ' ' * R.randint(0, 1); holes.append(W(R.choice(['+-1', '=<', 'a1.', '>-=', '. 1', 'x"1', '&|', '##a'])))
                elif z < .5: body += R.choice(['x', ' x ', '#x' if fn else 'x', 'x##1' if fn else '2'])
                else: body += R.choice(['-', '+', ' -', '1', 'e', '.', '"s"', "'c'", 'L', ' ', '<', '>', '=', '&', '/**/'] + names[:3])
            src += '#define %s%s %s\n' % (w, '(x)' if fn else '', body)
        src += '#define Q_(...) #__VA_ARGS__\n#define Q(...) Q_(__VA_ARGS__)\nchar s[] = Q('
        for _ in range(R.randint(2, 5)):
            z = R.random()
            if z < .3: src += H; holes.append(W(R.choice(['+-1', '=<', 'a1.', '>-=', ' 1', '&|', 'e"'])))
            else: src += R.choice(['A', 'B', 'C', 'A(1)', 'B(y)', 'C(-)', ' ', '-', 'e', '1', ' "t" '])
        a('random %d' % k, src + ');\n', *holes)
    return C
def check():
    c = core.Check('C17'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 53 + 17)
    c.bounds = ['option operands with up to 3 symbolic characters, attached and separate; up to two -I directories chosen symbolically; fixed lists of option orders, output names and dependency options with symbolic operands; -E: %d templates and random macro texts with up to 12 symbolic characters, compiled again' % 20]
    c.outside = ['function-like macros given to -D', '-U before -D of the same name (POSIX and GNU differ)', 'comments and line splices in operands of -D', 'linking options (C12)', '-fdump-ir, -fdebug-stack-size, -fmingw-workarounds']
    c.assumptions = ['dependency rules are compared word by word, white space aside']
    for g in (defines, includes, outputs): lit.jobs(c, g(), per=3)
    lit.jobs(c, prep(R, 40 if quick else 600), per=2)
    return c
