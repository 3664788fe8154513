"""C15: no input makes the compiler misbehave: it accepts or reports an error, and stays inside its memory."""
import json, random, sys
import core, lit
from lit import H, Cases
sys.path.insert(0, core.VERIF + '/tools')
import c22_tables as TB
CO = '-c\n-o\nt.o'
def contexts():
    C = Cases('context'); a = lambda n, s, sets=None, args=CO: C.add(n, s, sets or [''] * (s.count(H) + args.count(H)), 'e->accept = 2;', args)
    L = '[az;' # narrower: what follows is decided by few characters
    h2 = H + H; h3 = H * 3; quick = core.TIER == 'quick'
    E = '!\x01\xff' # one path per value
    F = 'aa  (("";;##' # names are hashed: one path per value
    for n, s in [('a whole file', h2 if quick else h3), ('end of a file', 'int a;' + h2), ('start of a file', h2 + ' int a; '), ('a line', 'int a;\n' + h2 + '\nint b;\n'), ('a string', 'char s[] = "%s";\n' % h2), ('an unterminated string', 'char s[] = "a%s' % h2), ('a wide string', 'int s[] = L"%s";\n' % h2), ('a short string', 'unsigned short s[] = u"%s";\n' % h2), ('a utf-8 string', 'char s[] = u8"%s";\n' % h2), ('an escape sequence', 'char s[] = "\\%s";\n' % h2), ('an escape at the end', 'char s[] = "a\\%s' % H), ('an octal escape', 'char s[] = "\\7%s";\n' % h2), ('a hexadecimal escape', 'int s[] = L"\\x%s";\n' % h2), ('a universal character', 'char s[] = "\\u00%s";\n' % h2), ('a long universal character', 'int s[] = L"\\U0010%sff";\n' % h2), ('a universal character in a name', 'int a\\u00%s;\n' % h2),
      ('a character', "int a = '%s';\n" % h2), ('a character escape', "int a = '\\%s';\n" % h2), ('an unterminated character', "int a = '%s" % h2), ('a wide character', "int a = L'%s';\n" % h2), ('a number', 'long a = 1%s;\n' % h2), ('a hexadecimal number', 'long a = 0x%s;\n' % h2), ('an octal number', 'long a = 0%s;\n' % h2), ('a binary number', 'long a = 0b%s;\n' % h2), ('a suffix', 'long a = 12%s;\n' % h2), ('a fraction', 'double a = 1.%s;\n' % h2), ('an exponent', 'double a = 1e%s;\n' % h2), ('a hexadecimal fraction', 'double a = 0x1.%sp1;\n' % h2), ('a number at the end', 'int a = 1%s' % h2), ('a big number', 'long a = 1844674407370955161%s;\n' % h2),
      ('a name', 'int a%s;\n' % h2), ('a comment', 'int /*%s*/ a;\n' % h2), ('an unterminated comment', 'int a; /*%s' % h2), ('a line comment', 'int a; // %s\nint b;\n' % h2), ('a line comment at the end', 'int a; //%s' % h2), ('a splice', 'int a\\%s;\n' % h2), ('a splice at the end', 'int a; \\%s' % H), ('a trigraph', 'int a??%s;\n' % h2),
      ('an initializer', 'int a = %s;\n' % h2), ('an expression', 'int f(int a) { return a %s; }\n' % h2), ('an operand', 'int f(int a) { return %s a; }\n' % h2), ('a statement', 'int f(int a) { %s }\n' % h2), ('a declarator', 'int %s;\n' % h2), ('an initializer list', 'int a[] = {%s};\n' % h2), ('a designator', 'struct s { int x; } a = {.%s = 1};\n' % h2), ('an index', 'int a[] = {[%s] = 1};\n' % h2), ('parameters', 'int f(%s);\n' % h2), ('arguments', 'int f(int, int), a; int g(void) { return f(%s); }\n' % h2), ('a member', 'struct s { int x%s; } a;\n' % h2), ('an enumerator', 'enum e { A%s };\n' % h2), ('a bit-field', 'struct s { int x : %s; } a;\n' % h2), ('a dimension', 'int a[%s];\n' % h2), ('a case', 'int f(int a) { switch (a) { case %s: ; } return 1; }\n' % h2), ('a type name', 'int a = sizeof(%s);\n' % h2), ('a cast', 'int b, a = (%s) 1;\n' % h2), ('the end of a function', 'int f(int a) { return a; %s' % h2)]: a(n, s, [E, '!' + F] if quick and n in ('a universal character in a name', 'a declarator', 'a dimension', 'a name', 'an enumerator') else None)
    for n, s in [('a directive', '#%s\nint b;\n' % h2), ('a directive at the end', '#%s' % h2), ('a condition', '#if %s\nint b;\n#endif\n' % h2), ('an unterminated condition', '#if 1%s' % h2), ('operators of a condition', '#if 1 %s 0\n#endif\n' % h2), ('division in a condition', '#if 1 / %s\n#elif 1 %% %s\n#endif\n' % (H, H)), ('defined', '#if defined%s\n#endif\n' % h2), ('defined with a parenthesis', '#if defined(%s\n#endif\n' % h2), ('#ifdef', '#ifdef %s\n#endif\n' % h2), ('#elif', '#if 0\n#elif %s\n#endif\n' % h2), ('#else', '#if 1\n#else%s\n#endif\n' % h2), ('a skipped group', '#if 0\n%s\n#endif\nint a;\n' % h2), ('a skipped directive', '#if 0\n#%s\n#endif\n' % h2), ('a skipped group at the end', '#if 0\n%s' % h2), ('a name of a macro', '#define %s\nint b;\n' % h2), ('a macro', '#define A%s\nint b = A;\n' % h2), ('a body of a macro', '#define A %s\nint b = A;\n' % h2), ('parameters of a macro', '#define A(%s\nint b = A(1);\n' % h2), ('parameters of a macro, closed', '#define A(%s) 1\nint b = A(1);\n' % h2), ('a second parameter', '#define A(a,%s) 1\n' % h2), ('stringizing', '#define A(a) #%s\nchar b[] = A(1);\n' % h2), ('stringized text', '#define A(a) #a\nchar b[] = A(%s);\n' % h2), ('stringized strings', '#define A(a) #a\nchar b[] = A("%s");\n' % h2), ('pasting', '#define A(a) a##%s\nint b = A(1);\n' % h2), ('pasted text', '#define A(a, b) a##b\nint x1; int b = A(%s, %s);\n' % (H, H)), ('pasting first', '#define A(a) %s##a\nint b = A(1);\n' % H), ('pasting objects', '#define A %s ## %s\nint b = A;\n' % (H, H)), ('arguments of a macro', '#define A(a, b) a b\nint b = A(%s;\n' % h2), ('arguments of a macro at the end', '#define A(a) a\nint b = A%s' % h2), ('variable arguments', '#define A(a, ...) a __VA_ARGS__ %s\nint b = A(1, 2);\n' % H), ('recursive macros', '#define A(a) a A(%s)\n#define B A\nint b = B(%s)(1);\n' % (H, H)), ('#undef', '#undef %s\n' % h2), ('#line', '#line %s\nint a;\n' % h2), ('#line with a name', '#line 1 %s\nint a = __LINE__;\n' % h2), ('#error', '#error %s\n' % h2), ('#pragma', '#pragma %s\nint a;\n' % h2), ('#pragma at the end', '#pragma %s' % h2), ('#pragma pack', '#pragma pack%s\nstruct s { char c; int i; } a;\n' % h2), ('#pragma pack with a parenthesis', '#pragma pack(%s\nstruct s { char c; int i; } a;\n' % h2), ('#pragma pack with a value', '#pragma pack(%s)\nstruct s { char c; int i; } a;\n' % h2), ('#pragma pack of a stack', '#pragma pack(p%sp)\nstruct s { char c; int i; } a;\n#pragma pack(pop)\n#pragma pack(pop)\n' % h2), ('push_macro', '#pragma push_macro(%s)\nint a;\n' % h2), ('pop_macro', '#define X 1\n#pragma push_macro("%s")\n#undef X\n#pragma pop_macro("%s")\nint X;\n' % (H, H)), ('pop_macro without a push', '#pragma pop_macro("%s")\nint X;\n' % H), ('_Pragma', '_Pragma(%s)\nint a;\n' % h2), ('_Pragma with a string', '_Pragma("%s")\nint a;\n' % h2), ('a header', '#include <%s>\n' % h2), ('a quoted header', '#include "%s"\n' % h2), ('an unterminated header', '#include <%s' % h2), ('#include', '#include %s\n' % h2), ('#include of a macro', '#define A %s\n#include A\n' % h2), ('inclusion of the file itself', '#include "t.%s"\n' % H), ('__VA_OPT__ and friends', '#define A(...) %s __VA_ARGS__ # __VA_ARGS__ ## %s\nint b; A(1,2)\n' % (H, H)), ('__COUNTER__ and __FILE__', '#line 5 "a%s"\nchar a[] = __FILE__;\n' % h2)]:
        st = ['', F] if quick and n in ('a macro', 'a name of a macro', '#pragma pack with a value') else None; a(n, s, st)
        if s.count(H) == 2 and 'header' not in n: a(n + ' (-E)', s, st, args='-E') if n in ('a macro', 'a body of a macro', 'stringized text', 'pasted text', '#pragma', 'a directive', '#line', '_Pragma', 'arguments of a macro') else None
    U = '\x7f\xff'
    for n, s in [('a name', 'int %s;\n'), ('the middle of a name', 'int a%sb;\n'), ('a string', 'char s[] = "%s";\n'), ('a wide string', 'int s[] = L"%s";\n'), ('a 16-bit string', 'unsigned short s[] = u"%s";\n'), ('a string of a stringizing', '#define A(a) #a\nchar s[] = A(%s);\n'), ('a wide character', "int s = L'%s';\n"), ('a 16-bit character', "int s = u'%s';\n"), ('a character', "int s = '%s';\n"), ('the end', 'int a; %s'), ('the end of a string', 'int s[] = L"%s'), ('a name of a macro', '#define %s 1\n'), ('a comment', 'int /* %s */ a; // %s\n'.replace('%s', '%s', 1).replace('// %s', '//')), ('a header', '#include "%s"\n')]:
        a('encoded characters in ' + n, s % h3, ['!\xbf\xff', '!\x80\x80\xc0\xc0', '!\x80\x80\xc0\xc0'] if 'name' in n else [U] * 3); a('four bytes in ' + n, s % ('\xf0' + h3), ['\x7f\xc0', U, U]) if 'char' in n or 'string' in n else None
    # arguments
    for n, ar, k in [('an option', '-%s%s', 2), ('a long option', '-f%s%s', 2), ('options after options', '-c%s\n-%s', 2), ('a definition', '-D%s%s\n' + CO, 2), ('a definition with a value', '-DX=%s%s\n' + CO, 2), ('an undefinition', '-U%s%s\n' + CO, 2), ('an optimization level', '-O%s%s\n' + CO, 2), ('dependencies', '-M%s%s\n' + CO, 2), ('an input', '!%s%s\n-c', 2), ('an output', '-c\n-MD\n-o\n%s%s', 2), ('a flag', '-fcmodel=%s%s\n' + CO, 2), ('the stack debugger', '-fdebug-stack-size%s%s\n' + CO, 2)]:
        a('argument: ' + n, 'int X; int f(int x) { return x; }\n', (['!\x03\xff', '!aa((##'] if 'definition' in n and quick else ['\x03\xff'] * k), ar.replace('%s', H))
    return C
def bytes_(R, n, width):
    """one or two bytes of a valid program replaced by any bytes"""
    C = Cases('bytes'); l = [(k, p) for k, s in TB.BASES.items() for p in range(len(s))]
    for k, p in sorted(R.sample(l, min(n, len(l)))):
        s = TB.BASES[k]; C.add('%s at %d' % (k, p), s[:p] + H * width + s[p + width:] + '\n', [''] * width, 'e->accept = 2;')
    return C
def trunc():
    C = Cases('truncated')
    for k, s in TB.BASES.items():
        for p in range(0, len(s), 3): C.add('%s up to %d' % (k, p), s[:p] + H, [''], 'e->accept = 2;')
    return C
TOK = ['(', ')', '[', ']', '{', '}', ';', ',', ':', '=', '.', '->', '*', '&', '+', '-', '!', '~', '?', '<', '++', '...', '#', '##', 'int', 'char', 'double', 'void', 'struct', 'union', 'enum', 'typedef', 'static', 'extern', 'const', 'sizeof', '_Alignof', '_Alignas', '_Generic', '_Static_assert', '_Noreturn', 'inline', 'register', 'if', 'else', 'for', 'while', 'do', 'switch', 'case', 'default', 'break', 'continue', 'return', 'goto', 'x', 'y', 's', 'T', '1', '0', '2.5', '"a"', "'c'", 'L"b"', '__builtin_va_arg', '__builtin_va_start', '__builtin_va_list', '__builtin_offsetof', '__func__', '__attribute__', 'unsigned', 'long', '_Bool', 'float']
def tokens(R, n, depth):
    """random sequences of tokens with holes for tokens"""
    C = Cases('tokens'); pre = 'typedef int T; struct s { int x; int y : 3; T z[2]; } s; int x, *y; int f(int, ...);\n'
    for k in range(n):
        infn = R.random() < .6; q = R.choice([' '.join(R.choice(TOK) for _ in range(R.randint(0, depth))), R.choice(['x = ', 'y = ', 'int a', 'struct s q = {', 'int a[] = {', 'f(', 'switch (x) { ', 'for (', '(', 's.', 'sizeof(', 'struct q { int a; ', 'enum { A, ', 'if (x) ', 'return ', 'typedef ', 'T ', 'case ', '_Generic(x, ', 'static int b = ', '"a" ', '(struct s){', '__builtin_offsetof(struct s, ', 'y[', '*y', 'x ? ', 'x : ', '&', '(T)', 'int (*g)(', 'char *p = ', 'double d = ']) + R.choice(['', R.choice(TOK)])])
        tail = R.choice(['', ';', ' x;', ') ;', '} ;', ' 1;', '] ;', ' ' + R.choice(TOK) + ' ;'])
        sym = R.sample(TOK, 8); src = pre + '#define Q %s\n' % H
        for j, t in enumerate(sym): src += '#%s Q == %d\n#define M %s\n' % ('elif' if j else 'if', j, t)
        src += '#endif\n'; body = q + ' M ' + R.choice(['', R.choice(TOK) + ' ']) + tail
        C.add('%d: %s' % (k, body), src + ('int main(void) { %s return 0; }\n' if infn else '%s\nint end;\n') % body, ['07'], 'e->accept = 2;')
    return C
def check():
    c = core.Check('C15'); quick = core.TIER == 'quick'; R = random.Random(core.SEED * 61 + 15)
    c.bounds = ['every byte string of one to three bytes in about 130 lexical and syntactic contexts, of two characters in option arguments', 'nine programs with any byte (thorough: any two bytes) replaced at %s positions, and cut off before any byte' % ('chosen' if quick else 'all'), 'random token sequences with a token chosen symbolically', 'a run of more than 80 million instructions counts as not terminating']
    c.outside = ['deep nesting and sizes that exhaust the stack or memory', 'object files as input', 'undefined arithmetic that does not trap']
    c.assumptions = ['exit(1) with any message counts as a diagnostic, including internal errors']
    lit.jobs(c, contexts(), per=1)
    lit.jobs(c, bytes_(R, 40 if quick else 3000, 1), per=2); lit.jobs(c, trunc(), per=10)
    if not quick: lit.jobs(c, bytes_(R, 100, 2), per=1)
    lit.jobs(c, tokens(R, 1000 if quick else 6000, 4), per=10)
    return c
