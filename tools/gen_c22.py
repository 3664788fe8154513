"""Makes data/c22.json: verdicts of clang (an independent implementation of the constraints) on programs and violations.
Run by hand when the tables change; the check itself reads the committed file and knows nothing of clang."""
import os, sys, re, json, subprocess, threading, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from c22_tables import *
W = tempfile.mkdtemp()
HARD_W = {'-Wimplicit-int', '-Wimplicit-function-declaration'}
# constraints the compiler does not enforce
NOT = re.compile("|".join(['cannot jump from', 'static declaration of .* follows', "ISO C requires a named parameter", 'illegal storage class on file', "cannot have 'extern' linkage", "'_Alignas' attribute only", "'inline' can only", "'_Noreturn' can only", "[Ii]ncomplete type 'struct I'", "incomplete type 'enum", 'incomplete result type', 'incomplete return type',
  'invalid storage class specifier in function', 'flexible array member', "first argument to", 'not pointers to compatible', 'passing .*to parameter of incompatible type .*remove', 'bound in function definition', "redefinition of 'a'$", 'as different kind of symbol']))
def verdict(t):
    f = '%s/%d.c' % (W, threading.get_ident()); open(f, 'w').write(t)
    c = subprocess.run(['/usr/lib/llvm-18/bin/clang', '-std=c11', '-fsyntax-only', '-pedantic-errors', '-Wno-unused-value', '-fno-color-diagnostics', '-fno-caret-diagnostics', f], capture_output=True, text=True).stderr
    any_ = 0; hard = 0
    for m in re.finditer(r'error: (.*)', c):
        x = m.group(1); any_ = 1; w = re.search(r'\[(?:-Werror,)?(-W[\w-]+)\]', x)
        if (not w or w.group(1) in HARD_W) and not NOT.search(x): hard = 1
        elif not w and NOT.search(x): return '2'
    if not any_ and re.search(r'\* "x"|__builtin_\w+ ?:', t): return '2' # a constant only for clang; a reserved name as a label
    return '0' if hard else '2' if any_ else '1'
def main():
    ex = ThreadPoolExecutor(8); out = {'ch': CH, 'bases': BASES, 'muts': [], 'viol': []}; cache = {}
    todo = []
    for n, s in BASES.items():
        for b, e in toks(s):
            for mode in 'ri':
                todo.append((n, b, e if mode == 'r' else b, [s[:b] + c + ' ' + s[(e if mode == 'r' else b):] + '\n' for c in CH]))
    allv = list(ex.map(verdict, [t for x in todo for t in x[3]])); k = 0
    for n, b, e, l in todo:
        out['muts'].append([n, b, e, ''.join(allv[k:k + len(l)])]); k += len(l)
    viol = []
    for kind, pre, texts, ctxs in VIOL:
        for x in texts: viol.append((kind, x, [pre + c.replace('@', x) + '\n' for c in ctxs]))
    allv = list(ex.map(verdict, [t for v in viol for t in v[2]])); k = 0
    for kind, x, l in viol: out['viol'].append([kind, x, ''.join(allv[k:k + len(l)])]); k += len(l)
    for v in out['viol']:
        if v[1] in LENIENT: v[2] = v[2].replace('1', '2')
    open(HERE + '/../data/c22.json', 'w').write(json.dumps(out, separators=(',', ':')).replace('],[', '],\n['))
main()
