"""Generator for harness/interop.c: signatures compiled by both compilers."""
import os, subprocess
import core
from core import VERIF
from tv import INT, FLT, cstr
CL = core.CLANG if hasattr(core, 'CLANG') else '/usr/lib/llvm-18/bin/clang'

class Ty:
    """name: usable as a type name; leaves: [(path, type)] of aggregates, None for scalars"""
    def __init__(s, name, defn='', leaves=None, hname=None): s.name = name; s.defn = defn; s.leaves = leaves; s.hname = hname or name
def scalar(n): return Ty(n)

class Sig:
    def __init__(s, args, ret, nfix=None, desc=None, va='direct', ptr=False):
        s.args = args; s.ret = ret; s.nfix = nfix; s.va = va; s.ptr = ptr
        names = [a.name for a in args]
        if nfix is not None: names = names[:nfix] + ['...'] + names[nfix:]
        s.desc = desc or '%s (%s)%s' % (ret.name if ret else 'void', ', '.join(names), '' if nfix is None else ' ' + va)
    def proto(s, nm):
        a = ['%s a%d' % (t.name, k) for k, t in enumerate(s.args[:s.nfix] if s.nfix is not None else s.args)]
        if s.nfix is not None: a.append('...')
        return '%s %s(%s)' % (s.ret.name if s.ret else 'void', nm, ', '.join(a) or 'void')

def source(types, sigs, own, other, gcc):
    o = ''.join(t.defn for t in types)
    o += 'unsigned char *%s_out, *%s_ret;\n' % (own, own)
    if gcc: o += 'long long b_align;\n#define ALIGN() (b_align |= (unsigned long long)__builtin_frame_address(0) & 15)\n#define TOUCH(x) (*(unsigned char *)&(x) ^= 0x5c); __asm__ volatile("" :: "r"(&(x)) : "memory")\n'
    else: o += '#define ALIGN() (void)0\n#define TOUCH(x) (*(unsigned char *)&(x) ^= 0x5c)\n'
    for k, s in enumerate(sigs):
        O = 'O%d_' % k
        ret = 'return *(%s *)%s_ret;' % (s.ret.name, own) if s.ret else ''
        if s.nfix is None:
            body = ''.join('*(%s *)(%s_out + %s%d) = a%d; ' % (t.name, own, O, i, i) for i, t in enumerate(s.args))
        else:
            fixed = ''.join('*(%s *)(%s_out + %s%d) = a%d; ' % (t.name, own, O, i, i) for i, t in enumerate(s.args[:s.nfix]))
            get = ''.join('*(%s *)(%s_out + %s%d) = __builtin_va_arg(%%s, %s); ' % (t.name, own, O, i + s.nfix, t.name) for i, t in enumerate(s.args[s.nfix:]))
            last = 'a%d' % (s.nfix - 1); start = '__builtin_va_list ap; __builtin_va_start(ap, %s); ' % last
            if s.va == 'direct': body = start + fixed + get.replace('%s', 'ap') + '__builtin_va_end(ap); '
            elif s.va == 'copy': body = start + '__builtin_va_list aq; __builtin_va_copy(aq, ap); ' + get.replace('%s', 'aq').replace('_out +', '_out + 0 +') + fixed + get.replace('%s', 'ap') + '__builtin_va_end(ap); __builtin_va_end(aq); '
            else:
                o += 'void %s_v%d(__builtin_va_list ap) { %s}\nvoid %s_v%d(__builtin_va_list ap);\n' % (own, k, get.replace('%s', 'ap'), other, k)
                body = start + fixed + '%s_v%d(ap); __builtin_va_end(ap); ' % (other, k)
        body += ''.join('TOUCH(a%d); ' % i for i, t in enumerate(s.args[:s.nfix] if s.nfix is not None else s.args) if t.leaves is not None)
        o += '%s;\n%s { ALIGN(); %s%s}\n' % (s.proto('%s_f%d' % (other, k)), s.proto('%s_f%d' % (own, k)), body, ret)
        a = ', '.join('*(%s *)(in + %s%d)' % (t.name, O, i) for i, t in enumerate(s.args))
        fn = '%s_f%d' % (other, k); pre = ''
        if s.ptr: pre = '%s = %s; ' % (s.proto('(*fp)'), fn); fn = 'fp' if k % 2 else '(*fp)'
        o += 'void %s_c%d(unsigned char *in, unsigned char *ro) { %s%s%s(%s); }\n' % (own, k, pre, '*(%s *)ro = ' % s.ret.name if s.ret else '', fn, a)
    return o

def build(chk, name, types, sigs, ms=False, per=12, flags=''):
    """one peer object and a set of jobs"""
    # layout computed by the peer compiler's target
    T = ['--target=x86_64-w64-mingw32'] if ms else []
    if ms: types = [Ty('LONG', '#define LONG long\n')] + [t for t in types if t.name != 'LONG']
    hdr = ''.join(t.defn for t in types)
    # argument offsets: 16-byte slots, sizes rounded up
    pr = hdr + ''.join('char s%d_%d[sizeof(%s) + 1];\n' % (k, i, t.name) for k, s in enumerate(sigs) for i, t in enumerate(s.args)) + ''.join('char r%d[sizeof(%s) + 1];\n' % (k, s.ret.name) for k, s in enumerate(sigs) if s.ret)
    p = chk.source(pr, 'sz_%s.c' % name)
    ll = subprocess.run([CL] + T + ['-w', '-S', '-emit-llvm', '-O0', p, '-o', '-'], stdout=subprocess.PIPE, check=True).stdout.decode()
    import re
    sz = {m.group(1): int(m.group(2)) - 1 for m in re.finditer(r'@(s\d+_\d+|r\d+) = .*?\[(\d+) x i8\]', ll)}
    offs = []; defs = ''
    for k, s in enumerate(sigs):
        o = 0; l = []
        for i, t in enumerate(s.args): l.append(o); defs += '#define O%d_%d %d\n' % (k, i, o); o += (sz['s%d_%d' % (k, i)] + 31) & ~15
        offs.append((l, o))
    ours = defs + source(types, sigs, 'a', 'b', False); theirs = defs + source(types, sigs, 'b', 'a', True)
    peer = chk.source(theirs, 'peer_%s.c' % name); obj = chk.work + '/peer_%s.o' % name
    if ms: cmd = ['x86_64-w64-mingw32-gcc', '-w', '-O1', '-ffreestanding', '-fno-builtin', '-mno-stack-arg-probe', '-fno-tree-vectorize', '-fcf-protection=none', '-fno-stack-protector', '-fno-asynchronous-unwind-tables', '-fno-strict-aliasing', '-fno-omit-frame-pointer', '-c', peer, '-o', obj]
    else: cmd = ['gcc', '-w', '-O1', '-fcf-protection=none', '-fno-stack-protector', '-fno-pic', '-fno-pie', '-fno-builtin', '-fno-strict-aliasing', '-fno-asynchronous-unwind-tables', '-fno-tree-vectorize', '-fno-omit-frame-pointer', '-c', peer, '-o', obj]
    core.run(cmd)
    # harness tables
    ref = '#include "%s/harness/interop.h"\n' % VERIF + ''.join(t.defn.replace('#define LONG long', '#define LONG int') if ms else t.defn for t in types)
    tab = []
    for k, s in enumerate(sigs):
        body = ''; pre = []
        for i, t in [(-1, s.ret)] * bool(s.ret) + list(enumerate(s.args)):
            base = ('in + %d' % offs[k][0][i]) if i >= 0 else 'ret'
            if t.leaves is None: cp = '*(%s *)d = *(%s *)s;' % (INTY(t.name), INTY(t.name)); pre += ['*(%s) < 2' % base] if t.name == '_Bool' else []
            else:
                cp = '%s *x = (void *)d; const %s *y = (const void *)s; ' % (t.name, t.name)
                for path, ty, w in t.leaves:
                    if w: cp += 'x->%s = y->%s; ' % (path, path)
                    else: it = INTY(ty); cp += '*(%s *)&x->%s = *(const %s *)&y->%s; ' % (it, path, it, path)
                    if ty == '_Bool' and not w: pre.append('*(unsigned char *)&((%s *)(%s))->%s < 2' % (t.name, base, path))
            body += 'case %d: { %s break; } ' % (i, cp)
        ref += 'static void n%d(int k, unsigned char *d, const unsigned char *s) { switch (k) { %s } }\n' % (k, body)
        if pre: ref += 'static int p%d(const unsigned char *in, const unsigned char *ret) { return %s; }\n' % (k, ' & '.join('(%s)' % x for x in pre))
        ref += 'static const unsigned off%d[] = {%s};\n' % (k, ', '.join(map(str, offs[k][0])) or '0')
        retmem = 1 if s.ret and s.ret.leaves is not None and (sz['r%d' % k] not in (1, 2, 4, 8) if ms else sz['r%d' % k] > 16) else 0
        tab.append('{%s, %d, off%d, %d, %d, %d, n%d, %s}' % (cstr(s.desc[:170]), len(s.args), k, offs[k][1], sz.get('r%d' % k, 0), retmem, k, 'p%d' % k if pre else '0'))
    ref += 'const struct iosig io_sigs[] = {%s};\nconst int io_nsigs = %d; const int io_ms = %d; const char *const io_peer = "%s";\n' % (',\n'.join(tab), len(sigs), ms, obj)
    parts = [ours[i:i + 2000] for i in range(0, len(ours), 2000)]
    ref += 'const char *const io_src[] = {%s, 0};\n' % ',\n'.join(cstr(x) for x in parts)
    rf = chk.source(ref, 'io_%s.c' % name); n = len(sigs)
    for k in range(0, n, per): chk.add(core.Job('%s[%d:%d]' % (name, k, min(n, k + per)), VERIF + '/harness/interop.c', ref=rf, arg=k, arg2=min(per, n - k), sarg=flags))

def INTY(t):
    if t.endswith('*'): return 'unsigned long long'
    if t == 'float': return 'unsigned'
    if t == 'double': return 'unsigned long long'
    if t == '_Bool': return 'unsigned char'
    return t
