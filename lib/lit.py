"""Generator side of the source-template harness (harness/lit.c)."""
import core
from core import VERIF
from tv import cstr
def cbytes(b):
    """C string literal of arbitrary bytes"""
    if isinstance(b, str): b = b.encode('latin-1')
    return '"' + ''.join(chr(c) if 32 <= c < 127 and chr(c) not in '"\\?' else '\\%03o' % c for c in b) + '"'
H = '\x01'
class Cases:
    def __init__(self, name, prelude=''): self.name = name; self.prelude = prelude; self.l = []
    def add(self, name, src, sets, ref, args='-c\n-o\nt.o'):
        """src/args: text with H at every hole (holes of src first); sets: per hole a string of lo,hi pairs ('' any byte); ref: C statements over h[] and e"""
        n = src.count(H) + args.count(H)
        if len(sets) != n: raise Exception('%s: %d holes, %d sets' % (name, n, len(sets)))
        self.l.append((name, src, args, sets, ref))
    def write(self, chk):
        t = '#include "%s/harness/lit.h"\nvoid *memset(void *, int, unsigned long); void *memcpy(void *, const void *, unsigned long); unsigned long strlen(const char *); void *malloc(unsigned long);\n%s\n' % (VERIF, self.prelude); tab = []
        for k, (name, src, args, sets, ref) in enumerate(self.l):
            t += 'static void r_%d(const uint8_t *h, struct lexp *e) { %s }\nstatic const char *const s_%d[] = {%s};\n' % (k, ref, k, ', '.join([cbytes(x) for x in sets] + ['0']))
            tab.append('{%s, %s, %s, s_%d, %d, r_%d}' % (cstr(name), cbytes(src), cbytes(args), k, len(sets), k))
        t += 'const struct lcase l_cases[] = {\n' + ',\n'.join(tab) + '};\nconst int l_ncases = %d;\n' % len(tab)
        return chk.source(t, 'lit_%s.c' % self.name)
def jobs(chk, cases, per=None, harness='lit.c', **kw):
    ref = cases.write(chk); n = len(cases.l); per = per or n; res = []
    for k in range(0, n, per):
        j = core.Job('%s[%d:%d]' % (cases.name, k, min(n, k + per)), VERIF + '/harness/' + harness, ref=ref, arg=k, arg2=min(per, n - k), **kw)
        res.append(chk.add(j))
    return res
