"""Driver shared by all checks: builds the compiler from /repo as LLVM bitcode (for the symbolic
executor) and as native binaries (for replay), runs symbolic jobs, replays what they report."""
import os, sys, json, time, shutil, hashlib, subprocess, tempfile, atexit, fcntl, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/lib/llvm-18/bin/clang'
CLANGXX = '/usr/lib/llvm-18/bin/clang++'
LINK = '/usr/lib/llvm-18/bin/llvm-link'
OPT = '/usr/lib/llvm-18/bin/opt'
LLVMINC = '/usr/lib/llvm-18/include'
LLVMLIB = '/usr/lib/llvm-18/lib'
HFLAGS = ['-w', '-fno-builtin', '-fno-pic', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-aliasing', '-fwrapv', '-ffp-contract=off', '-mno-sse3', '-std=gnu11', '-emit-llvm', '-c', '-I' + VERIF + '/rt']
# The reference is compiled without optimisation: the plain meaning of the source.
RFLAGS = ['-w', '-fno-builtin', '-O0', '-Xclang', '-disable-O0-optnone', '-fwrapv', '-ffine-grained-bitfield-accesses', '-fno-strict-aliasing', '-ffp-contract=off', '-mno-sse3', '-std=gnu11', '-emit-llvm', '-c', '-I' + VERIF + '/rt']
NPROC = max(1, min(8, os.cpu_count() or 1))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        sys.stdout.write(p.stdout.decode('utf8', 'replace')[-4000:])
        raise SystemExit('command failed: ' + ' '.join(cmd))
    return p.stdout


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def rt_files(sub, exts):
    d = os.path.join(VERIF, sub)
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(exts)]


def setup():
    """Builds the engine and the runtime bitcode if they are missing or out of date."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest(rt_files('engine', ('.h', '.cpp')) + rt_files('rt', ('.h', '.c')), ' '.join(HFLAGS))
        stamp = os.path.join(BUILD, 'stamp')
        if os.path.exists(stamp) and open(stamp).read() == key:
            return
        jobs = [[CLANGXX, '-O2', '-g0', '-std=c++17', '-fno-rtti', '-I' + LLVMINC, VERIF + '/engine/symx.cpp', '-o', BUILD + '/symx', '-L' + LLVMLIB, '-lLLVM-18', '-lz3']]
        for m in ('libc', 'emu', 'load'):
            jobs.append([CLANG] + HFLAGS + [VERIF + '/rt/%s.c' % m, '-o', BUILD + '/%s.bc' % m])
        for m in ('native', 'load'):
            jobs.append([CLANG, '-w', '-O1', '-std=gnu11', '-I' + VERIF + '/rt', '-c', VERIF + '/rt/%s.c' % m, '-o', BUILD + '/n%s.o' % m])
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(run, jobs))
        open(stamp, 'w').write(key)


class Job:
    def __init__(self, name, harness, ref=None, arg=0, arg2=0, sarg='', timeout=None, qtimeout=20000, uninit=False, maxviol=3,
                 traces=2, emu=True, abi=None, desc='', seed=None, replay_env=None):
        self.name = name; self.harness = harness; self.ref = ref; self.arg = arg; self.arg2 = arg2; self.sarg = sarg
        self.timeout = timeout; self.qtimeout = qtimeout; self.uninit = uninit; self.maxviol = maxviol; self.traces = traces
        self.emu = emu; self.desc = desc; self.seed = SEED if seed is None else seed
        self.res = None; self.replayable = True


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop; self.level = level; self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir='/tmp')
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        self.jobs = []; self.bounds = []; self.outside = []; self.assumptions = []; self.notes = []
        self.deadline = float(os.environ.get('VERIF_DEADLINE', '170' if TIER == 'quick' else '800'))
        self.jobtimeout = 60 if TIER == 'quick' else 300
        setup()
        self._bc = {}; self._nat = {}
        self.build_cc()

    # ------------------------------------------------------------ building the compiler under test
    def build_cc(self):
        w = self.work
        cfg = os.path.join(w, 'config.h')
        text = open(REPO + '/config.def.h').read()
        text = text.replace('\t"/usr/include/",', '\t"/usr/include/",\n\t"/usr/include/x86_64-linux-gnu/",', 1)
        open(cfg, 'w').write(text)
        self.srcs = sorted(os.path.join(d, f) for d, _, fs in os.walk(REPO + '/src') for f in fs if f.endswith('.c'))
        os.mkdir(w + '/bc'); os.mkdir(w + '/nat')
        inc = ['-I' + w, '-I' + REPO + '/src', '-I' + REPO, '-DCONFIG_PATH="config.h"']
        bcs, objs, cmds = [], [], []
        for i, s in enumerate(self.srcs):
            b = w + '/bc/%d.bc' % i; o = w + '/nat/%d.o' % i; bcs.append(b); objs.append(o)
            cmds.append([CLANG, '-w', '-std=c11', '-Dmain=cc_main'] + inc + ['-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', s, '-o', b])
            cmds.append(['gcc', '-w', '-O0'] + inc + ['-c', s, '-o', o])
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(lambda c: subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), cmds))
        for c, r in zip(cmds, rs):
            if r.returncode:
                sys.stdout.write(r.stdout.decode('utf8', 'replace')[-2000:]); print('ERROR: /repo does not compile: ' + ' '.join(c)); sys.exit(2)
        run([LINK] + bcs + ['-o', w + '/cc0.bc'])
        run([OPT, '-passes=sroa,early-cse,simplifycfg', w + '/cc0.bc', '-o', w + '/cc.bc'])
        run(['gcc', '-o', w + '/cc'] + objs)
        self.inc = inc

    def asan_cc(self):
        p = self.work + '/cc-asan'
        if not os.path.exists(p):
            run([CLANG, '-w', '-std=c11', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address'] + self.inc + self.srcs + ['-o', p])
        return p

    _initlock = threading.Lock()
    def init_cc(self, how):
        """the compiler with uninitialised locals zeroed or filled with a pattern"""
        p = self.work + '/cc-' + how
        with self._initlock:
            if not os.path.exists(p): run(['gcc', '-w', '-std=gnu11', '-O0', '-ftrivial-auto-var-init=' + how] + self.inc + self.srcs + ['-o', p])
        return p

    # ------------------------------------------------------------ jobs
    def add(self, job):
        self.jobs.append(job); return job

    def source(self, text, name):
        p = os.path.join(self.work, name); open(p, 'w').write(text); return p

    def bitcode(self, src, ref=False):
        key = (src, ref)
        if key not in self._bc:
            out = self.work + '/h%d.bc' % len(self._bc); self._bc[key] = out
            run([CLANG] + (RFLAGS if ref else HFLAGS) + [src, '-o', out])
            if ref:
                run([OPT, '-passes=mem2reg,early-cse,simplifycfg', out, '-o', out])
        return self._bc[key]

    def native(self, job):
        key = (job.harness, job.ref)
        if key not in self._nat:
            out = self.work + '/n%d' % len(self._nat); self._nat[key] = out
            objs = []
            for k, s in enumerate([job.harness] + ([job.ref] if job.ref else [])):
                o = out + '.%d.o' % k
                run([CLANG, '-w', '-O0' if k else '-O1', '-fwrapv', '-fno-strict-aliasing', '-ffp-contract=off', '-std=gnu11', '-I' + VERIF + '/rt', '-c', s, '-o', o]); objs.append(o)
            run([CLANG] + objs + [BUILD + '/nnative.o', BUILD + '/nload.o', '-o', out, '-lm'])
        return self._nat[key]

    def replay(self, job, vals, cc=None):
        exe = self.native(job)
        d = tempfile.mkdtemp(prefix='rp', dir=self.work)
        os.symlink(REPO + '/include', d + '/include')
        write_vals(d + '/vals', vals)
        if job.uninit and not cc: cc = self.init_cc('zero')
        env = dict(os.environ, **({'HX_CC2': self.init_cc('pattern')} if job.uninit else {}), HX_CC=cc or self.work + '/cc', HX_ARG=str(job.arg), HX_ARG2=str(job.arg2), HX_SEED=str(job.seed), HX_SARG=REPO + ';' + job.sarg, ASAN_OPTIONS='exitcode=99:detect_leaks=0')
        try:
            p = subprocess.run([exe, 'vals'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
            rc, out = p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, out = 124, 'timeout'
        shutil.rmtree(d, ignore_errors=True)
        return rc, out

    def run_job(self, job):
        left = self.t0 + self.deadline - time.time()
        if left < 3:
            job.res = {'skipped': True}; return
        to = min(job.timeout or self.jobtimeout, left)
        out = '%s/o%d.json' % (self.work, id(job))
        cmd = [BUILD + '/symx', '--cc', self.work + ('/cc0.bc' if job.uninit else '/cc.bc'), BUILD + '/libc.bc'] + ([BUILD + '/emu.bc', BUILD + '/load.bc'] if job.emu else [])
        cmd += [self.bitcode(job.harness)] + ([self.bitcode(job.ref, True)] if job.ref else [])
        cmd += ['--arg', str(job.arg), '--arg2', str(job.arg2), '--sarg', REPO + ';' + job.sarg, '--seed', str(job.seed), '--timeout', '%.0f' % to, '--qtimeout', str(job.qtimeout), '--maxviol', str(job.maxviol), '--traces', str(job.traces), '-o', out]
        if job.uninit: cmd.append('--uninit')
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to + 60)
            tail = p.stdout.decode('utf8', 'replace')[-500:]
            if os.environ.get('SYMX_DUMP'): sys.stderr.write(p.stdout.decode('utf8', 'replace'))
        except subprocess.TimeoutExpired:
            tail = 'engine timeout'
        if os.environ.get('SYMX_TIMES'): sys.stderr.write('%6.1f %s\n' % (time.time() - t, job.name))
        try:
            job.res = json.load(open(out)); os.unlink(out)
        except Exception:
            job.res = {'engine_failure': tail or 'no output'}
        job.res['job_s'] = round(time.time() - t, 2)

    # ------------------------------------------------------------ verdict
    def finish(self, technique_note=''):
        # compile harnesses first (cheap, avoids races), then run
        srcs = []
        for j in self.jobs:
            for s, r in ((j.harness, False), (j.ref, True)):
                if s and (s, r) not in srcs: srcs.append((s, r))
        for n, (s, r) in enumerate(srcs):
            self._bc[(s, r)] = self.work + '/h%d.bc' % n
        def comp(k):
            s, r = k; out = self._bc[k]
            run([CLANG] + (RFLAGS if r else HFLAGS) + [s, '-o', out])
            if r: run([OPT, '-passes=mem2reg,early-cse,simplifycfg', out, '-o', out])
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(comp, srcs))
            list(ex.map(self.run_job, self.jobs))
        known = load_known(self.prop)
        used, viols, unconfirmed, validated, mismatched = set(), [], [], 0, []
        tot = {k: 0 for k in ('paths', 'completed', 'forks', 'instrs', 'queries', 'sat', 'unsat', 'unknown', 'checks', 'checks_trivial', 'checks_solver', 'undecided', 'solver_s', 'killed')}
        funcs, checkmsgs, reach, incomplete, samples, jobrows = set(), {}, {}, [], [], []
        cand = []
        for j in self.jobs:
            r = j.res or {'skipped': True}
            if 'paths' not in r:
                incomplete.append('%s: %s' % (j.name, r.get('engine_failure') or 'not run (time budget)')); continue
            for k in tot: tot[k] += r.get(k, 0)
            funcs.update(r['functions'])
            for k, v in r['checkmsgs'].items(): checkmsgs[k] = checkmsgs.get(k, 0) + v
            for k, v in r['reach'].items(): reach[k] = reach.get(k, 0) + v
            if r['incomplete']: incomplete.append('%s: %s' % (j.name, r['incomplete']))
            for k, v in r['errors'].items(): incomplete.append('%s: model gap: %s (x%d)' % (j.name, k, v))
            if r['undecided']: incomplete.append('%s: %d checks undecided' % (j.name, r['undecided']))
            if r['completed'] == 0 and not r['violations']: incomplete.append('%s: no path completed' % j.name)
            samples += [{'job': j.name, 'path': t['notes'][:200], 'inputs': {k: v[:16] for k, v in t['vals'].items()}} for t in r['traces'][:1]]
            jobrows.append({'job': j.name, 'paths': r['completed'], 'checks': r['checks'], 'queries': r['queries'], 'solver_s': round(r['solver_s'], 2), 's': r['job_s']})
            for v in r['violations']: cand.append((j, v))
        # replay in parallel: violations first, then sampled passing paths
        def rep(jv):
            j, v = jv
            key = vkey(j, v)
            if key in known: return (j, v, key, 'known', '')
            if not j.replayable: return (j, v, key, 'confirmed', v['msg'])
            rc, out = self.replay(j, v['vals'])
            if rc == 1 and confirms(out): return (j, v, key, 'confirmed', out)
            rc2, out2 = self.replay(j, v['vals'], self.asan_cc())
            if rc2 == 1 and confirms(out2): return (j, v, key, 'confirmed', out2)
            return (j, v, key, 'unconfirmed', 'rc=%d %s' % (rc, out[-300:]))
        for j, v in cand: self.native(j)
        if cand: self.asan_cc()
        with ThreadPoolExecutor(NPROC) as ex:
            reps = list(ex.map(rep, cand))
        for j, v, key, st, out in reps:
            if st == 'known': used.add(key)
            elif st == 'confirmed': viols.append((j, v, key, out))
            else: unconfirmed.append({'job': j.name, 'msg': v['msg'], 'vals': v['vals'], 'native': out})
        # sampled completed paths agree natively
        tr, seen = [], set()
        for j in self.jobs:
            for t in (j.res or {}).get('traces', [])[:j.traces]:
                if j.replayable: tr.append((j, t))
        maxtr = 64 if TIER == 'quick' else 400
        if len(tr) > maxtr: tr = tr[:: max(1, len(tr) // maxtr)][:maxtr]
        tr = [(j, t) for j, t in tr if not any(c[0] is j for c in cand)]
        keys = []
        for j, _ in tr:
            if (j.harness, j.ref) not in keys: keys.append((j.harness, j.ref))
        if time.time() - self.t0 < self.deadline + 60:
            firsts = {}
            for j, _ in tr: firsts.setdefault((j.harness, j.ref), j)
            for n, k in enumerate(firsts):  # assign output names before building in parallel
                pass
            def nat(j):
                return self.native(j)
            for j in firsts.values(): pass
            with ThreadPoolExecutor(NPROC) as ex:
                list(ex.map(self._native_par, list(firsts.values())))
                rs = list(ex.map(lambda jt: self.replay(jt[0], jt[1]['vals']), tr))
            for (j, t), (rc, out) in zip(tr, rs):
                if rc == 0: validated += 1
                elif rc == 77: pass
                else:
                    if rc == 1 and confirms(out):
                        key = vkey(j, {'msg': out.strip().splitlines()[0]})
                        if key in known: used.add(key)
                        else: viols.append((j, {'msg': 'native run disagrees on a sampled path: ' + out.strip().splitlines()[0], 'vals': t['vals'], 'notes': t['notes']}, key, out))
                    else: mismatched.append({'job': j.name, 'native': 'rc=%d %s' % (rc, out[-200:]), 'vals': t['vals']})
        for key in sorted(known):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[key]))
        rdir = os.path.join(VERIF, 'evidence', 'replays')
        seenk = set()
        for n, (j, v, key, out) in enumerate(viols):
            if key in seenk: continue
            seenk.add(key)
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, '%s-%d.json' % (self.prop, n))
            json.dump({'property': self.prop, 'job': j.name, 'key': key, 'message': v['msg'], 'path_notes': v.get('notes', ''), 'values': v['vals'], 'native_output': out[-2000:], 'how': 'python3-vt run.py %s --replay this-file' % self.prop}, open(p, 'w'), indent=1)
            print('  %s [%s]: %s | %s | %s' % (self.prop, j.name, v['msg'], v.get('notes', '')[:300], json.dumps(v['vals'])[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        for u in unconfirmed[:10]: print('  unconfirmed (not reported): ' + json.dumps(u)[:400])
        for u in mismatched[:10]: print('  native trace mismatch: ' + json.dumps(u)[:400])
        for m in incomplete[:20]: print('  inconclusive: ' + m[:300])
        njobs = len(self.jobs)
        ev = {'property': self.prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(seenk),
              'coverage': {'states': int(tot['completed']), 'transitions': int(tot['forks']), 'traces_validated_against_impl': validated, 'samples': samples[:12] or [{'none': True}],
                           'jobs': njobs, 'paths_completed': tot['completed'], 'branch_forks': tot['forks'], 'ir_instructions_executed': tot['instrs'],
                           'assertions': tot['checks'], 'assertions_decided_by_simplification': tot['checks_trivial'], 'assertions_decided_by_solver': tot['checks_solver'],
                           'queries': {'total': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown']}, 'solver_s': round(tot['solver_s'], 2),
                           'functions_encoded': len(funcs), 'functions': sorted(funcs), 'assertion_hits': dict(sorted(checkmsgs.items())[:200]), 'reached': reach,
                           'bounds': self.bounds, 'outside_bounds': self.outside, 'inconclusive': incomplete[:60], 'unconfirmed': unconfirmed[:20], 'native_trace_mismatches': mismatched[:20], 'slowest_jobs': sorted(jobrows, key=lambda x: -x['s'])[:10]},
              'assumptions': self.assumptions}
        if self.level == 'translation_validation':
            ev['coverage']['programs'] = njobs; ev['coverage']['disagreements_checked'] = len(cand)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)
        print('%s %s: %d jobs, %d paths, %d assertions (%d by solver), %d queries %.1fs solver, %d traces replayed natively, %d inconclusive, %d unconfirmed, wall %.1fs' % (self.prop, TIER, njobs, tot['completed'], tot['checks'], tot['checks_solver'], tot['queries'], tot['solver_s'], validated, len(incomplete), len(unconfirmed), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if seenk else 0

    def _native_par(self, job):
        key = (job.harness, job.ref)
        if key in self._nat: return
        out = self.work + '/np%d' % abs(hash(key)); objs = []
        for k, s in enumerate([job.harness] + ([job.ref] if job.ref else [])):
            o = out + '.%d.o' % k
            run([CLANG, '-w', '-O0' if k else '-O1', '-fwrapv', '-fno-strict-aliasing', '-ffp-contract=off', '-std=gnu11', '-I' + VERIF + '/rt', '-c', s, '-o', o]); objs.append(o)
        run([CLANG] + objs + [BUILD + '/nnative.o', BUILD + '/nload.o', '-o', out, '-lm'])
        self._nat[key] = out


def confirms(out):
    return any(l.startswith(('FAILED', 'ABORT')) for l in out.splitlines())


def vkey(j, v):
    m = v['msg']
    for p in ('FAILED ', 'ABORT '):
        if m.startswith(p): m = m[len(p):]
    return '%s/%s' % (j.name.split('[')[0], m) # messages name the case


def load_known(prop):
    res = {}
    p = VERIF + '/KNOWN_FINDINGS.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s key=' % prop):
                rest = l.split('key=', 1)[1]; key, what = rest.split(' :: ', 1); res[key] = what
    return res


def write_vals(p, vals):
    with open(p, 'w') as f:
        for k, v in vals.items():
            f.write('%s %d %s\n' % (k, len(v), ' '.join(map(str, v))))
