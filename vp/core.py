"""Shared machinery: build the engine, compile harnesses against /repo, run the symbolic engine, replay counterexamples natively."""
import concurrent.futures as cf, glob, threading, hashlib, json, os, shutil, subprocess, sys, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ENGINE = os.path.join(BUILD, 'engine', 'vpexec')
INC = os.path.join(REPO, 'include')
OPT = '/usr/lib/llvm-18/bin/opt'
CORES = int(os.environ.get('VP_CORES', os.cpu_count() or 8))
T0 = time.time()

MEM = {'oob_read', 'oob_write', 'uaf', 'null', 'align', 'bad_free', 'double_free', 'mismatched_free', 'input_write', 'overlap', 'const_write', 'unreachable', 'terminate', 'uncaught', 'div0', 'stack'}
UNINIT = {'uninit_branch', 'uninit_addr', 'uninit_out'}
RT = {'rt_alloc', 'rt_io', 'rt_lock', 'rt_throw'}

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def build_engine():
    os.makedirs(os.path.join(BUILD, 'engine'), exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        z = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
        args = [] if os.path.exists(z + '/include/z3++.h') else ['Z3LIB=-lz3', 'Z3INC=']
        r = sh(['make', '-s', '-j%d' % CORES, '-C', os.path.join(VERIF, 'engine'), 'B=' + os.path.join(BUILD, 'engine')] + args)
        if r.returncode:
            sys.stderr.write(r.stdout); raise SystemExit('engine build failed')
        rt = os.path.join(BUILD, 'engine')
        src = os.path.join(VERIF, 'native', 'vprt.cc')
        jobs = []
        for name, fl in (('plain', ['-O1']), ('asan', ['-O1', '-fsanitize=address,undefined', '-DVP_ASAN']), ('valgrind', ['-O1', '-DVP_VALGRIND']), ('tsan', ['-O1', '-fsanitize=thread', '-DVP_TSAN'])):
            o = os.path.join(rt, 'rt_%s.o' % name)
            if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(src):
                jobs.append((['clang++', '-std=c++17', '-w', '-g', '-c', src, '-o', o] + fl))
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(sh, jobs):
                if r.returncode: sys.stderr.write(r.stdout); raise SystemExit('native runtime build failed')

class Run:
    """One check run: compiled harnesses, engine results, confirmed violations, statistics."""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix=prop + '-', dir=BUILD)
        self.bc, self.nat, self.results = {}, {}, []; self.lock = threading.Lock(); self.natlock = {}
        self.violations, self.unconfirmed, self.known_hits = [], [], []; self.slow = 0; self.budget = 330 if tier != 'thorough' else 560
        self.validated = self.validation_mismatch = 0; self.validation_notes = []
        self.extra = {}; self.assumptions = []; self.build_errors = []
        self.nra_queries = 0; self.nra_time = 0.0; self.samples = []
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    # ---- compilation ----
    def compile_ir(self, spec):
        """spec = (harness, variant flags tuple, optimised?)"""
        h, flags, o2 = spec
        key = hashlib.sha1(repr(spec).encode()).hexdigest()[:10]
        raw, out = (os.path.join(self.dir, '%s-%s.%s.bc' % (h, key, k)) for k in ('0', '1'))
        lvl = ['-O2'] if o2 else ['-O0', '-Xclang', '-disable-O0-optnone']
        fl = [f for f in flags]
        std = [] if any(f.startswith('-std=') for f in fl) else ['-std=c++11']
        for stl in (['-DVP_IR', '-include', os.path.join(VERIF, 'harness', 'stlcfg.h')], []):   # without the library bodies if they do not suit this code
          r = sh(['clang++'] + std + ['-g', '-w'] + stl + ['-I' + INC, '-I' + os.path.join(VERIF, 'harness'), '-emit-llvm', '-c'] + lvl + fl + [os.path.join(VERIF, 'harness', h + '.cc'), '-o', raw])
          if r.returncode == 0: break
        if r.returncode: return spec, None, r.stdout[-2000:]
        if o2: return spec, raw, ''
        r = sh([OPT, '-passes=always-inline,function(sroa,instsimplify,early-cse)', raw, '-o', out])
        return spec, (out if r.returncode == 0 else None), r.stdout[-2000:]
    def compile_native(self, h, flags=(), kind='plain', opt='-O1'):
        key = (h, tuple(flags), kind, opt)
        with self.lock: lk = self.natlock.setdefault(key, threading.Lock())
        with lk:
            if key not in self.nat: self.nat[key] = self._compile_native(h, flags, kind, opt, key)
            return self.nat[key]
    def _compile_native(self, h, flags, kind, opt, key):
        tag = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
        exe = os.path.join(self.dir, '%s-%s' % (h, tag)); obj = exe + '.o'
        san = {'plain': [], 'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-DVP_ASAN'], 'valgrind': ['-g'], 'tsan': ['-fsanitize=thread', '-g']}[kind]
        std = [] if any(f.startswith('-std=') for f in flags) else ['-std=c++11']
        r = sh(['clang++'] + std + [opt, '-g1', '-w', '-fno-builtin-printf', '-fno-builtin-fprintf', '-fno-builtin-puts', '-fno-builtin-fputs', '-ffp-contract=off', '-I' + INC, '-I' + os.path.join(VERIF, 'harness')] + san + list(flags) + ['-c', os.path.join(VERIF, 'harness', h + '.cc'), '-o', obj])
        if r.returncode == 0:
            wraps = [] if kind in ('asan', 'tsan') else open(os.path.join(VERIF, 'native', 'wraps.txt')).read().split()
            r = sh(['clang++', obj, os.path.join(BUILD, 'engine', 'rt_%s.o' % kind)] + [s for s in san if s.startswith('-fsanitize')] + wraps + ['-pthread', '-o', exe])
        if r.returncode: self.build_errors.append('native %s: %s' % (h, r.stdout[-500:])); exe = None
        return exe

    # ---- engine ----
    def run_job(self, j):
        out = os.path.join(self.dir, 'r%d.json' % j['id'])
        lim = min(j.get('time', 60), max(5, self.budget - (time.time() - T0)))
        if self.slow >= 4: lim = min(lim, 12)              # several harness runs did not end: something is stuck, do not wait for all of them
        cmd = [ENGINE, '--mem=%d' % j.get('mem', 3500), '--time=%g' % lim, '--paths=%d' % j.get('paths', 200000), '--out=' + out, '--logs=%d' % j.get('logs', 1), '--fails=%d' % j.get('fails', 12)]
        cmd += ['%s=%d' % kv for kv in j['cfg'].items()] + [self.bc[j['spec']]]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=lim + 40)
            d = json.load(open(out))
        except Exception as e:
            d = {'paths': 0, 'forks': 0, 'instructions': 0, 'int_queries': 0, 'lra_queries': 0, 'fp_queries': 0, 'obligations': 0, 'obligations_distinct': 0, 'obligations_structural': 0, 'solver_time': 0, 'max_err': 0, 'float_nodes': 0,
                 'incomplete': 'engine: %s' % (str(e)[:200]), 'wall': 0, 'unsupported': [], 'functions': [], 'reach': {}, 'tags': {}, 'vars': [], 'events': [], 'fails': [], 'fail_counts': {}, 'emits': [], 'logs': []}
        try: os.unlink(out)
        except OSError: pass
        d['job'] = j
        if d['incomplete'] and ('budget' in d['incomplete'] or 'timed out' in d['incomplete']): self.slow += 1
        return d
    def execute(self, jobs):
        """jobs: dicts with h, flags, o2, cfg. Compiles what is needed, runs everything on all cores."""
        for j in jobs:
            j['spec'] = (j['h'], tuple(j.get('flags', ())), bool(j.get('o2')))
            j['id'] = len(self.results) + jobs.index(j) if False else next(_ids)
        need = sorted({j['spec'] for j in jobs if j['spec'] not in self.bc}, key=repr)
        with cf.ThreadPoolExecutor(CORES) as ex:
            for spec, bc, err in ex.map(self.compile_ir, need):
                if bc is None: self.build_errors.append('%s %s: %s' % (spec[0], ' '.join(spec[1]), err))
                else: self.bc[spec] = bc
        jobs = [j for j in jobs if j['spec'] in self.bc]
        res = []
        with cf.ThreadPoolExecutor(CORES) as ex:
            futs = []
            def go(j):
                if time.time() - T0 > self.budget: return None
                return self.run_job(j)
            for r in ex.map(go, sorted(jobs, key=lambda j: -j.get('cost', 1))):
                if r is not None: res.append(r)
                else: self.extra['jobs_skipped_by_budget'] = self.extra.get('jobs_skipped_by_budget', 0) + 1
        res.sort(key=lambda r: r['job']['id'])
        self.results += res
        return res

    # ---- native replays ----
    def native(self, exe, j, ints, mode=0, seed=1, xs=(), wild=None, kind='plain', lin=0, threads=1, timeout=60, extra=()):
        args = ['%s=%d' % kv for kv in j['cfg'].items()] + ['int:%s=%d' % (k, v) for k, v in ints.items()] + ['mode=%d' % mode, 'seed=%d' % seed, 'lin=%d' % lin, 'threads=%d' % threads]
        args += ['x:%d:%d=%.9g' % (s, i, v) for s, i, v in xs] + (['wild:%d=%d' % wild] if wild else []) + list(extra)
        cmd = [exe] + args
        if kind == 'valgrind': cmd = ['valgrind', '-q', '--error-exitcode=99', '--track-origins=no', '--undef-value-errors=yes', '--max-stackframe=8000000', '--main-stacksize=64000000'] + cmd
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1', TSAN_OPTIONS='exitcode=66:halt_on_error=1')
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env, cwd=self.dir)
        except subprocess.TimeoutExpired: return -999, 'timeout', cmd
        return r.returncode, r.stdout, cmd
    def confirm_fail(self, j, f):
        """Replay a failed obligation on the real code; returns (output, command) or None."""
        flags = tuple(j.get('flags', ())); ints = f['model']; tag = f['tag']
        exe = self.compile_native(j['h'], flags)
        if not exe: return None
        tries = []
        xs = [(s, i, v) for s, i, v in f['xs'] if v is not None and 0 <= s < 1000]
        lin = [1, 0] if f['kind'] == 'lin' else [0]
        for l in lin:
            if xs: tries += [dict(mode=m, xs=xs, lin=l) for m in ((0, 1) if f.get('path') or f['kind'] == 'assert' else (1, 0))]
            for s in (1, 2, 3): tries.append(dict(mode=0, seed=s, lin=l))
            for s in (1, 2): tries.append(dict(mode=2, seed=s, lin=l))
            for s in (0, 1, 7, 30): tries.append(dict(mode=3, seed=s, lin=l))
            tries.append(dict(mode=4, lin=l)); tries += [dict(mode=5, seed=s, lin=l) for s in (0, 3, 9)]
        if f['kind'] == 'indep':
            st = int(f['detail'].rsplit(' ', 1)[-1]) if f['detail'].rsplit(' ', 1)[-1].isdigit() else 1
            tries = [dict(mode=0, wild=(st, k)) for k in range(7)] + tries
        for st in j.get('wild', ()):          # streams that may carry any value at all
            tries += [dict(mode=0, wild=(st, k)) for k in range(3)]
        if f['kind'] in ('assert',): tries = tries[:4]
        hung = 0
        for t in tries:
            rc, out, cmd = self.native(exe, j, ints, timeout=20, **t)
            if rc == -999:
                hung += 1
                if hung > 1: return None
            if rc < 0 and rc != -999: return out[-1500:] + '\nterminated by signal %d' % -rc, cmd
            for line in out.splitlines():
                w = line.split()
                if len(w) > 3 and w[0] == 'FAIL' and (w[2] == tag or (f['kind'] == 'undef' and w[1] in ('close', 'same', 'indep'))): return out[-1500:], cmd
                if line.startswith('EXC ') and f['kind'] == 'assert': return out[-1500:], cmd
        if f['kind'] == 'undef':
            exe = self.compile_native(j['h'], flags, 'valgrind')
            if exe:
                rc, out, cmd = self.native(exe, j, ints, kind='valgrind', timeout=120)
                if rc == 99 or 'FAIL undef' in out: return out[-1500:], cmd
        return None
    def confirm_event(self, j, e):
        flags = tuple(j.get('flags', ())); ints = e['model']; c = e['cat']
        def attempt(kind, test, **kw):
            exe = self.compile_native(j['h'], flags, kind, *(['-O1']))
            if not exe: return None
            xs = [(s, i, v) for s, i, v in e.get('xs', []) if v is not None and 0 <= s < 1000]
            for t in ([dict(xs=xs)] if xs else []) + [dict(seed=1), dict(seed=2)]:
                rc, out, cmd = self.native(exe, j, ints, kind=kind, timeout=40, **dict(kw, **t))
                if test(rc, out): return out[-2500:], cmd
                if rc == -999: return None
            return None
        crash = lambda rc, out: rc < 0 and rc != -999
        if c == 'hang':
            exe = self.compile_native(j['h'], flags)
            if not exe: return None
            rc, out, cmd = self.native(exe, j, ints, timeout=30, xs=[(s, i, v) for s, i, v in e.get('xs', []) if v is not None and 0 <= s < 1000])
            return (out[-1500:] + ('\nnot finished after 30 s (a run takes milliseconds)' if rc == -999 else '\nterminated by signal %d' % -rc), cmd) if rc < 0 else None
        if c in UNINIT: return attempt('valgrind', lambda rc, out: rc == 99 or 'FAIL undef' in out)
        if c in RT or c == 'stack': return attempt('plain', lambda rc, out: ('FAIL ' + c in out) or (c == 'rt_alloc' and 'FAIL rt_free' in out) or ('FAIL assert' in out))
        if c in ('global_write', 'tls_write'): return attempt('tsan', lambda rc, out: 'data race' in out, threads=2)
        san = lambda rc, out: 'ERROR: AddressSanitizer' in out or 'runtime error:' in out or 'DEADLYSIGNAL' in out or crash(rc, out)
        r = attempt('asan', san)
        if r: return r
        r = attempt('plain', lambda rc, out: crash(rc, out) or any('FAIL ' + k in out for k in ('redzone', 'heap_overflow', 'input_write', 'double_free', 'bad_free', 'mismatched_free')) or (c in ('uncaught', 'terminate') and 'EXC ' in out))
        if r: return r
        return attempt('valgrind', lambda rc, out: rc == 99)

    # ---- verdict ----
    def judge(self, results=None, cats=(), kinds=None, event_filter=None, tags=None):
        """Replays engine findings of the given categories and records the confirmed ones as violations."""
        groups = {}
        if kinds is not None and 'same' in kinds: kinds = set(kinds) | {'samebits', 'maybe'}
        for r in results if results is not None else self.results:
            j = r['job']
            for e in r['events']:
                if (e['cat'] in cats or e['cat'] == 'hang') and (event_filter is None or event_filter(e)):
                    groups.setdefault(('event', j['h'], e['cat'], e['func'], e['line']), []).append((j, e))
            for f in r['fails']:
                if (kinds is None or f['kind'] in kinds) and (tags is None or f['tag'] in tags):
                    groups.setdefault(('fail', j['h'], f['kind'], f['tag'], j['cfg'].get('iir', 0), j['cfg'].get('sse', 0)), []).append((j, f))
        stop = min(time.time() + 200, T0 + (620 if self.tier != 'thorough' else 780)); found = []
        def one(item):
            key, lst = item
            if len(found) >= 4: return key, lst[0][0], lst[0][1], False, len(lst)
            seen, tried = set(), 0
            lst = sorted(lst, key=lambda x: (x[0]['cfg'].get('zoo', 0), len(x[1]['model']) and sum(abs(v) for v in x[1]['model'].values())))
            step = max(1, len(lst) // 6)
            for j, x in lst[:2] + lst[2::step]:
                if time.time() > stop or tried >= 7: break
                tried += 1
                c = self.confirm_event(j, x) if key[0] == 'event' else self.confirm_fail(j, x)
                if c: found.append(key); return key, j, x, c, len(lst)
            return key, lst[0][0], lst[0][1], None, len(lst)
        # compile replay binaries once before the parallel replays
        items = sorted(groups.items(), key=lambda kv: repr(kv[0]))[:48]
        for spec in sorted({(k[1], tuple(l[0][0].get('flags', ()))) for k, l in items if k[0] == 'fail'}, key=repr): self.compile_native(*spec)
        with cf.ThreadPoolExecutor(4) as ex: done = list(ex.map(one, items))
        for key, j, x, c, n in done:
            what = dict(property=self.prop, harness=j['h'], flags=list(j.get('flags', ())), cfg=j['cfg'], finding=x, occurrences=n)
            if c: self.violation(what, c[0], c[1])
            elif c is None: self.unconfirmed.append({k: what[k] for k in ('harness', 'cfg')} | {'finding': {k: x.get(k) for k in ('kind', 'cat', 'tag', 'msg', 'detail', 'func', 'line', 'idx')}, 'occurrences': n})
    def violation(self, what, output, cmd):
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'replay', '%s-%d.json' % (self.prop, len(self.violations)))
        what = dict(what, replay_command=cmd if isinstance(cmd, str) else ' '.join(cmd), native_output=output)
        what['how_to_replay'] = 'python3 /verif/check.py --replay ' + path
        with open(path, 'w') as f: json.dump(what, f, indent=1)
        self.violations.append((path, what))

    # ---- translator validation ----
    def validate(self, limit=12):
        """Same harness, same inputs: engine's concrete evaluation of its terms versus the native binary, bit for bit."""
        cand = [r for r in self.results if r['logs'] and r['job'].get('validate', True)]
        if not cand or self.violations: return
        step = max(1, len(cand) // limit); cand = cand[::step][:limit]
        for spec in sorted({(r['job']['h'], tuple(r['job'].get('flags', ()))) for r in cand}, key=repr): pass
        specs = sorted({(r['job']['h'], tuple(r['job'].get('flags', ()))) for r in cand}, key=repr)
        with cf.ThreadPoolExecutor(CORES) as ex: list(ex.map(lambda s: self.compile_native(*s), specs))
        def one(r):
            j = r['job']; exe = self.nat.get((j['h'], tuple(j.get('flags', ())), 'plain', '-O1'))
            if not exe: return []
            o = []
            for l in r['logs'][:1]:
                rc, out, cmd = self.native(exe, dict(j, cfg=dict(j['cfg'], **j.get('vcfg', {}))), l['ints'], timeout=30)
                ok = ('LOG count=%d hash=%s ' % (l['count'], l['hash'])) in out
                if not l['count']: ok = ok and (rc == 0 or bool(r['fails'] or r['events']))      # only assertions on this path: all hold natively too
                o.append(ok or out[-300:])
            return o
        with cf.ThreadPoolExecutor(CORES) as ex:
            for r, o in zip(cand, ex.map(one, cand)):
                for x in o:
                    if x is True: self.validated += 1
                    else: self.validation_mismatch += 1; self.validation_notes.append('%s %s: %s' % (r['job']['h'], r['job']['cfg'], x[:200]))

    # ---- report ----
    def finish(self, level, bounds, assumptions):
        R = self.results
        tot = lambda k: sum(r[k] for r in R)
        inc = [dict(harness=r['job']['h'], cfg=r['job']['cfg'], why=r['incomplete'] or '; '.join(r['unsupported'])) for r in R if r['incomplete'] or r['unsupported']]
        noreach = [dict(harness=r['job']['h'], cfg=r['job']['cfg']) for r in R if not r['reach'].get('end')]
        funcs = sorted({f for r in R for f in r['functions']})
        tags, reach = {}, {}
        for r in R:
            for k, v in r['tags'].items(): tags[k] = tags.get(k, 0) + v
            for k, v in r['reach'].items(): reach[k] = reach.get(k, 0) + v
        rng = {}
        for r in R:
            for v in r['vars']:
                a = rng.setdefault(r['job']['h'] + '.' + v['name'], [v['lo'], v['hi']]); a[0] = min(a[0], v['lo']); a[1] = max(a[1], v['hi'])
        samples = self.samples[:6]
        for r in R[:: max(1, len(R) // 4)][:4]: samples.append(dict(harness=r['job']['h'], cfg=r['job']['cfg'], paths=r['paths'], obligations=r['obligations'], log={k: v for k, v in (r['logs'][0] if r['logs'] else {}).items() if k != 'first'}))
        cov = dict(states=tot('paths'), transitions=tot('instructions'), traces_validated_against_impl=self.validated, samples=samples,
                   explanation='states = symbolic paths explored to their end; transitions = IR instructions executed symbolically; traces_validated = harness runs whose checked values, evaluated from the symbolic terms, equal the native binary bit for bit',
                   harness_runs=len(R), path_forks=tot('forks'), obligations=tot('obligations'), obligations_equal_terms=tot('obligations_structural'), obligations_by_arithmetic=tot('obligations_distinct'),
                   solver_queries_int=tot('int_queries'), solver_queries_lra=tot('lra_queries'), solver_queries_fp=tot('fp_queries'), solver_queries_nra=self.nra_queries, other_outcomes_of_sample_comparisons=dict(run=sum(r.get('deviation_runs', 0) for r in R), impossible=sum(r.get('deviations_infeasible', 0) for r in R), queries=sum(r.get('path_queries', 0) for r in R)), solver_time_s=round(tot('solver_time') + self.nra_time, 3),
                   largest_rounding_bound=max([r['max_err'] or 0 for r in R] + [0]), symbolic_integers=rng, obligations_per_tag=tags, reachability_witnesses=reach, functions_encoded=funcs, bounds=bounds,
                   incomplete=inc[:20], incomplete_count=len(inc), paths_never_reaching_the_end=noreach[:10], translator_mismatches=self.validation_mismatch, translator_notes=self.validation_notes[:5],
                   unconfirmed_counterexamples=self.unconfirmed[:10], unconfirmed_count=len(self.unconfirmed), build_errors=self.build_errors[:5], **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=assumptions + self.assumptions, wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        with open(p + '.tmp', 'w') as f: json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        print('%s %s: %d harness runs, %d paths, %d obligations, %d solver queries, %d native traces equal, %d unconfirmed, %d incomplete, %.1fs' % (self.prop, self.tier, len(R), cov['states'], cov['obligations'],
              cov['solver_queries_int'] + cov['solver_queries_lra'] + cov['solver_queries_fp'] + self.nra_queries, self.validated, len(self.unconfirmed), len(inc), time.time() - T0))
        if inc: print('  incomplete: %s' % json.dumps(inc[:3]))
        if noreach: print('  end not reached: %s' % json.dumps(noreach[:3]))
        if self.unconfirmed: print('  unconfirmed (not reproduced natively, not reported): %s' % json.dumps(self.unconfirmed[:4])[:1500])
        if self.build_errors: print('  build errors: %s' % self.build_errors[0][:600])
        if self.validation_mismatch: print('  translator mismatch: %s' % self.validation_notes[:2])
        for path, w in self.violations: print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0

import itertools
_ids = itertools.count()
def configs(ratios=(2, 4, 8), iirs=(0, 1), precs=(1, 8, 12, 16, 20, 24), ups=(1, 0), sses=(0, 1)):
    for up in ups:
        for ratio in ratios:
            for iir in iirs:
                for prec in precs:
                    if iir and prec == 1: continue
                    for sse in sses: yield dict(up=up, ratio=ratio, iir=iir, prec=prec, sse=sse)
