"""What is run for each property: harness configurations (bounds) for the quick and thorough tiers, and post-processing."""
import hashlib, math, os, time, numpy as np, concurrent.futures as cf
from . import core, spectrum
from .core import configs, MEM, UNINIT, RT

BASE = [
    'the harness drives the public API compiled from /repo/include by clang 18 at -O0 (plus sroa, instsimplify, early-cse, always-inline) unless a build variant is named; clang and the IR executor in /verif/engine are trusted, the latter cross-checked bit for bit against native runs (traces_validated_against_impl)',
    'IEEE binary32/binary64 arithmetic, round to nearest, no flush to zero; samples in [-1,1] unless the harness says otherwise; libc/libstdc++ entry points are modelled at their specification',
    'counterexamples are reported only after the native binary compiled from the same source reproduces them',
]
def J(h, cfg, **kw):
    d = dict(h=h, cfg=dict(cfg)); x = {k: kw.pop(k) for k in list(kw) if k not in ('flags', 'o2', 'time', 'paths', 'mem', 'logs', 'fails', 'cost', 'wild', 'vcfg', 'validate')}
    d['cfg'].update(x); d.update(kw); return d
FIR = lambda c: not c['iir']
def scale(c): return c['ratio'] * (1 if FIR(c) else 1.5)

# one very long block; every stream position reached by very many calls
def longs(q, precs=(1, 8, 12, 16, 20, 24)):
    jobs = []
    for c in configs(precs=precs):
        n = 66000 if q else 140000
        jobs.append(J('long', c, what=0, len=n if c['up'] else n // c['ratio'], time=120, cost=20 * (c['ratio'] if c['up'] else 1)))
    return jobs
def positions(q):
    jobs = []
    for c in configs():
        if c['ratio'] == 2 or c['prec'] == 8 or not q: jobs.append(J('long', c, what=1, calls=66000, len=1, time=120, cost=30 * c['ratio']))
        jobs.append(J('long', c, what=2, calls=1500 if q else 10000, len=7, time=120, cost=10 * c['ratio']))
    return jobs

# every block length in a wide range (fixed noise, symbolic samples at the seams)
def wides(q, what=0, precs=(8, 24), ratios=(2, 4, 8), sses=(0, 1), full=True, **kw):
    jobs = []
    for c in configs(precs=precs, ratios=ratios, sses=sses):
        post = 56 if FIR(c) and c['ratio'] == 2 and c['prec'] >= 20 else 24; k = dict(what=what, post=post, time=150, **kw)
        if c['ratio'] == 2 and full: jobs += [J('wide', c, lo=a, hi=b, cost=b / 5, **k) for a, b in ((60, 599), (600, 869), (870, 1100)) + (() if q else ((1101, 1600), (1601, 2100)))]
        else: jobs += [J('wide', c, step=16, lo=4, hi=66 if q else 260, cost=20 * c['ratio'], **k), J('wide', c, lo=57, hi=130 if q else 300, cost=10 * c['ratio'], **k)]
        jobs.append(J('wide', c, step=441, lo=1, hi=3 if q else 10, cost=6 * c['ratio'], **k))
    return jobs
WIDE = 'every block length 60..1100 at ratio 2, 57..130 and all multiples of 16 to 1056 at ratios 4 and 8, 441, 882, 1323 (symbolic samples around both ends and the middle, fixed noise elsewhere)'

# ---------------------------------------------------------------- P01
def p01(run, q):
    jobs = []
    for c in configs():
        n = 66 if FIR(c) and c['ratio'] == 2 and c['prec'] == 24 else 54 if FIR(c) and c['prec'] >= 20 else 40
        if not q: n *= 2
        jobs.append(J('split', c, pre=5, len=n, post=n - 6, cost=n * scale(c)))
        jobs.append(J('seq', c, calls=4 if q else 5, max=2 if q else 3, post=8, cost=80 * scale(c)))
    big = list(configs(precs=(1, 8) if q else (1, 8, 16, 24)))
    for c in big:      # around the internal block limits (1024/2048 samples); the reference goes in small blocks
        unit = 1024 if c['up'] or c['ratio'] == 2 else 1024 // c['ratio']
        for s in ([unit] if q else [unit - 1, unit, unit + 1, 2 * unit - 1, 2 * unit, 2 * unit + 1]):
            jobs.append(J('split', c, pre=3, len=s + 9, post=6, slo=s, shi=s + (1 if q else 0), ref=37, time=100, cost=unit * c['ratio'] / 4))
    jobs += longs(q) + wides(q, precs=(1, 8, 24))
    run.execute(jobs); run.judge(cats=MEM, kinds={'close', 'lin', 'undef', 'assert', 'same', 'indep'})
    return dict(lengths=WIDE, single_split='every split point 0..%d of a block, after a prefix and before a suffix, all 132 configurations' % n, sequences='every sequence of %d calls of 0..%d units' % ((4, 2) if q else (5, 3)), large='blocks of about 1024/2048 samples (internal chunk limits) against 37-unit blocks; blocks of 66000 input samples (symbolic around the ends, 2^15 and 2^16) against 500-unit blocks'), ['blocks are given in whole lower-rate samples']

# ---------------------------------------------------------------- P02
def p02(run, q):
    jobs = [J('lti', c, len=34 if q else 70, shift=9 if q else 17, cost=scale(c)) for c in configs()]
    jobs += [J('lti', c, len=(40 if q else 90) if FIR(c) else 40, shift=0, hom=1, cost=scale(c)) for c in configs()]
    jobs += [J('mem_fir', c, wild=2 if q else 4, tail=6, smax=9 if q else 30, wild_streams=1, cost=scale(c)) for c in configs(iirs=(0,))]
    for j in jobs:
        if j['h'] == 'mem_fir': j['cfg'].pop('wild_streams'); j['wild'] = (1,)
    jobs += positions(q)
    run.execute(jobs); run.judge(cats=MEM, kinds={'close', 'lin', 'undef', 'indep'})
    return dict(positions='all signals after 66000 one-unit calls of silence, and after %d 7-unit calls of one fixed noise' % (1500 if q else 10000), signals='all signals of the given length; shifts 0..%d base samples, in the same or a separate call' % (9 if q else 17), memory='all values (also NaN/inf) of the first samples, all tails'), ['causality and shift invariance up to single-precision rounding, finite samples (an SSE FIR block may mix a NaN into outputs up to 6 samples earlier)']

def p03(run, q):
    jobs = []
    for c in configs(sses=(1,)):
        T = 64 if FIR(c) and c['prec'] == 24 and c['ratio'] == 2 else 40
        jobs.append(J('sse', c, len=T if q else 2 * T, post=44 if q else 90, cost=scale(c)))
        if FIR(c): jobs.append(J('sse', c, len=T if q else 2 * T, post=44 if q else 90, flags=NEON, cost=scale(c)))
        if c['prec'] in (8, 24): jobs.append(J('sse', c, len=1030, post=3, slo=1026, shi=1028, extra=0, time=100, cost=20 * c['ratio'])) if (c['ratio'] == 2 or c['up']) and (not q or c['prec'] == 8) else None
    jobs += wides(q, 1, sses=(1,))
    run.execute(jobs); run.judge(cats=MEM, kinds={'close', 'lin', 'undef', 'assert'})
    return dict(lengths=WIDE, history='every first block 0..len, then the remainder in one or two blocks'), ['single-precision rounding of either version is bounded by 1e-4 absolute; the exact linear parts agree to 1e-6']

def p04(run, q):
    jobs = [J('align', c, len=(60 if FIR(c) and c['prec'] == 24 and c['ratio'] == 2 else 26) if q else 80, amax=15, cost=scale(c)) for c in configs()]
    jobs += [J('wide', c, what=2, lo=n, hi=n, amax=15, post=24, time=150, cost=c['ratio'] * n / 10) for c in configs(precs=(8, 24), sses=(1,)) for n in (150, 300, 610, 1030) if c['ratio'] == 2 or n == 150 or (n == 300 and c['prec'] == 8)]
    run.execute(jobs); run.judge(cats=MEM, kinds={'close', 'lin', 'undef', 'assert'})
    return dict(long_blocks='blocks of 150, 300, 610 and 1030 units at all 16 x 16 offsets', addresses='all 16 x 16 start offsets of input and output in a cache line (4-byte steps), different ones in consecutive calls'), ['float buffers are 4-byte aligned, as the language requires']

def p05(run, q):
    jobs = []
    for c in configs():
        jobs.append(J('mem', c, calls=2, lo=0, hi=(9 if q else 20), post=4, mod=16, amax=1, cost=3 * scale(c)))
        n = 56 if FIR(c) and c['prec'] >= 20 and c['ratio'] == 2 else 24
        jobs.append(J('mem', c, calls=1, lo=10, hi=n if q else 2 * n, post=2, mod=48, amax=15 if not q else 3, reset=1, cost=2 * scale(c)))
        unit = 1024 if c['up'] or c['ratio'] == 2 else 1024 // c['ratio']
        if c['prec'] in ((8,) if q else (1, 8, 24)): jobs.append(J('mem', c, calls=1, lo=unit - 1, hi=unit + 2, post=1, amax=0, time=100, cost=unit * c['ratio'] / 6))
        if not q and c['prec'] == 8: jobs.append(J('mem', c, calls=1, lo=2 * unit - 1, hi=2 * unit + 1, post=1, amax=0, time=150, cost=unit * c['ratio'] / 6))
    jobs += [J('pass', dict(up=u, prec=8, sse=1, iir=i), lo=0, hi=20) for u in (0, 1) for i in (0, 1)]
    jobs += longs(q, (1, 8, 24) if q else (1, 8, 12, 16, 20, 24)) + wides(q, zero=1)
    run.execute(jobs); run.judge(cats=MEM, kinds={'same', 'indep', 'undef', 'assert'})
    return dict(lengths=WIDE, long='one block of 66000 input samples', blocks='all pairs of block lengths 0..%d, single blocks to %d and around 1024 samples, at several alignments' % (9 if q else 20, 56 if q else 112), buffers='caller buffers are exactly the documented size'), ['block lengths are multiples of the ratio for downsampling']

def p06(run, q):
    jobs = [J('uninit', c, len=24 if q else 48, silence=20 if q else 50, fmax=12 if q else 48, mod=m, cost=scale(c)) for c in configs() for m in ((16,) if q else (0, 16, 48))]
    jobs += wides(q, zero=1, precs=(8, 24) if q else (1, 8, 24), full=False)
    run.execute(jobs); run.judge(cats=UNINIT, kinds={'close', 'lin', 'undef', 'indep', 'assert'})
    return dict(lengths='every block length 57..130, all multiples of 16 to 1056, 441, 882, 1323', histories='all first block lengths, all samples; heap, stack and output memory start indeterminate'), ['silence before use changes nothing; reset leaves nothing undetermined']

def p07(run, q):
    jobs = []
    for c in configs():
        jobs.append(J('reset', c, hist=(56 if FIR(c) and c['prec'] == 24 and c['ratio'] == 2 else 24) if q else 70, len=(60 if FIR(c) and c['ratio'] == 2 else 30) if q else 80, f=3, h1max=1 if q else 2, h2=7, wild=(1,), cost=scale(c)))
        if c['prec'] == 24: jobs.append(J('reset', c, hist=140, hlo=139, len=60, f=1, h1max=1, h2=60, wild=(1,), cost=2 * scale(c)))
    jobs += [J('long', c, what=3, calls=3000 if q else 20000, len=7, time=120, cost=10 * c['ratio']) for c in configs()]
    jobs += wides(q, 4)
    jobs += [J('wide', c, what=4, lo=lo, hi=lo + w, post=56 if c['prec'] == 24 and c['ratio'] == 2 else 24, time=150, cost=lo * c['ratio'] / 100) for c in configs(precs=(8, 24)) for lo, w in ([(1020, 9), (2040, 16), (4090, 12)] if c['ratio'] == 2 or not q else [(1024, 0), (2048, 0), (4096, 0)])]
    run.execute(jobs); run.judge(cats=MEM | UNINIT, kinds={'same', 'indep', 'undef', 'assert', 'close'})
    return dict(lengths=WIDE + ', around 1024, 2048 and 4096', long_history='%d 7-unit calls of one fixed noise' % (3000 if q else 20000), histories='every history of 0..%d units of arbitrary values (NaN and infinities included) in one to three blocks, reset once or twice' % (56 if q else 70)), ['the comparison after reset is bit exact']

def p08(run, q):
    jobs = []
    for c in configs(precs=(1, 8, 12, 16, 20, 24)):
        if FIR(c): jobs.append(J('delay', c, n=4 if q else 12, cost=scale(c)))
        else: jobs.append(J('delay', c, settle=300 if q else 600, len=6, cost=4 * scale(c), time=120))
    run.execute(jobs); run.judge(kinds={'close', 'near', 'lin', 'undef', 'assert'})
    return dict(FIR='all signals of n samples and their reversals: the outputs are mirror images about exactly delay()', IIR='all straight-line signals a+b*t on a settled filter'), ['IIR: low-frequency delay within 0.01 base samples']

def p09(run, q):
    jobs = [J('keep', c, len=24 if q else 60, amax=3, **({} if FIR(c) else {})) for c in configs(iirs=(0,), ups=(1,))]
    jobs += [J('keep', c, len=24 if q else 60, amax=3, wild=0) for c in configs(iirs=(0,), ups=(1,), precs=(1,), ratios=(2,))]
    big = [J('keep', c, len=1060, smax=1, amax=0, time=120, cost=30 * c['ratio']) for c in configs(iirs=(0,), ups=(1,), precs=(8,) if q else (8, 24))]
    big += [J('keep', c, len=66000, smax=0, amax=0, time=120, cost=100 * c['ratio']) for c in configs(iirs=(0,), ups=(1,), ratios=(2,))]
    run.execute(jobs + big); run.judge(cats=MEM, kinds={'same', 'close', 'lin', 'undef', 'assert'})
    return dict(splits='every split of the signal into two blocks, 4 alignments; one long block beyond the internal chunk size'), ['sample values are compared as bit patterns, +0 and -0 and all NaNs identified']

# ---------------------------------------------------------------- P10 P11 P21
def _spec(run, q, kinds, chain):
    prec = (8, 12, 16, 20, 24); jobs = []
    n = 420
    for c in configs(precs=prec, ups=(1,) if chain else (1, 0)): jobs.append(J('freq', c, n=n, time=120, cost=scale(c), vcfg={'avg': 1}, **({'chain': 1} if chain else {})))
    res = run.execute(jobs); tasks = []; byk = {}
    for r in res:
        if r['incomplete'] or not r['emits']: continue
        c = r['job']['cfg']; key = r['job']['id']; byk[key] = r
        k, g, nl = (spectrum.chain_response if chain else spectrum.high_rate_response)(r)
        if nl: run.assumptions.append('response not linear in %s: the frequency analysis does not apply' % c); continue
        for kd in kinds(c): tasks.append((key, (kd, c['ratio'], c['prec'], k, g)))
    t = time.time(); out, nq, uniq = spectrum.decide_all(tasks, core.CORES)
    run.nra_queries += nq; run.extra.update(responses=len(tasks), distinct_responses=uniq, nra_unknown=sum(v[0][3] for v in {id(v): v for v in out.values()}.values()))
    run.nra_time += sum(v[0][2] for v in {id(v): v for v in out.values()}.values())
    seen = set()
    for (key, kd), ((bad, _, _, _, _), a) in sorted(out.items()):
        if not bad: continue
        j = byk[key]['job']; c = j['cfg']; cls = (c['up'], c['iir'], c['ratio'], kd)
        if cls in seen or len(run.violations) > 6: continue
        conf = confirm_spec(run, j, kd, [w for _, w in bad])
        what = dict(property=run.prop, harness='freq', flags=[], cfg=c, finding=dict(kind=kd, omega=[w for _, w in bad]))
        if conf: seen.add(cls); run.violation(what, conf[0], conf[1])
        else: run.unconfirmed.append(what)
    return byk
def confirm_spec(run, j, kd, ws):
    c = j['cfg']; R = c['ratio']; chain = c.get('chain', 0); exe = run.compile_native('freq')
    if not exe: return None
    jj = dict(j, cfg=dict(c, n=1400, avg=256))
    for w in ws:
        wi = w if chain or not c['up'] else math.remainder(w * R, 2 * math.pi)
        y = []; delay = 0
        for phi in (0, -math.pi / 2):
            rc, out, cmd = run.native(exe, jj, {}, mode=6, extra=['omega=%.17g' % wi, 'phi=%.17g' % phi, 'emit=1'])
            d = {}
            for l in out.splitlines():
                p = l.split()
                if p and p[0] == 'EMIT' and p[1] == 'h': d[int(p[2])] = float(p[3])
                if p and p[0] == 'EMIT' and p[1] == 'delay': delay = float(p[3])
            y.append(d)
        if not y[0] or y[0].keys() != y[1].keys(): return None
        N, m = 1400, (R if c['up'] and not chain else 1); acc = 0
        for k, v in y[0].items():
            i, p = divmod(k, m); z = v + 1j * y[1][k]
            if chain: pos = N - 1 - i; ph = wi * pos
            elif c['up']: pos = (N - 1 - i) * R + p; ph = w * pos
            else: pos = N - 1 - i; ph = w * R * pos
            acc += z * np.exp(-1j * ph)
        G = acc / len(y[0]); f = 0.98
        eps = 10 ** (spectrum.PASS[c['prec']] / 20)
        if kd == 'pass': bad = abs(abs(G) - 1) >= f * eps
        elif kd == 'stop': bad = abs(G) >= f * 10 ** (spectrum.STOP[c['prec']] / 20)
        elif kd == 'chain-gain': bad = abs(abs(G) - 1) >= f * 2 * eps
        else:
            tol = 2 * eps + (0.01 if kd == 'chain-delay' else 0); bad = abs(G * np.exp(1j * wi * delay) - 1) >= f * tol
        if bad: return 'frequency %.6g rad/sample of the %s rate: measured on the native binary gain %.9g (deviation from 1: %.3g), delay %.6g' % (w, 'base' if chain else 'higher', abs(G), abs(abs(G) - 1), delay), cmd
    return None
def p10(run, q):
    _spec(run, q, lambda c: ['pass'], False)
    return dict(frequencies='every frequency 0..18/44.1 of the lower rate (continuum)', response='the last outputs as linear form in 420 base-rate samples'), ['LINEAR precision has no stated passband', 'IIR responses are truncated after 420 base-rate samples: the contraction shown by P12 bounds the rest below the tolerance used']
def p11(run, q):
    _spec(run, q, lambda c: ['stop'], False)
    return dict(frequencies='every frequency within 18/44.1 of the lower rate around every multiple of it (continuum)'), ['LINEAR precision has no stated stopband', 'IIR responses are truncated after 420 base-rate samples']
def p21(run, q):
    _spec(run, q, lambda c: ['chain'] if FIR(c) else ['chain-gain', 'chain-delay'], True)
    return dict(frequencies='every frequency up to 18/44.1 of the base rate (delay of IIR chains: up to 0.02)'), ['LINEAR precision excluded (its passband is not specified)']

# ---------------------------------------------------------------- P12
def p12(run, q):
    jobs = [J('decay', c, k=k, len=40, time=120, cost=scale(c) * k / 100, mem=6000, validate=False) for c in configs(iirs=(1,)) for k in ((160,) if q else (160, 221))]
    res = run.execute(jobs); run.judge(cats=MEM, kinds={'near', 'close', 'undef'})
    gammas = {}
    with cf.ProcessPoolExecutor(core.CORES) as ex:
        for r, (bad, gam, nrel, nq, t) in zip(res, ex.map(_contraction, [dict(emits=r['emits']) for r in res])):
            run.nra_queries += nq; run.nra_time += t; c = r['job']['cfg']; gammas['%(up)d.%(ratio)d.%(prec)d.%(sse)d' % c] = [round(gam, 9), nrel]
            if bad and not r['incomplete']:
                exe = run.compile_native('decay'); conf = None
                for s in range(1, 4):
                    rc, out, cmd = run.native(exe, r['job'], {}, seed=s)
                    if 'FAIL' in out or rc < 0: conf = (out[-1500:], cmd); break
                what = dict(property='P12', harness='decay', flags=[], cfg=c, finding=dict(kind='contraction', detail=bad))
                if conf and len(run.violations) < 6: run.violation(what, *conf)
                elif not conf: run.unconfirmed.append(what)
    # translator validation of the same code path on concrete samples
    run.execute([J('freq', c, n=60, vcfg={'avg': 1}) for c in configs(iirs=(1,))])
    run.extra['contraction_factor_and_live_cells'] = gammas
    return dict(state='every value in [-1,1] of every memory cell the object writes while processing', silence='%s base samples' % ('160' if q else '160 and 221')), ['contraction from any state in the unit box extends to all states and all time by linearity and shift invariance (P02)', 'rounding: each operation adds a relative error of 2^-24, which enters the state and is contracted in the same way']
GAMMA, OUT_MAX = 1e-3, 64.0
def _contraction(r):
    import z3, time
    st = {x['idx']: x for x in r['emits'] if x['tag'] == 'state'}; outs = [x for x in r['emits'] if x['tag'] == 'out']
    if not st: return ['no state'], 1.0, 0, 0, 0.0
    infl = {k: {i for s, i, v in x['c'] if s == 9 and v != 0} for k, x in st.items()}
    live = set()
    for o in outs: live |= {i for s, i, v in o['c'] if s == 9 and v != 0}
    while True:                       # cells that can reach an output, directly or through other cells
        more = set().union(*[infl[k] for k in live if k in infl]) if live else set()
        if more <= live: break
        live |= more
    bad = []; gam = 0.0; q = 0; t = 0.0
    X = {}
    def query(x, bound):
        nonlocal q, t
        s = z3.SolverFor('QF_LRA'); e = []
        for st_, i, v in x['c']:
            if st_ != 9 or v == 0: continue
            if i not in X: X[i] = z3.Real('s%d' % i)          # X = coefficient * old cell value
            s.add(X[i] >= -spectrum.qv(abs(v)), X[i] <= spectrum.qv(abs(v))); e.append(X[i])
        if not e: return False
        y = z3.Sum(e); s.add(z3.Or(y > spectrum.qv(bound), y < spectrum.qv(-bound)))
        t0 = time.time(); a = s.check(); t += time.time() - t0; q += 1
        return a != z3.unsat
    for k in sorted(live):
        x = st.get(k)
        if x is None: continue
        if x['nonlin'] or x['uninit']: bad.append('cell %d is not a linear function of the old state' % k); continue
        n = sum(abs(v) for s, i, v in x['c'] if s == 9); gam = max(gam, n)
        if query(x, GAMMA): bad.append('cell %d keeps a factor %.3g of the old state' % (k, n))
    for o in outs:
        if o['nonlin'] or o['uninit']: bad.append('output %d is not a linear function of the old state' % o['idx']); continue
        if query(o, OUT_MAX): bad.append('output %d exceeds %g times the state' % (o['idx'], OUT_MAX))
    return bad[:5], gam, len(live), q, t

# ---------------------------------------------------------------- P13..P20
def _ownglobal(e): return 'vp_main' not in e['func'] and 'Tracer' not in e['func']
def p13(run, q):
    jobs = []; base = list(configs())
    import random
    rnd = random.Random(run.seed)
    for c in base:
        others = [c, dict(c, prec=24 if c['prec'] != 24 else 8), dict(c, sse=1 - c['sse']), dict(c, up=1 - c['up']), rnd.choice(base)]
        if q: others = [c, others[1 + rnd.randrange(3)], others[4]] if c['prec'] in (1, 8, 24) else [c]
        for o in others: jobs.append(J('inter', c, up2=o['up'], ratio2=o['ratio'], prec2=o['prec'], sse2=o['sse'], iir2=o['iir'], len=9 if q else 14, slots=2 if q else 3, cost=scale(c)))
        jobs.append(J('inter', c, zoo=1, len=12 if q else 24, slots=2, cost=10 + 2 * scale(c)))
    run.execute(jobs); run.judge(cats={'global_write'} | MEM, kinds={'same', 'indep', 'undef', 'assert'}, event_filter=lambda e: e['cat'] != 'global_write' or _ownglobal(e))
    return dict(schedules='all sequences of %d slots of {nothing, use, use+reset, destroy} of the other object (created before or in between) around the observed object\'s calls' % (2 if q else 3), others='35 other configurations of the same direction and filter type used and destroyed before, in two orders', reference='the observed object alone, all globals and statics as at program start (natively: in a child process)', writes='every store of every path is checked to hit the object, the stack or the caller\'s output only (no shared data: this covers concurrent threads)'), []

def p14(run, q):
    jobs = []
    for c in configs():
        n = 56 if FIR(c) and c['prec'] == 24 and c['ratio'] == 2 else 24
        jobs.append(J('rt', c, lo=0, hi=n if q else 2 * n, cost=scale(c)))
        jobs.append(J('rt', c, big=2051, more=70000, time=150, cost=100 * c['ratio']))
        if c['sse'] and (c['ratio'] == 2 or c['prec'] == 8 or not q): jobs.append(J('rt', c, big=700, more=2051, amax=15, time=150, cost=60 * c['ratio']))
    jobs += [J('rt', dict(up=u, ratio=1, prec=24, sse=1, iir=i), **k) for u in (0, 1) for i in (0, 1) for k in (dict(lo=0, hi=20), dict(big=2051, more=70000))]
    run.execute(jobs); run.judge(cats=RT | {'stack', 'terminate', 'uncaught'}, kinds={'assert'})
    return dict(blocks='all first block lengths up to %d blocks of 2051 and %d units; blocks of 700 and 2051 units at all 16 x 16 buffer offsets; stack at most 200000 bytes and not growing between those two' % (56 if q else 112, 70000)), []

def p15(run, q):
    jobs = [J('life', c, mod=m, maxfail=24, cost=scale(c)) for c in list(configs(ratios=(1, 2, 4, 8))) for m in ((16,) if q else (0, 16, 40))]
    run.execute(jobs); run.judge(cats=MEM, kinds={'assert', 'indep', 'undef'})
    return dict(faults='failure of each of the first 25 allocations of the constructor (more than any configuration makes), and none'), []

def p16(run, q):
    jobs = [J('acc', c) for c in configs(ratios=(1, 2, 4, 8))] + [J('acc', c, flags=f, have_sse=h) for c in configs(ratios=(1, 2, 4, 8), precs=(1, 8, 24) if q else (1, 8, 12, 16, 20, 24)) for f, h in ((('-U__SSE__',), 0), (NEON, 1)) if FIR(c) or not h]   # the IIR filters have no NEON version
    for c in configs(ratios=(2,), sses=(1, 0)):
        c.pop('ratio'); jobs.append(J('acc', c, any_ratio=1, rlo=0, rhi=40 if q else 300))
        for lo in (62, 126, 254, 65534, 2147483646, 4294967280): jobs.append(J('acc', c, any_ratio=1, rlo=lo, rhi=min(lo + 6, 4294967295)))
    for u in (0, 1):
        for s in (0, 1): jobs.append(J('acc', dict(up=u, prec=1, sse=s, iir=1), any_ratio=1, rlo=0, rhi=12))
    run.execute(jobs); run.judge(cats=MEM, kinds={'assert', 'same', 'close', 'undef'})
    return dict(configurations='all constructor arguments; ratios 0..%d, around powers of two and at the top of the 32-bit range' % (40 if q else 300)), []

def p17(run, q):
    jobs = [J('pass', dict(up=u, prec=p, sse=s, iir=i), lo=0, hi=24 if q else 100, amax=1 if q else 4) for u in (0, 1) for p in (1, 8, 12, 16, 20, 24) for s in (0, 1) for i in (0, 1) if not (i and p == 1)]
    jobs += [J('pass', dict(up=u, prec=8, sse=1, iir=0), lo=lo, hi=lo + 2, amax=0, time=100) for u in (0, 1) for lo in ((1023, 2047, 4095, 65535) if q else (1023, 2047, 4095, 8191, 32767, 65535, 131071))]
    run.execute(jobs); run.judge(cats=MEM, kinds={'same', 'assert', 'undef'})
    return dict(blocks='all lengths 0..%d, and around 1024 and 2048' % (24 if q else 100)), []

def p18(run, q):
    jobs = [J('names', {}, what=0)] + [J('names', {}, what=1)] + [J('names', {}, what=1, lo=i, hi=i) for i in (1, 8, 12, 16, 20, 24, 0, 7, 25)]
    jobs += [J('names', {}, what=w, flags=f) for w in (0, 1) for f in (('-DVP_HEADER_ONLY',), ('-U__SSE__',))]
    run.execute(jobs); run.judge(cats=MEM, kinds={'assert', 'undef'})
    return dict(arguments='all 2^32 bit counts; all 2^32 precision values (no bound)'), []

def p19(run, q):
    jobs = [J('odd', c, pre=p, post=60 if c['prec'] == 24 else 40, hi=12 if q else 60, cost=scale(c)) for c in configs(ratios=(2,), iirs=(0,), ups=(0,)) for p in ((5,) if q else (0, 5, 60))]
    jobs += [J('odd', c, pre=1, post=60, lo=lo, hi=lo + 2, time=60) for lo in (1023, 32766) for c in configs(ratios=(2,), iirs=(0,), ups=(0,), precs=(8,) if q else (1, 8, 24))]
    run.execute(jobs); run.judge(cats=MEM, kinds={'same', 'assert', 'undef'})
    return dict(lengths='all odd lengths up to %d and around 2048' % (25 if q else 121)), []

def p20(run, q):
    jobs = [J('aligned', {}, what=w, lo=0, hi=9 if q else 24, low=l) for w in range(6) for l in ((0,) if w != 1 else (0, 1, 4))] + [J('aligned', {}, what=w, lo=lo, hi=lo + 2) for w in (0, 2, 3) for lo in (15, 31, 63, 200)]
    jobs += [J('aligned', {}, what=w, lo=b - 60, hi=b) for w, b in ((6, (1 << 62) + 10), (6, -1), (7, -90), (7, -1), (8, (1 << 64) // 24 + 10), (8, (1 << 65) // 24 + 10), (8, -1))]   # sizes whose byte count does not fit into size_t
    run.execute(jobs); run.judge(cats=MEM | UNINIT, kinds={'assert', 'same', 'undef', 'close'})
    return dict(sizes='0..%d elements and around 16, 32, 64, 200, of 1-, 4-, 8- and 24-byte types' % (9 if q else 24), addresses='all 8-byte steps of a cache line, plus odd byte offsets for bytes'), []

def p22(run, q):
    jobs = []
    for c in configs():
        n = 62 if FIR(c) and c['prec'] == 24 and c['ratio'] == 2 else 36
        for w in (0, 1, 2): jobs.append(J('exact', c, what=w, **({'amp': 20} if w == 1 else {}), len=n if q else 2 * n, shi=n // 2 if q else n, cost=scale(c) * (1 + (w == 1))))
        if not q: jobs.append(J('exact', c, what=1, len=n, shi=n // 2, down=1, cost=2 * scale(c)))
        if not FIR(c): jobs.append(J('exact', c, what=2, len=240, slo=1, shi=1, time=120, cost=4 * scale(c)))
        elif c['prec'] in (8, 24) and q or not q: jobs.append(J('exact', c, what=0, len=1100 if c['up'] or c['ratio'] == 2 else 1100 // c['ratio'], slo=1, shi=1, cost=6 * c['ratio']))
    jobs += wides(q, 5, full=not q)
    run.execute(jobs); run.judge(kinds={'same', 'negated', 'scaled', 'near', 'undef'})
    return dict(lengths='opposite signals at every block length 57..130, all multiples of 16 to 1056, 441, 882, 1323', signals='all signals of the given lengths, every first block length'), ['power-of-two scaling excludes overflow and underflow']

# ---------------------------------------------------------------- P23
NEON = ('-U__SSE__', '-D__ARM_NEON', '-I' + os.path.join(core.VERIF, 'harness', 'neon'))
VARIANTS = [('library', (), False), ('header-only', ('-DVP_HEADER_ONLY',), False), ('no asserts', ('-DNDEBUG',), False), ('no SSE', ('-U__SSE__',), False), ('NEON', NEON, False), ('optimised', (), True), ('optimised header-only, no asserts', ('-DVP_HEADER_ONLY', '-DNDEBUG'), True), ('header-only no SSE', ('-U__SSE__', '-DVP_HEADER_ONLY'), False)]
def build_variants(run, q):
    """Compile, link and run a two-file user program in every way of building; the library build must work at all."""
    src = os.path.join(core.VERIF, 'native', 'variant'); std = ('11', '17', '20') if q else ('11', '14', '17', '20')
    var = [((cxx, '-std=c++' + sd) + o, ho) for cxx in ('g++', 'clang++') for sd in std for o in ((), ('-DNDEBUG',), ('-U__SSE__',), ('-O2',)) for ho in (0, 1) if (sd == '11' or o in ((), ('-DNDEBUG',)) and ho or not q)]
    def one(v):
        cmd, ho = v; exe = os.path.join(run.dir, 'v' + hashlib.sha1(repr(v).encode()).hexdigest()[:10])
        cmd = list(cmd) + ['-w', '-I' + core.INC] + (['-DPANDA_RESAMPLER_HEADER_ONLY'] if ho else []) + [os.path.join(src, 'a.cc'), os.path.join(src, 'b.cc')] + ([] if ho else [os.path.join(core.INC, 'pandaresampler', 'pandaresampler.cc')]) + ['-o', exe]
        r = core.sh(cmd)
        if r.returncode: return v, cmd, 'does not compile: ' + r.stdout[-1500:]
        r = core.sh(['timeout', '20', exe]); os.unlink(exe)
        return v, cmd, None if r.returncode == 0 else 'the program fails with status %d: %s' % (r.returncode, r.stdout[-500:])
    with cf.ThreadPoolExecutor(core.CORES) as ex: res = list(ex.map(one, var))
    ok = any(not e for v, c, e in res if v[0][:2] in (('g++', '-std=c++11'), ('clang++', '-std=c++11')) and len(v[0]) == 2 and not v[1])
    run.extra['builds_compiled_and_run'] = sum(not e for _, _, e in res)
    if not ok: run.build_errors.append('the library build itself fails: ' + str(res[0][2])[:300]); return
    for v, c, e in res:
        if e and len(run.violations) < 3: run.violation(dict(property='P23', harness='variant', flags=list(v[0]), cfg={}, finding=dict(kind='variant', header_only=v[1])), e, c)
def p23(run, q):
    jobs = []; var = VARIANTS + ([] if q else [('c++17', ('-std=c++17',), False), ('optimised no SSE', ('-U__SSE__', '-DNDEBUG'), True), ('optimised NEON', NEON, True)])
    build_variants(run, q)
    for c in configs():
        n = 64 if FIR(c) and c['prec'] == 24 and c['ratio'] == 2 else 34
        for s in ((7,) if q else (0, 7, 13, 33)):
            for v in var: jobs.append(J('build', c, len=n, s=s, flags=v[1], o2=v[2], cost=scale(c)))
    res = run.execute(jobs); run.judge(cats=MEM, kinds={'undef'})
    by = {}
    for r in res:
        if r['incomplete'] or not r['reach'].get('end'): continue
        by.setdefault(tuple(sorted(r['job']['cfg'].items())), {})[(tuple(r['job'].get('flags', ())), bool(r['job'].get('o2')))] = r
    items = [(k, v) for k, d in by.items() for k, v in [(k, d)] if ((), False) in d]
    groups = {}
    for key, d in items:
        a = d[((), False)]
        for vk, b in d.items():
            if b is a: continue
            for f in _diff(run, a, b): groups.setdefault((vk, f['tag'], a['job']['cfg']['iir']), []).append((a, b, f))
    for (vk, tag, _), lst in sorted(groups.items(), key=repr):
        for a, b, f in lst[:4]:
            conf = confirm_build(run, a['job'], b['job'], f)
            if conf: break
        what = dict(property='P23', harness='build', flags=list(vk[0]), optimised=vk[1], cfg=a['job']['cfg'], finding={k: v for k, v in f.items() if k != 'xs'}, xs=f.get('xs', [])[:40], occurrences=len(lst))
        if conf and len(run.violations) < 6: run.violation(what, *conf)
        elif not conf: run.unconfirmed.append(what)
    return dict(builds=[v[0] for v in var], outputs='all outputs of two calls, and of a third after reset, for all samples'), ['clang 18 builds; other compilers are covered only as far as they implement the same language semantics', 'contraction of multiply-add is off']
def _diff(run, a, b):
    import z3
    ea, eb = ({(x['tag'], x['idx']): x for x in r['emits']} for r in (a, b)); out = []
    for k in ea.keys() | eb.keys():
        x, y = ea.get(k), eb.get(k)
        if x is None or y is None: out.append(dict(tag=k[0], idx=k[1], detail='missing in one build')); continue
        if x['nonlin'] or y['nonlin'] or x['uninit'] or y['uninit']:
            if (x['nonlin'], x['uninit']) != (y['nonlin'], y['uninit']): out.append(dict(tag=k[0], idx=k[1], detail='nonlinear or indeterminate in one build'))
            continue
        run.extra['compared_outputs'] = run.extra.get('compared_outputs', 0) + 1
        d = {}
        for s, i, v in x['c']: d[s, i] = d.get((s, i), 0) + v
        for s, i, v in y['c']: d[s, i] = d.get((s, i), 0) - v
        d = {q: v for q, v in d.items() if v}; k0 = x['k'] - y['k']
        if not d and k0 == 0: continue
        s = z3.SolverFor('QF_LRA'); e = [spectrum.qv(k0)]; X = {}
        for q, v in d.items(): X[q] = z3.Real('x%d_%d' % q); s.add(X[q] >= -spectrum.qv(abs(v)), X[q] <= spectrum.qv(abs(v))); e.append(X[q])
        t = z3.Sum(e); s.add(z3.Or(t > z3.Q(1, 1000000), t < -z3.Q(1, 1000000)))
        t0 = time.time(); r = s.check(); run.nra_time += time.time() - t0; run.nra_queries += 1
        if r == z3.sat:
            sg = 1 if k0 >= 0 else -1
            out.append(dict(tag=k[0], idx=k[1], diff=abs(k0) + sum(abs(v) for v in d.values()), xs=[(q[0], q[1], float(sg * (1 if v > 0 else -1))) for q, v in d.items()], detail='outputs of the two builds differ'))
    return out
def confirm_build(run, ja, jb, f):
    ea, eb = run.compile_native('build', tuple(ja.get('flags', ()))), run.compile_native('build', tuple(jb.get('flags', ())), 'plain', '-O2' if jb.get('o2') else '-O1')
    if not ea or not eb: return None
    val = lambda o: {(l.split()[1], int(l.split()[2])): float(l.split()[3]) for l in o.splitlines() if l.startswith('EMIT') and len(l.split()) == 4}
    for t in ([dict(mode=1, xs=f['xs'])] if f.get('xs') else []) + [dict(mode=0, seed=1), dict(mode=0, seed=2)]:
        ra, oa, ca = run.native(ea, ja, {}, extra=['emit=1'], **t); rb, ob, cb = run.native(eb, jb, {}, extra=['emit=1'], **t)
        if (ra < 0) != (rb < 0): return 'one build crashes: %d %d' % (ra, rb), cb
        va, vb = val(oa), val(ob); k = (f['tag'], f['idx'])
        if k in va and k in vb:
            d = abs(va[k] - vb[k])
            if d != d or d >= max(0.4 * f.get('diff', 0), 5e-7): return 'output %s: %.9g in the library build, %.9g in the other build' % (k, va[k], vb[k]), cb
        elif (k in va) != (k in vb): return 'output %s only in one build' % (k,), cb
    return None

def p24(run, q):
    jobs = [J('hiir', {}, nc=nc, cls=cl, len=10 if q else 24, used=u, wild=(3,), cost=nc) for nc in range(1, 13) for cl in range(4) for u in (0, 1)]
    run.execute(jobs); run.judge(cats=MEM | UNINIT, kinds={'close', 'lin', 'undef', 'indep', 'assert'})
    return dict(classes='Up/Downsampler2x Fpu and Sse with 1..12 coefficients', calls='every split of %d samples between any two of {block, sample, block split, sample split, in place}, fresh or after use and clear_buffers' % (10 if q else 24)), ['coefficients are one fixed set per class (the library uses fixed coefficients)']

# ---------------------------------------------------------------- P26 P27
def p26(run, q):
    jobs = [J('env', c, lo=0, hi=9 if q else 40, cost=scale(c)) for c in configs(ratios=(1, 2, 4, 8))]
    jobs += [J('env', c, lo=1023, hi=1026, cost=20 * c['ratio']) for c in configs(precs=(8,) if q else (8, 24))]
    run.execute(jobs); run.judge(cats=MEM, kinds={'assert', 'undef'})
    return dict(entry='five values of the floating point control register (default, denormals off, the three directed rounding modes)', calls='every first block length 0..%d and 1023..1026, in every kind of call' % (9 if q else 40)), ['the arithmetic itself is evaluated in the default mode; the sticky exception flags of the register are not part of the property']

def p27(run, q):
    jobs = [J('move', c, len=26 if q else 60, cost=scale(c)) for c in configs(ratios=(1, 2, 4, 8))]
    run.execute(jobs); run.judge(cats=MEM | UNINIT, kinds={'same', 'assert', 'undef', 'indep'})
    return dict(moves='move construction, move assignment over a used object, swap, relocation inside a growing vector, there and back; after every prefix of 0..%d units' % (26 if q else 60), addresses='heap blocks at 4 offsets'), ['applies as long as the class is movable']

PROPS = {'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09, 'P10': p10, 'P11': p11, 'P12': p12, 'P13': p13, 'P14': p14, 'P15': p15, 'P16': p16, 'P17': p17, 'P18': p18, 'P19': p19, 'P20': p20, 'P21': p21, 'P22': p22, 'P23': p23, 'P24': p24, 'P26': p26, 'P27': p27}
