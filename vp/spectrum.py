"""P10 / P11 / P21 on top of freq.Dec: builds responses from engine emits and runs the z3 queries in worker processes."""
import math, hashlib, numpy as np, z3, concurrent.futures as cf
from .freq import Dec, qv
PASS = {8: -40, 12: -64, 16: -88, 20: -112, 24: -130}
STOP = {8: -48, 12: -70, 16: -94, 20: -118, 24: -134}
BAND = 18 / 44.1

def high_rate_response(r):
    """(k, g) at the higher rate, k centred on delay(); scaled to unit passband gain"""
    c = r['job']['cfg']; R = c['ratio']; e = {(x['tag'], x['idx']): x for x in r['emits']}
    N = int(e[('n', 0)]['k']); d = e[('delay', 0)]['k']; k, g = [], []
    nonlin = False
    if c['up']:
        for p in range(R):
            x = e[('h', p)]; nonlin |= x['nonlin'] or x['uninit'] or x['k'] != 0
            for s, i, v in x['c']:
                if s == 0: k.append((N - 1 - i) * R + p - d); g.append(v / R)
    else:
        x = e[('h', 0)]; nonlin |= x['nonlin'] or x['uninit'] or x['k'] != 0
        for s, i, v in x['c']:
            if s == 0: k.append((N - 1) * R - i - d * R); g.append(v)
    return np.array(k), np.array(g), nonlin
def chain_response(r):
    e = {(x['tag'], x['idx']): x for x in r['emits']}; N = int(e[('n', 0)]['k']); d = e[('delay', 0)]['k']; x = e[('h', 0)]
    return np.array([N - 1 - i - d for s, i, v in x['c']]), np.array([v for s, i, v in x['c']]), x['nonlin'] or x['uninit'] or x['k'] != 0

def work(a):
    kind, R, prec, k, g = a[:5]; D = Dec(); out = []
    sq = lambda re, im: re * re + im * im
    if kind == 'pass':
        eps = 10 ** (PASS[prec] / 20); D.rem = eps * 1e-4
        f = lambda re, im, rho: z3.Or(sq(re, im) > qv(1 + eps - rho) * qv(1 + eps - rho), sq(re, im) < qv(1 - eps + rho) * qv(1 - eps + rho))
        out = [('pass', w) for w in D.decide(k, g, 0, 2 * math.pi * BAND / R, f)]
    elif kind == 'stop':
        thr = 10 ** (STOP[prec] / 20); D.rem = thr * 1e-4
        f = lambda re, im, rho: sq(re, im) > qv(thr - rho) * qv(thr - rho)
        for m in range(1, R // 2 + 1):
            lo, hi = 2 * math.pi * (m - BAND) / R, 2 * math.pi * min(m + BAND, R / 2) / R
            out += [('stop', w) for w in D.decide(k, g, lo, hi, f)]
    elif kind == 'chain':
        eps = 2 * 10 ** (PASS[prec] / 20); D.rem = eps * 1e-3
        f = lambda re, im, rho: (re - 1) * (re - 1) + im * im > qv(eps - rho) * qv(eps - rho)
        out = [('chain', w) for w in D.decide(k, g, 0, 2 * math.pi * BAND, f)]
    elif kind == 'chain-gain':
        eps = 2 * 10 ** (PASS[prec] / 20); D.rem = eps * 1e-3
        f = lambda re, im, rho: z3.Or(sq(re, im) > qv(1 + eps - rho) * qv(1 + eps - rho), sq(re, im) < qv(1 - eps + rho) * qv(1 - eps + rho))
        out = [('chain-gain', w) for w in D.decide(k, g, 0, 2 * math.pi * BAND, f)]
    elif kind == 'chain-delay':
        eps = 0.01 + 2 * 10 ** (PASS[prec] / 20); D.rem = 1e-5
        f = lambda re, im, rho: (re - 1) * (re - 1) + im * im > qv(eps - rho) * qv(eps - rho)
        out = [('chain-delay', w) for w in D.decide(k, g, 0, 2 * math.pi * 0.02, f)]
    return out, D.q, D.t, D.unknown, D.cells

def decide_all(tasks, cores):
    """tasks: list of (key, (kind, R, prec, k, g)); identical responses are decided once"""
    uniq = {}
    for key, a in tasks:
        o = np.argsort(a[3]); h = hashlib.sha1(repr((a[0], a[1], a[2])).encode() + np.round(a[3][o], 6).tobytes() + a[4][o].astype(np.float64).tobytes()).hexdigest()
        uniq.setdefault(h, ((a[0], a[1], a[2], a[3][o], a[4][o]), []))[1].append(key)
    res = {}
    items = sorted(uniq.values(), key=lambda x: -len(x[0][3]))
    with cf.ProcessPoolExecutor(cores) as ex:
        for (a, keys), r in zip(items, ex.map(work, [i[0] for i in items], chunksize=1)):
            for k in keys: res[(k, a[0])] = (r, a)
    return res, sum(r[0][1] for r in {id(v): v for v in res.values()}.values()), len(items)
