"""Frequency-domain properties, decided for every frequency by z3 (nonlinear real arithmetic) over Taylor models of the
frequency response; the response coefficients are the linear forms extracted by the symbolic engine from the real code."""
import time, math
import numpy as np, z3

def response(emit, n_in):
    """emit: linear form of one output in the input samples -> dict stream index -> coefficient"""
    return {i: v for s, i, v in emit['c'] if s == 0}

def qv(x):
    n, d = float(x).as_integer_ratio()
    return z3.Q(n, d) if d != 1 else z3.RealVal(n)

class Dec:
    def __init__(self): self.q = 0; self.t = 0.0; self.cells = 0; self.unknown = 0
    def decide(self, k, g, lo, hi, cond, M=10, weight=1.0):
        """Is there w in [lo,hi] with cond(Re,Im,slack) true?  G(w) = sum g_k exp(-j w k); k, g arrays.
        cond(re, im, rho) -> z3 Bool that must be UNSAT. Returns list of (w) counterexamples."""
        k = np.asarray(k, float); g = np.asarray(g, float)
        bad = []
        k0 = 0.0                                               # k is centred by the caller
        a = np.abs(k)
        scale = float(np.sum(np.abs(g)))
        # cell half-width such that the Taylor remainder sum |g||k|^M d^M/M! is far below the tolerance
        d = (hi - lo) / 2
        fac = math.factorial(M)
        top = a.max() + 1
        mom = float(np.sum(np.abs(g) * (a / top) ** M))
        while mom * (top * d) ** M / fac > self.rem: d /= 1.25
        n = max(1, int(math.ceil((hi - lo) / (2 * d)))); d = (hi - lo) / (2 * n)
        rho = mom * (top * d) ** M / fac + 1e-13 * scale + 1e-15 * scale * len(k)
        t = z3.Real('t')
        for c in range(n):
            wc = lo + (2 * c + 1) * d
            e = g * np.exp(-1j * wc * k); co = []
            m = np.ones(len(k), complex)
            for i in range(M):
                co.append(complex(np.sum(e * m)) * d ** i / math.factorial(i)); m = m * (-1j * k)
            # polynomial in t in [-1,1]; tiny coefficients go to the remainder
            extra = 0.0; re, im = [], []
            for i, z in enumerate(co):
                if abs(z) < 1e-16 * scale: extra += abs(z); re.append(0.0); im.append(0.0)
                else: re.append(z.real); im.append(z.imag)
            def poly(p):
                r = z3.RealVal(0)
                for x in reversed(p): r = r * t + qv(float('%.17g' % x))
                return r
            s = z3.Solver(); s.set('timeout', 20000)
            s.add(t >= -1, t <= 1, cond(poly(re), poly(im), rho + extra))
            t0 = time.time(); r = s.check(); self.t += time.time() - t0; self.q += 1; self.cells += 1
            if r == z3.sat:
                v = s.model()[t]
                if v is None: x = 0.0
                else:
                    if z3.is_algebraic_value(v): v = v.approx(20)
                    x = float(v.as_fraction())
                bad.append(wc + d * x)
                if len(bad) >= 3: break
            elif r != z3.unsat: self.unknown += 1
        return bad
    rem = 1e-11
