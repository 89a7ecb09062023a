"""Executable form of the contracts of the moment simulation: a reference propagation written only from the specification functions.
Used for the bounded run-time contract checks and to confirm counterexamples on the real library."""
import math, random
from verify import recalc_spec, NS, INDEP, PF
from mathx import *
import optics as O


def particle(p):
    return recalc_spec({k: p[k] for k in INDEP})


def npinv(A):
    import numpy as np
    return np.linalg.inv(np.array(A, float)).tolist()


class Ref:
    """state: ref, real[], m0[], m1[], tm[], pos, last_caviphi0"""

    def __init__(self):
        self.pos = 0.0
        self.real, self.m0, self.m1, self.tm = [], [], [], []

    @classmethod
    def of(cls, s):
        """read from a native state"""
        r = cls()
        r.pos = float(s['pos'])
        r.ref = s.ref()
        n = s.n()
        r.real = [s.real(k) for k in range(n)]
        m0, m1, tm = s['moment0'], s['moment1'], s['transmat']
        r.m0 = [[float(m0[i, k]) for i in range(7)] for k in range(n)]
        r.m1 = [[[float(m1[i, j, k]) for j in range(7)] for i in range(7)] for k in range(n)]
        r.tm = [[[float(tm[i, j, k]) for j in range(7)] for i in range(7)] for k in range(n)]
        return r

    def copy(self):
        import copy
        return copy.deepcopy(self)

    def recalc(self):
        self.ref = particle(self.ref)
        self.real = [particle(p) for p in self.real]

    def rms(self):
        Q = sum(p['IonQ'] for p in self.real)
        m0 = [sum(self.m0[k][j] * self.real[k]['IonQ'] for k in range(len(self.real))) / Q for j in range(7)]
        m1 = [[0.0] * 7 for _ in range(7)]
        for i in range(6):
            for j in range(6):
                m1[i][j] = sum(p['IonQ'] * (self.m1[k][i][j] + (self.m0[k][i] - m0[i]) * (self.m0[k][j] - m0[j]))
                               for k, p in enumerate(self.real)) / Q
        return m0, m1, [math.sqrt(m1[j][j]) if m1[j][j] >= 0 else float('nan') for j in range(7)]


class C:
    """element configuration"""

    def __init__(self, d):
        self.d = d

    def __call__(self, k, default=None):
        v = self.d.get(k)
        if v is None or isinstance(v, (str, list)):
            if default is None:
                raise KeyError(k)
            return default
        return v


def mis(e, length, ref, p):
    g = lambda k, f=1.0: e.get(k, 0.0) * f
    return O.misalign(g('dx', MtoMM), g('dy', MtoMM), g('pitch'), g('yaw'), g('roll'), length, p['SampleIonK'], p['beta'], p['gamma'], ref['IonEs'])


def elem_length(e):
    return 0.0 if e['type'] in ('marker', 'bpm', 'orbtrim') else e.get('L', 0.0)


def flag(e, k, d):
    return int(float(e.get(k, d)))


def curves(e):
    """-> (scales, curves) of an element with ncurve"""
    n = flag(e, 'ncurve', 0)
    cs, ss = [], []
    for k in range(n):
        c = e['curve%d' % k]
        if 'use_range' in e:
            a, b = int(e['use_range'][0]), int(e['use_range'][1])
            c = c[a:b]
        cs.append(c)
        ss.append(e.get('scl_fac%d' % k, 0.0))
    return ss, cs


def curve_T(e, p, kfun, body):
    ss, cs = curves(e)
    l = e['L'] * MtoMM
    dl = l / len(cs[0])
    M = O.ident()
    for j in range(len(cs[0])):
        K = sum(kfun(s * c[j]) for s, c in zip(ss, cs))
        T = O.with_entries(body(dl, K), {(4, 5): O.drift_s(p, dl)})
        M = mm(T, M)
    return M


def quadbody(l, K):
    return O.put_block(O.put_block(O.ident(), 0, O.quad2(l, K)), 2, O.quad2(l, -K))


def solbody(l, K):
    return O.with_entries(O.ident(), O.sol_entries(l, K))


def transfer(e, ref, p):
    """matrix of one element for one charge state (ref, p: consistent particles)"""
    t = e['type']
    c = C(e)
    r, q = NS(ref), NS(p)
    L = elem_length(e)
    if t in ('marker', 'bpm'):
        return O.ident()
    if t == 'drift':
        return O.T_drift(c, L, r, q)
    if t == 'tmatrix':
        return [e['matrix'][7 * i:7 * i + 7] for i in range(7)]
    w = lambda T0: chain(mis(e, L, ref, p)[1], T0, mis(e, L, ref, p)[0])
    if t == 'orbtrim':
        M = w(O.T_orbtrim_kick(c, r, q))
        a = e.get('xyrotate', 0.0) * PI / 180
        return mm(M, O.rot(0.0, 0.0, 0.0, 0.0, a)) if a != 0 else M
    nc = flag(e, 'ncurve', 0)
    B = O.brho(q)
    if t == 'quadrupole':
        return w(curve_T(e, q, lambda b: b / B / (MtoMM * MtoMM), quadbody) if nc else O.T_quad(c, r, q))
    if t == 'equad':
        return w(curve_T(e, q, lambda b: 2 * b / (C0 * q.beta) / B / (MtoMM * MtoMM), quadbody) if nc else O.T_equad(c, r, q))
    if t == 'solenoid':
        return w(curve_T(e, q, lambda b: b / (2 * B) / MtoMM, solbody) if nc else O.T_sol(c, r, q))
    fit = flag(e, 'HdipoleFitMode', 1)
    if t == 'sbend':
        return w(O.T_sbend(c, r, q, fit)) if e['L'] != 0 else O.ident()
    if t == 'edipole':
        return w(O.T_edipole(c, r, q, fit, e['ver'] == 1)) if e['L'] != 0 else O.ident()
    raise KeyError(t)


def step(S, e, back=False):
    """contract of one element step, in place"""
    t = e['type']
    S.recalc()
    L = elem_length(e)
    sg = -1.0 if back else 1.0
    if t == 'sextupole':
        return sext_step(S, e)
    S.pos += sg * L
    ref0 = dict(S.ref)
    S.ref['phis'] += sg * S.ref['SampleIonK'] * L * MtoMM
    for k in range(len(S.real)):
        Tm = transfer(e, ref0, S.real[k])
        if back:
            Tm = npinv(Tm)
        old = S.m0[k]
        S.m0[k] = mv(Tm, S.m0[k])
        S.m1[k] = chain(Tm, S.m1[k], tr(Tm))
        S.tm[k] = Tm
        S.real[k]['phis'] += sg * S.real[k]['SampleIonK'] * L * MtoMM
        if t == 'sbend':
            S.real[k]['phis'] += S.m0[k][4] - old[4]


DR2 = True


def sext_step(S, e):
    dr2 = DR2      # the known deviation of the thick lens (|D| from Dx alone) is part of the as-is behaviour
    L = e['L']
    n = int(e.get('step', 1.0))
    dl = L * MtoMM / n
    thin, kick = e.get('thinlens', 0.0) == 1, e.get('dstkick', 1.0) == 1
    for k, p in enumerate(S.real):
        q = NS(p)
        K = e['B3'] / O.brho(q) / MtoMM ** 3
        M, IM = mis(e, L, S.ref, p)
        m0, m1 = mv(M, S.m0[k]), chain(M, S.m1[k], tr(M))
        tm = O.ident()
        T = O.ident()
        for _ in range(n):
            d2 = 2 * m0[0] * m0[0] if dr2 else None
            T = O.sext(T, dl, K, m0[0], m0[2], m1[0][0], m1[2][2], m1[0][2], thin, kick, d2)
            T = O.with_entries(T, {(4, 5): O.drift_s(q, dl)})
            m0, m1, tm = mv(T, m0), chain(T, m1, tr(T)), mm(T, tm)
        S.m0[k], S.m1[k] = mv(IM, m0), chain(IM, m1, tr(IM))
        S.tm[k] = chain(IM, tm, M)
        p['phis'] += p['SampleIonK'] * L * MtoMM
    S.ref['phis'] += S.ref['SampleIonK'] * L * MtoMM
    S.pos += L
