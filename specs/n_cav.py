"""Bounded run-time contract checks of the RF cavity on the real library, with generated cavity data in a scratch directory."""
import copy, math, os, random, tempfile, time
import native as N
from native import Fail
import refsim as RS
from refsim import Ref, particle, mis
import optics as O
import cavity as V
import cavtab as TAB
from mathx import *
from n_moment import rnd, misal, rand_source, cmp_state, load, cond

MLP = ['EFocus1', 'EFocus2', 'EDipole', 'EQuad', 'HMono', 'HDipole', 'HQuad']
COL = {'EDipole': 1, 'EFocus1': 2, 'EFocus2': 3, 'EQuad': 4, 'HDipole': 5, 'HMono': 6, 'HQuad': 7}
NEWER = False
BACKMIS = False     # True: the listed deviation, backward misalignment with the exit wave number


class Data:
    pass


def gen_builtin(g, d, cavi):
    """field table, lattice and multipole fields of a built-in type"""
    D = Data()
    D.cavi = cavi
    lab = V.LABEL[cavi]
    n = g.choice((21, 40, 61))
    half = {1: 120.0, 2: 150.0, 3: 150.0, 4: 250.0}[cavi]
    D.z = [-half + 2 * half * k / (n - 1) for k in range(n)]
    amp, w, x = rnd(g, 0.3, 1) * 3e6, half / 6, half * rnd(g, 0.25, 0.35)
    D.E = [amp * (math.exp(-((z - x) / w) ** 2) - math.exp(-((z + x) / w) ** 2)) for z in D.z]
    D.lat = []

    def dr(l):
        D.lat.append(('drift', l, 0.0))
    segs = []
    tys = [t for t in MLP if cavi in (1, 2) or 'Dipole' not in t]
    for gp in (0, 1):
        ls = [g.choice(tys) for _ in range(g.choice((2, 3, 5)))]
        ls.insert(g.randrange(0, len(ls) + 1), 'AccGap')
        segs += ls
    pos = sorted(rnd(g, -half, half) for _ in segs)
    at = D.z[0]
    for t, p in zip(segs, pos):
        dr(p - at)
        at = p
        D.lat.append((t, 0.0, 0.0 if t == 'AccGap' else rnd(g, -1, 1) * (0.1 if t[0] == 'E' else 1e-4)))
    dr(half - at)
    m = g.choice((11, 30))
    D.mz = [2 * half * k / (m - 1) for k in range(m)]
    D.mt = {t: [rnd(g, -1e3, 1e3) for _ in D.mz] for t in MLP}
    os.makedirs('%s/Multipole%d' % (d, lab), exist_ok=True)
    # line ends, blank lines, comments and spacing do not matter
    nl, sp = g.choice(('\n', '\n', '\r\n')), g.choice((' ', ' ', '\t', ' \t  '))
    with open('%s/axisData_%d.txt' % (d, lab), 'w', newline='') as f:
        f.write(g.choice(('', '', '%z Ez' + nl)))
        for z, e in zip(D.z, D.E):
            f.write('%s%.17g%s%.17g%s' % (g.choice(('', sp)), z, sp, e, g.choice(('', sp)) + nl) + g.choice(('', '', '', ' \n')))
    with open('%s/Multipole%d/thinlenlon_%d.txt' % (d, lab, lab), 'w', newline='') as f:
        f.write('% comment\n\n')
        f.write(g.choice(('', '  \t% another comment\n \t\n', '%drift N0 10.0 0.015' + nl)))
        for k, (t, l, e) in enumerate(D.lat):
            f.write('%s%s%sN%04d%s%.17g 0.015%s' % (g.choice(('', sp)), t, sp, k, sp, l, '' if t in ('drift', 'AccGap') else ' %.17g' % e) + nl)
    with open('%s/Multipole%d/CaviMlp_%d.txt' % (d, lab, lab), 'w', newline='') as f:
        f.write('%Posi EDipole EFocus1 EFocus2 EQuad HDipole HMono HQuad' + nl)
        for k, z in enumerate(D.mz):
            f.write(sp.join('%.17g' % v for v in [z] + [D.mt[t][k] for t in sorted(COL, key=COL.get)]) + nl)
    return D


def gen_generic(g, path):
    D = Data()
    D.cavi = 0
    n = g.choice((2, 15, 41))
    half = rnd(g, 80, 200)
    D.z = [-half + 2 * half * k / (n - 1) for k in range(n)]
    amp = rnd(g, 0.1, 1) * 1e6
    D.E = [amp * rnd(g, -1, 1) for _ in D.z]
    D.Rm = rnd(g, 10, 30)
    D.RefNorm = rnd(g, 0.1, 0.2) if g.random() < 0.7 else None
    D.Sync = [[rnd(g, -1, 1) * s for s in (1, 0.5, 0.3, 0.2, 1)] for _ in range(g.choice((1, 2, 4)))] if g.random() < 0.7 else None
    D.lat = []
    D.acc = None
    for k in range(g.choice((3, 6, 9))):
        t = g.choice(('drift', 'drift', 'EFocus', 'EDipole', 'EQuad', 'HMono', 'HDipole', 'HQuad', 'AccGap', 'AccGap')) if k else 'AccGap'
        if t == 'drift':
            D.lat.append((t, rnd(g, 1, 80), 0.0, None, None))
            continue
        L = rnd(g, 0, 5) if g.random() < 0.2 else 0.0
        co = lambda: [rnd(g, -1, 1) * 10 ** (9 - i) * 0.5 for i in range(10)]
        Tf, Sf = co(), co()
        if t == 'AccGap' and D.acc is None:
            D.acc = [rnd(g, 2, 8), rnd(g, -0.6, -0.4), rnd(g, -3, 3)]
        D.lat.append((t, L, rnd(g, -1, 1) * (0.05 if t[0] != 'H' else 1e-4), Tf, Sf))
    lim = ''
    if g.random() < 0.5:
        lim += 'EnergyLimit = [0.1, 50.0];\nNormLimit = [0.0, 10.0];\n'
    with open(path, 'w') as f:
        v = lambda xs: '[' + ', '.join('%.17g' % x for x in xs) + ']'
        # aperture radius: of the data file, or else of the lattice
        D.RmIn = g.choice(('file', 'file', 'both', 'lattice'))
        if D.RmIn != 'lattice':
            f.write('Rm = %.17g;\n' % D.Rm)
        f.write(lim)
        if D.RefNorm is not None:
            f.write('RefNorm = %.17g;\n' % D.RefNorm)
        if D.Sync is not None:
            f.write('SyncFit = %s;\n' % v(sum(D.Sync, [])))
        f.write('Ez = %s;\n' % v([x for p in zip(D.z, D.E) for x in p]))
        first = True
        for k, (t, L, e, Tf, Sf) in enumerate(D.lat):
            if t == 'drift':
                f.write('n%d: drift, L = %.17g;\n' % (k, L))
            else:
                x = Tf + Sf
                if t == 'AccGap':
                    x = x + (D.acc if first else g.choice(([1.0, 2.0, 3.0], [1.0, 2.0, 3.0], [5.0], [])))
                    first = False
                if g.random() < 0.1 and len(x) >= 23:
                    x = x + [7.0]
                f.write('n%d: %s, L = %.17g, V0 = %.17g, attr = %s;\n' % (k, t, L, e, v(x)))
        f.write('cell: LINE = (%s);\nUSE: cell;\n' % ', '.join('n%d' % k for k in range(len(D.lat))))
    # polynomial scale: coefficients times powers of a wave number around 0.03
    return D


def boost(D, p, fy, scl, f):
    lam = V.lam_rf(f)
    n = len(D.z)
    dz = (D.z[-1] - D.z[0]) / (n - 1)
    W, K = p['IonW'], V.wave(p['beta'], lam)
    for k in range(n - 1):
        fy, W, K = V.boost_step(fy, W, K, D.E[k], D.E[k + 1], p['IonZ'], p['IonEs'], scl, dz, lam)
    return fy, W


def accelerate(D, p, fy, multip, scl, f):
    fo, W = boost(D, p, fy, scl, f)
    q = dict(p, IonEk=W - p['IonEs'])
    q = particle(q)
    q['phis'] = p['phis'] + (fo - fy) / multip
    return q


def factors(D, beta, K, gp, scl, force):
    lab = V.LABEL[D.cavi]
    lo, hi = TAB.BETA[lab]
    if force or beta < lo or beta > hi:
        c, t, tp, s, sp, v = V.transit_map(D.z, D.E, gp, K, True)
        return c, t, tp, s, sp, v * scl
    F = TAB.TF[lab][gp]
    return tuple(V.ttf(F[k], beta) for k in ('Ecen', 'T', 'Tp', 'S', 'Sp')) + (F['V0'][1] * scl,)


def mult(D, ty, K, force):
    lo, hi = TAB.KRANGE[D.cavi]
    if force or K < lo or K > hi:
        r = V.transit_map(D.mz, D.mt[ty], 0, K, False)
        return r[1], r[3]
    c = TAB.TM['CaviMlp_' + ty][D.cavi]
    return V.series(c['T'], K), V.series(c['S'], K)


def m_builtin(D, e, p, scl, fy0, Ek, level):
    f = e['f']
    lam = V.lam_rf(f)
    Z, Es = p['IonZ'], p['IonEs']
    force = e.get('forcettfcalc', 0.0) != 0
    dis = (D.z[-1] - D.z[0]) / 2
    W, fy, ga, be, k = [Ek + Es], [fy0], [], [], []
    tt = []
    for gp in (1, 2):
        ga.append(W[-1] / Es)
        be.append(V.beta_of(ga[-1]))
        k.append(V.wave(be[-1], lam))
        t = factors(D, be[-1], k[-1], gp, scl, force)
        tt.append(t)
        c, tf, tp, s, sp, v = t
        w, y = V.gap(dis, W[-1], Z, Es, fy[-1], k[-1], lam, c, tf, s, tp, sp, v)
        W.append(w)
        fy.append(y)
    ga.append(W[-1] / Es)
    be.append(V.beta_of(ga[-1]))
    k.append(V.wave(be[-1], lam))
    c1, c2 = tt[0][0] - dis, tt[1][0]
    kk = [(k[0] + k[1]) / 2, (k[1] + k[2]) / 2]
    # longitudinal: drift - kick - drift - kick - drift
    L1, L2, L3 = dis + c1, c2 - c1, dis - c2
    D2 = lambda i, L: [[1.0, V.slip(L, be[i] * ga[i], Es, lam)], [0.0, 1.0]]
    kick = lambda t, a: [[1.0, 0.0], [-Z * t[5] * (t[1] * math.sin(a) + t[3] * math.cos(a)), 1.0]]
    lon = chain(D2(2, L3), kick(tt[1], fy[1] + kk[1] * c2), D2(1, L2), kick(tt[0], fy[0] + kk[0] * L1), D2(0, L1))
    # transverse
    M = O.ident()
    s = D.z[0]
    b, gm, y, kf, seg = be[0], ga[0], fy[0], k[0], 0
    rm = V.RM[D.cavi]
    for ty, L, E0 in D.lat:
        s += L
        if ty == 'drift':
            y += kf * L
            M = mm(V.drift_matrix(L), M)
        elif ty == 'AccGap':
            a = be[0] * ga[0] / (be[1] * ga[1]) if s < 0 else be[1] * ga[1] / (be[2] * ga[2])
            seg += 1
            b, gm = be[seg], ga[seg]
            kf = V.wave(b, lam)
            M = mm(V.gap_matrix(a), M)
        elif level >= V.LEVEL[ty]:
            first = s < 0
            if ty == 'HQuad':
                i = 0 if first else 1
                b, gm = (be[i] + be[i + 1]) / 2, (ga[i] + ga[i + 1]) / 2
            src = ty
            if first and ty.startswith('EFocus'):
                src = {'EFocus1': 'EFocus2', 'EFocus2': 'EFocus1'}[ty]
            t, sv = mult(D, src, kk[0 if first else 1], force)
            if first:
                t, sv = (t, -sv) if ty[0] == 'E' else (-t, sv)
            M = mm(V.lens_matrix(V.lens(ty, Z, E0 * scl, b, gm, y, t, sv, rm)), M)
    return O.put_block(M, 4, lon)


def m_generic(D, e, p, scl, fy, Ek, level):
    f = e['f']
    lam = V.lam_rf(f)
    Z, Es = p['IonZ'], p['IonEs']
    W = Ek + Es
    ga = W / Es
    be = V.beta_of(ga)
    k = V.wave(be, lam)
    M, lon = O.ident(), ident(2)
    for ty, L, E0, Tf, Sf in D.lat:
        if ty == 'drift':
            fy += k * L
            M = mm(V.drift_matrix(L), M)
            lon = mm([[1.0, V.slip(L, be * ga, Es, lam)], [0.0, 1.0]], lon)
            continue
        t, s = V.poly(k, Tf), V.poly(k, Sf)
        if ty == 'AccGap':
            W = W + Z * E0 * scl * MeVtoeV * (t * math.cos(fy) - s * math.sin(fy))
            g1 = W / Es
            b1 = V.beta_of(g1)
            k = V.wave(b1, lam)
            M = mm(V.gap_matrix(be * ga / (b1 * g1)), M)
            lon = mm([[1.0, 0.0], [-Z * E0 * scl * (t * math.sin(fy) + s * math.cos(fy)), 1.0]], lon)
            be, ga = b1, g1
        elif level >= V.LEVEL[ty]:
            M = mm(V.lens_matrix(V.lens(ty, Z, E0 * scl, be, ga, fy, t, s, D.Rm)), M)
    return O.put_block(M, 4, lon)


class Cavity:
    """contract of the element, with the memory a backward pass may use (the last forward pass)"""

    def __init__(self, e, D):
        self.e, self.D = e, D
        self.last = None

    def forward(self, S):
        e, D = self.e, self.D
        S.recalc()
        f, scl = e['f'], e['scl_fac']
        level = int(float(e.get('MpoleLevel', 2)))
        grow = int(float(e.get('EmitGrowth', 0)))
        L = e['L']
        phi = e['phi'] * PI / 180
        ref = S.ref
        mul = f / ref['SampleFreq']
        sync = e.get('syncflag', 1.0)
        Ek = (ref['IonW'] - ref['IonEs']) / MeVtoeV
        if sync < 1:
            drive = phi
        else:
            if D.cavi == 0 and sync == 1 and D.RefNorm is not None and D.Sync is not None:
                nrm = scl * ref['IonZ'] / D.RefNorm
                off = sum(V.sync_term(Ek, P) * nrm ** i for i, P in enumerate(D.Sync))
            else:
                off = V.sync_sin(D.cavi, Ek, getattr(D, 'acc', None))
            drive = phi - off - ref['phis'] * mul
        S.cavphi = math.fmod(drive * 180 / PI, 360.0)
        ref_in = dict(ref)
        S.ref = accelerate(D, ref, mul * ref['phis'] + drive, mul, scl, f)
        ins, Ts, MM = [dict(p) for p in S.real], [], []
        for k, p in enumerate(ins):
            m = f / p['SampleFreq']
            fy = m * p['phis'] + drive
            q = accelerate(D, p, fy, m, scl, f)
            Tm = (m_builtin if D.cavi else m_generic)(D, e, p, scl, fy, p['IonEk'], level)
            Tm = [[Tm[i][j] * (m if j == 4 else 1.0) / (m if i == 4 else 1.0) for j in range(7)] for i in range(7)]
            S.real[k] = q
            M, IM = mis(e, L, S.ref, dict(q, SampleIonK=p['SampleIonK']))
            c0, m1 = mv(M, S.m0[k]), chain(M, S.m1[k], tr(M))
            c1 = mv(Tm, c0)
            z = [q['phis'] - S.ref['phis'], (q['IonEk'] - S.ref['IonEk']) / MeVtoeV]
            Tm[4][6], Tm[5][6] = z[0] - c1[4], z[1] - c1[5]
            c1[4:6] = z
            m1_ = chain(Tm, m1, tr(Tm))
            if grow:
                m1_ = V.emit_growth(m1_, p, q, f, phi, S.ref['IonZ'], S.ref['IonEs'], q['beta'], q['gamma'], S.m1[k][0][0], c0[0], S.m1[k][2][2], c0[2])
            S.m0[k], S.m1[k] = mv(IM, c1), chain(IM, m1_, tr(IM))
            S.tm[k] = chain(IM, Tm, M)
            Ts.append(Tm)
            MM.append((M, IM))
        S.pos += L
        self.last = (ref_in, dict(S.ref), ins, [dict(q) for q in S.real], Ts, MM, S.cavphi)

    def backward(self, S):
        ri, ro, ins, outs, Ts, MM, S.cavphi = self.last
        S.recalc()
        L = self.e['L']
        for k in range(len(S.real)):
            M, IM = MM[k]
            if BACKMIS:
                M, IM = mis(self.e, L, S.ref, S.real[k])
            inv = RS.npinv(chain(IM, Ts[k], M))
            S.m0[k], S.m1[k] = mv(inv, S.m0[k]), chain(inv, S.m1[k], tr(inv))
            S.tm[k] = inv
            S.real[k]['phis'] -= outs[k]['phis'] - ins[k]['phis']
            S.real[k]['IonEk'] = ins[k]['IonEk']
        S.ref['phis'] -= ro['phis'] - ri['phis']
        S.ref['IonEk'] = ri['IonEk']
        S.recalc()
        S.pos -= L


def disturbed(D, r):
    """data changed in the last digits"""
    D = copy.deepcopy(D)
    q = lambda x: x * (1 + r.uniform(-1, 1) * 1e-12)
    D.E = [q(x) for x in D.E]
    if D.cavi:
        D.lat = [(t, q(l), q(x)) for t, l, x in D.lat]
        D.mt = {t: [q(x) for x in v] for t, v in D.mt.items()}
    else:
        D.lat = [(t, q(l), q(x), a and [q(y) for y in a], b and [q(y) for y in b]) for t, l, x, a, b in D.lat]
        D.acc = D.acc and [q(x) for x in D.acc]
    return D


def illconditioned(e, D, trail, S):
    """the contract's own result depends on the last digits of its input (then rounding decides, and nothing is compared)"""
    for seed in range(3):
        r = random.Random(seed)
        C = Cavity(e, disturbed(D, r))
        try:
            for back, S0 in trail:
                X = S0.copy()
                for p in [X.ref] + X.real:
                    p['IonEk'] *= 1 + r.uniform(-1, 1) * 1e-12
                (C.backward if back else C.forward)(X)
        except (ValueError, OverflowError, ZeroDivisionError):
            return True
        try:
            for a, b in zip([X.ref] + X.real, [S.ref] + S.real):
                for f in a:
                    if not N.close(a[f], b[f], 1e-10, 1.0 if f == 'phis' else 0.0):
                        return True
            for k in range(len(S.real)):
                for A, B in (([X.m0[k]], [S.m0[k]]), (X.m1[k], S.m1[k]), (X.tm[k], S.tm[k])):
                    N.matclose(A, B, 1e-7)
        except Fail:
            return True
    return False


def compare(s, S, what, inp, e, D, trail):
    try:
        cmp_state(s, S, what, inp, 1e-6)
    except Fail:
        if not illconditioned(e, D, trail, S):
            raise
        return False
    return True


ENERGY = {1: (0.35e6, 2.5e6), 2: (1.5e6, 2.2e7), 3: (1.2e7, 7e7), 4: (5e7, 2e8), 0: (4e5, 2e7)}


def set_rm(g, e, D):
    e.pop('Rm', None)
    if D.RmIn != 'file':
        e['Rm'] = D.Rm if D.RmIn == 'lattice' else rnd(g, 10, 30)


def rand_cavity(g, d, tag=''):
    cavi = g.choice((0, 0, 1, 2, 3, 4))
    e = {'name': 'cav', 'type': 'rfcavity', 'L': rnd(g, 0.1, 0.5), 'f': g.choice((80.5e6, 161e6, 322e6)) if cavi == 0 else {1: 80.5e6, 2: 80.5e6, 3: 322e6, 4: 322e6}[cavi],
         'phi': g.choice((rnd(g, -90, 90), rnd(g, -90, 90), rnd(g, -180, 180), 90.0, -90.0)), 'scl_fac': rnd(g, 0.1, 0.9), 'cavtype': [k for k, v in V.TYPE.items() if v == cavi][0], 'Eng_Data_Dir': d}
    if cavi == 0:
        e['datafile'] = 'cav%s.lat' % tag
        D = gen_generic(g, '%s/%s' % (d, e['datafile']))
        set_rm(g, e, D)
    else:
        D = gen_builtin(g, d, cavi)
        if g.random() < 0.3:
            e['forcettfcalc'] = 1.0
    if g.random() < 0.5:
        e['syncflag'] = g.choice((0.0, 1.0, 2.0))
    if g.random() < 0.4:
        e['MpoleLevel'] = g.choice(('0', '1', '2', 0.0, 1.0, 2.0))
    if g.random() < 0.35:
        e['EmitGrowth'] = g.choice(('1', 1.0, '0'))
    misal(g, e, 0.4)
    return e, D


def cav_source(g, D):
    src = rand_source(g, g.choice((1, 2, 3)))
    lo, hi = ENERGY[D.cavi]
    src['IonEk'] = math.exp(rnd(g, math.log(lo), math.log(hi)))
    src['SampleFreq'] = g.choice((80.5e6, 80.5e6, 161e6))
    return src


def changed(s, g):
    k = g.randrange(-1, s.n())
    r = s.L.l.fl_realp(s.p, k) if k >= 0 else s.L.l.fl_refp(s.p)
    r[g.choice((11, 11, 10))] += 0
    if g.random() < 0.7:
        r[11] *= 1.0 + rnd(g, -1e-2, 1e-2)
    else:
        r[10] += rnd(g, -0.3, 0.3)


def sane(S):
    """the cases compared: the beam is not stopped and the numbers are finite"""
    if any(not (v == v and abs(v) < 1e12) for k in range(len(S.real)) for v in S.m0[k] + sum(S.m1[k], [])) or any(p['beta'] < 0.01 for p in S.real + [S.ref]):
        raise ValueError


def cav_case(L, g, it):
    with tempfile.TemporaryDirectory(prefix='fvcav') as d:
        e, D = rand_cavity(g, d)
        src = cav_source(g, D)
        inp = {'lattice': [src, dict(e, Eng_Data_Dir='<scratch>')], 'data': D.__dict__, 'steps': []}
        N.note(inp)
        m = load(L, src, [e])
        C = Cavity(e, D)
        s = m.state()
        m.propagate(s, 0, 1)
        hist = inp['steps']
        trail = []
        for rep in range(6):
            back = bool(hist) and hist[-1] != 'backward' and g.random() < 0.35
            try:
                if not back and hist:
                    if g.random() < 0.5:
                        s = m.state()
                        m.propagate(s, 0, 1)
                    if g.random() < 0.4:
                        changed(s, g)
                S = Ref.of(s)
                trail.append((back, S.copy()))
                (C.backward if back else C.forward)(S)
                sane(S)
                if back and max(map(cond, C.last[4])) > 1e7:
                    raise ValueError
            except (ValueError, OverflowError, ZeroDivisionError):
                break
            hist.append('backward' if back else 'forward')
            m.propagate(s, 1, -1 if back else 1)
            what = 'rfcavity %s (%s, after %s)' % (e['cavtype'], hist[-1], hist[:-1])
            if not compare(s, S, what, inp, e, D, trail):
                break
            if not N.close(float(s['last_caviphi0']), S.cavphi, 1e-7, 1.0) and abs(abs(float(s['last_caviphi0']) - S.cavphi) - 360) > 1e-3:
                raise Fail('%s: driven phase %r, contract %r' % (what, float(s['last_caviphi0']), S.cavphi), inp)
        else:
            if g.random() < 0.5:
                reconf(L, g, m, C, src, inp, d)


def reconf(L, g, m, C, src, inp, d):
    """changed parameters (and data file) take effect"""
    k = g.choice(('scl_fac', 'phi', 'f', 'MpoleLevel', 'dx', 'data', 'data'))
    e = dict(C.e)
    D = C.D
    if k == 'data':
        if D.cavi:
            D = gen_builtin(g, d, D.cavi)
            k = 'data files replaced'
        elif g.random() < 0.5:
            e['datafile'] = 'second.lat'
            D = gen_generic(g, '%s/second.lat' % d)
            set_rm(g, e, D)
        else:
            os.unlink('%s/%s' % (d, e['datafile']))
            D = gen_generic(g, '%s/%s' % (d, e['datafile']))
            set_rm(g, e, D)
            k = 'data file replaced'
        # replaced files have another modification time
        t = time.time() + g.choice((2, 50) if NEWER else (2, 50, -5, -1000))
        for x, _, fs in os.walk(d):
            for f in fs:
                os.utime(os.path.join(x, f), (t, t))
    elif k == 'f':
        e['f'] *= 0.9
    elif k == 'MpoleLevel':
        e[k] = float(g.choice((0, 1, 2)))
    else:
        e[k] = rnd(g, 0.1, 0.9) if k == 'scl_fac' else rnd(g, -150, 150) if k == 'phi' else 1e-3
    inp['steps'].append(['reconfigure', k])
    m.reconfigure(1, N.Conf.of(L, e))
    s = m.state()
    m.propagate(s, 0, 1)
    S = Ref.of(s)
    S0 = S.copy()
    try:
        Cavity(e, D).forward(S)
        sane(S)
    except (ValueError, OverflowError, ZeroDivisionError):
        return
    m.propagate(s, 1, 1)
    compare(s, S, 'rfcavity after reconfigure(%s)' % k, inp, e, D, [(False, S0)])


def c_cavity(L, g, it):
    """the contract itself; where it fails only by the listed deviation of backward passes, that finding is reported"""
    global BACKMIS
    st = g.getstate()
    try:
        cav_case(L, g, it)
    except Fail as x:
        BACKMIS = True
        g.setstate(st)
        try:
            cav_case(L, g, it)
        except Fail:
            raise x
        finally:
            BACKMIS = False
        N.finding('back-misalign', x)


def rewrite(path, f):
    t = open(path).read()
    os.unlink(path)
    open(path, 'w').write(f(t))


def c_errors(L, g, it):
    """malformed parameters and cavity data are errors (and a rejected backward step leaves the state usable)"""
    with tempfile.TemporaryDirectory(prefix='fvcav') as d:
        e, D = rand_cavity(g, d)
        src = cav_source(g, D)
        e.pop('syncflag', None)
        lab = V.LABEL.get(D.cavi)
        kinds = ['cavtype', 'level', 'growth', 'missing', 'field', 'short', 'lens', 'stale']
        kinds += ['attr', 'limit', 'nofit', 'sync', 'nofile', 'ragged'] if D.cavi == 0 else ['truncated', 'gaps', 'empty', 'nofile']
        k = kinds[(it // 2) % len(kinds)] if it % 2 else g.choice(kinds)
        df = '%s/%s' % (d, e.get('datafile', 'Multipole%s/thinlenlon_%s.txt' % (lab, lab)))
        inp = {'lattice': [src, e], 'data': D.__dict__, 'malformed': k}
        N.note(inp)
        line = lambda t, a, b: '\n'.join(b(x) if a(x) else x for x in t.split('\n'))
        if k == 'cavtype':
            e['cavtype'] = '0.041'
        elif k == 'level':
            e['MpoleLevel'] = g.choice((3.0, '3', 7.0))
        elif k == 'growth':
            e['EmitGrowth'] = g.choice((2.0, '5'))
        elif k == 'missing':
            del e[g.choice(('f', 'phi', 'scl_fac', 'cavtype'))]
        elif k == 'field':
            rewrite(df if D.cavi == 0 else '%s/axisData_%d.txt' % (d, lab),
                    (lambda t: line(t, lambda x: x.startswith('Ez'), lambda x: '')) if D.cavi == 0 else lambda t: '\n'.join(x.split()[0] if x.split() else '' for x in t.split('\n')))
        elif k == 'short':
            # fewer than two points of the field on axis
            n = g.choice((0, 1)) if D.cavi == 0 else 1
            if D.cavi == 0:
                rewrite(df, lambda t: line(t, lambda x: x.startswith('Ez'), lambda x: 'Ez = [%s];' % ', '.join(['0.5', '1.0'] * n)))
            else:
                rewrite('%s/axisData_%d.txt' % (d, lab), lambda t: t.strip().split('\n')[-1] + '\n')
        elif k == 'lens':
            rewrite(df, lambda t: t.replace('AccGap', 'AccGapX'))
        elif k == 'attr':
            n = g.choice((0, 5, 19))
            rewrite(df, lambda t: line(t, lambda x: 'AccGap' in x, lambda x: x[:x.index('attr')] + 'attr = [%s];' % ', '.join(['1.0'] * n)))
        elif k == 'limit':
            rewrite(df, lambda t: g.choice(('EnergyLimit', 'NormLimit')) + ' = [0.1];\n' + '\n'.join(x for x in t.split('\n') if 'Limit' not in x))
        elif k == 'nofit':
            rewrite(df, lambda t: line(t, lambda x: 'AccGap' in x, lambda x: x[:x.index(':')] + ': drift, L = 0;'))
            e['syncflag'] = 2.0
        elif k == 'sync':
            rewrite(df, lambda t: 'RefNorm = 0.14;\nSyncFit = [1.0, -0.5, 0.0, 0.0, 1.0, 2.0];\n' + '\n'.join(x for x in t.split('\n') if not x.startswith(('RefNorm', 'SyncFit'))))
        elif k == 'nofile':
            os.unlink(df if D.cavi == 0 else g.choice((df, '%s/axisData_%d.txt' % (d, lab), '%s/Multipole%d/CaviMlp_%d.txt' % (d, lab, lab))))
        elif k == 'ragged':
            rewrite(df, lambda t: line(t, lambda x: x.startswith('Ez'), lambda x: x.replace('];', ', 1.0];')))
        elif k == 'truncated':
            rewrite(df, lambda t: line(t, lambda x: x.lstrip().startswith(('EFocus', 'AccGap')), lambda x: ' '.join(x.split()[:g.choice((2, 3))])))
        elif k == 'gaps':
            rewrite(df, lambda t: t + 'AccGap X 0.0 0.015\n')
        elif k == 'empty':
            rewrite(df, lambda t: '% nothing\n')
        try:
            m = load(L, src, [e])
            s = m.state()
            m.propagate(s, 0, 2)
            if k == 'stale':
                r = L.l.fl_realp(s.p, 0) if g.random() < 0.5 else L.l.fl_refp(s.p)
                r[11] *= 1.001
                b = s.snapshot()
                m.propagate(s, 1, -1)
        except N.FlameError:
            if k == 'stale':
                for n_ in ('moment0', 'moment1', 'pos'):
                    x, y = b[n_], s[n_]
                    if ((x != y) & ((x == x) | (y == y))).any():
                        raise Fail('rejected backward step changes %s' % n_, inp)
            return
        raise Fail('malformed RF cavity accepted: ' + k, inp)


CHECKS = {'cavity': c_cavity, 'errors': c_errors}
