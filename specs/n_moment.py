"""Bounded run-time contract checks of the moment simulation on the real library (random lattices, fixed seeds)."""
import math, random, json
import numpy as np
import native as N
from native import Fail, close, matclose
import refsim as R
from refsim import Ref
from verify import PF, INDEP

MATRIX = ['marker', 'bpm', 'drift', 'orbtrim', 'sbend', 'quadrupole', 'solenoid', 'edipole', 'equad', 'tmatrix']
TYPES = ['marker', 'bpm', 'drift', 'orbtrim', 'sbend', 'quadrupole', 'solenoid', 'edipole', 'equad', 'tmatrix', 'sextupole']


def rnd(g, a, b):
    return g.uniform(a, b)


def misal(g, e, p=0.5):
    for k, a in (('dx', 2e-3), ('dy', 2e-3), ('pitch', 3e-2), ('yaw', 3e-2), ('roll', 0.3)):
        if g.random() < p:
            e[k] = rnd(g, -a, a)


def sgn(g):
    return g.choice((-1, 1))


def rand_elem(g, i, t=None):
    t = t or g.choice(TYPES)
    e = {'name': 'e%d' % i, 'type': t}
    if t in ('marker', 'bpm'):
        if g.random() < 0.4:
            e['L'] = rnd(g, 0.1, 1)     # ignored
    elif t == 'drift':
        if g.random() < 0.9:
            e['L'] = rnd(g, 0.01, 2)
    elif t == 'orbtrim':
        if g.random() < 0.4:
            e['realpara'] = g.choice((1.0, 1.0, 0.0))
            e['tm_xkick'], e['tm_ykick'] = rnd(g, -1e-2, 1e-2), rnd(g, -1e-2, 1e-2)
        for k in ('theta_x', 'theta_y'):
            if g.random() < 0.8:
                e[k] = rnd(g, -1e-2, 1e-2)
        if g.random() < 0.4:
            e['xyrotate'] = rnd(g, -90, 90)
        if g.random() < 0.3:
            e['L'] = rnd(g, 0.1, 1)     # ignored
        misal(g, e)
    elif t == 'sbend':
        e.update(L=rnd(g, 0.1, 1) if g.random() < 0.9 else 0.0, phi=sgn(g) * rnd(g, 2, 40), phi1=rnd(g, -20, 20), phi2=rnd(g, -20, 20), bg=rnd(g, 0.15, 0.25))
        if g.random() < 0.6:
            e['K'] = rnd(g, -20, 20)
        m = g.choice((None, 0.0, 1.0, '0', '1'))
        if m is not None:
            e['HdipoleFitMode'] = m
        misal(g, e)
    elif t in ('quadrupole', 'solenoid', 'equad'):
        e['L'] = rnd(g, 0.05, 0.4)
        if g.random() < 0.35:
            n, m = g.choice((1, 2, 3, 4, 7)), g.choice((1, 2, 3, 5, 9))
            e['ncurve'] = g.choice((float(n), '%d' % n))
            for k in range(n):
                s = 8 if t == 'quadrupole' else (5 if t == 'solenoid' else 2e6)
                e['curve%d' % k] = [rnd(g, -s, s) for _ in range(m)]
                if g.random() < 0.85:
                    e['scl_fac%d' % k] = rnd(g, -1.5, 1.5)
            if m > 1 and g.random() < 0.4:
                a = g.randrange(0, m - 1)
                e['use_range'] = [float(a), float(g.randrange(a + 1, m + 1))]
        if t == 'quadrupole':
            e['B2'] = rnd(g, -15, 15) if g.random() < 0.9 else 0.0
        elif t == 'solenoid':
            e['B'] = rnd(g, -7, 7) if g.random() < 0.9 else 0.0
        else:
            e.update(V=rnd(g, -8e3, 8e3), radius=rnd(g, 0.03, 0.1))
        misal(g, e)
    elif t == 'edipole':
        e.update(L=rnd(g, 0.1, 1) if g.random() < 0.9 else 0.0, phi=rnd(g, 10, 90), ver=g.choice((0.0, 1.0)), spher=rnd(g, 0, 1))
        for k, v in (('fringe_x', rnd(g, -3, 3)), ('fringe_y', rnd(g, -3, 3)), ('asym_fac', rnd(g, -0.2, 0.2)), ('beta', rnd(g, 0.1, 0.2))):
            if g.random() < 0.6:
                e[k] = v
        m = g.choice((None, 0.0, 1.0, '0', '1'))
        if m is not None:
            e['HdipoleFitMode'] = m
        misal(g, e)
    elif t == 'tmatrix':
        e['matrix'] = [(1.0 if k % 8 == 0 else 0.0) + rnd(g, -0.2, 0.2) for k in range(49)]
        if g.random() < 0.5:
            e['L'] = rnd(g, 0.1, 1)
    elif t == 'sextupole':
        e.update(L=rnd(g, 0.05, 0.3), B3=rnd(g, -40, 40))
        if g.random() < 0.6:
            e['step'] = float(g.choice((1, 2, 3, 4, 7, 10, 20)))
        if g.random() < 0.6:
            e['thinlens'] = g.choice((0.0, 1.0))
        if g.random() < 0.6:
            e['dstkick'] = g.choice((0.0, 1.0))
        misal(g, e)
    if g.random() < 0.15:
        e['skipcache'] = 1.0
    if g.random() < 0.3:
        special(g, e)
    return e


# parameters for which zero or the opposite sign is an ordinary value
ZERO = {'drift': ('L',), 'orbtrim': ('theta_x', 'theta_y', 'tm_xkick', 'tm_ykick', 'xyrotate', 'realpara'), 'sbend': ('L', 'phi1', 'phi2', 'K'),
        'quadrupole': ('L', 'B2'), 'solenoid': ('L', 'B'), 'equad': ('L', 'V'), 'edipole': ('fringe_x', 'fringe_y', 'asym_fac', 'ver'),
        'sextupole': ('B3',), 'tmatrix': ('L',)}
SIGN = {'drift': ('L',), 'sbend': ('phi', 'K'), 'quadrupole': ('L', 'B2'), 'solenoid': ('L', 'B'), 'equad': ('V', 'radius'), 'sextupole': ('B3',),
        'edipole': ('phi',)}
MIS = ('dx', 'dy', 'pitch', 'yaw', 'roll')


def special(g, e):
    """exact zeros, signs and coincidences"""
    t = e['type']
    r = g.random()
    if r < 0.5 and ZERO.get(t):
        k = g.choice(ZERO[t])
        if k in e:
            e[k] = 0.0
    elif r < 0.8 and SIGN.get(t):
        k = g.choice(SIGN[t])
        if k in e:
            e[k] = -e[k]
    elif any(k in e for k in MIS):
        for k in MIS:
            e.pop(k, None)
        k = g.choice(MIS)
        e[k] = g.choice((-1, 1)) * {'dx': 1e-3, 'dy': 1e-3, 'pitch': 2e-2, 'yaw': 2e-2, 'roll': 0.25}[k]


def rand_source(g, n=None):
    n = n or g.choice((1, 1, 2, 2, 3, 3, 5, 8, 12))
    Es = 931494320.0
    e = {'name': 'src', 'type': 'source', 'IonEs': Es, 'IonEk': rnd(g, 3e5, 3e7),
         'IonChargeStates': [rnd(g, 0.12, 0.16) for _ in range(n)], 'NCharge': [rnd(g, 1, 1e4) for _ in range(n)],
         'vector_variable': 'cen', 'matrix_variable': 'cov'}
    if g.random() < 0.5:
        e['SampleFreq'] = rnd(g, 5e7, 2e8)
    if g.random() < 0.5:
        e['IonZ'] = rnd(g, 0.12, 0.16)
    for k in range(n):
        e['cen%d' % k] = [rnd(g, -3, 3), rnd(g, -2e-3, 2e-3), rnd(g, -3, 3), rnd(g, -2e-3, 2e-3), rnd(g, -0.05, 0.05), rnd(g, -5e-3, 5e-3), 1.0]
        A = [[rnd(g, -1, 1) * s for s in (2, 1e-3, 2, 1e-3, 1e-2, 1e-3)] for _ in range(8)]
        M = [[sum(a[i] * a[j] for a in A) / 8 for j in range(6)] + [0.0] for i in range(6)] + [[0.0] * 7]
        e['cov%d' % k] = sum(M, [])
    if n > 1 and g.random() < 0.3:
        # coincidences between charge states
        for _ in range(g.choice((1, 2))):
            a, b = g.sample(range(n), 2)
            w = g.choice(('IonChargeStates', 'NCharge', 'cen', 'cov', 'Ek', 'all'))
            for k in ('IonChargeStates', 'NCharge'):
                if w in (k, 'all'):
                    e[k][b] = e[k][a]
            for k in ('cen', 'cov'):
                if w in (k, 'all'):
                    e['%s%d' % (k, b)] = list(e['%s%d' % (k, a)])
            if w == 'Ek':
                e['cen%d' % b][5] = e['cen%d' % a][5]
    if g.random() < 0.15:
        k = g.randrange(n)
        e['IonZ'] = e['IonChargeStates'][k]
        e['cen%d' % k][5] = 0.0
    return e


def cond(M):
    """condition number of a transfer matrix in the natural units of the coordinates"""
    d = np.array((1, 1e-3, 1, 1e-3, 1e-2, 1e-3, 1))
    return float(np.linalg.cond(np.array(M) * d[None, :] / d[:, None]))


def cmp_state(s, S, what, inp, rtol=1e-7, rms=True):
    """native state s against the reference S"""
    G = Ref.of(s)
    if len(G.real) != len(S.real):
        raise Fail('%s: number of charge states %d, contract %d' % (what, len(G.real), len(S.real)), inp)
    if not close(G.pos, S.pos, 1e-9, 1e-3):
        raise Fail('%s: pos %r, contract %r' % (what, G.pos, S.pos), inp)
    for nm, a, b in [('ref', G.ref, S.ref)] + [('charge state %d' % k, x, y) for k, (x, y) in enumerate(zip(G.real, S.real))]:
        for f in PF:
            if not close(a[f], b[f], 1e-9, 1.0 if f == 'phis' else 0.0):
                raise Fail('%s: %s.%s %r, contract %r' % (what, nm, f, a[f], b[f]), inp)
    for k in range(len(S.real)):
        matclose([G.m0[k]], [S.m0[k]], rtol, '%s: centroid %d' % (what, k), inp)
        matclose(G.m1[k], S.m1[k], rtol, '%s: covariance %d' % (what, k), inp)
        matclose(G.tm[k], S.tm[k], rtol, '%s: transfer matrix %d' % (what, k), inp)
    if rms:
        cmp_rms(s, G, what, inp)


def cmp_rms(s, G, what, inp):
    m0, m1, r = G.rms()
    matclose([s['moment0_env'].tolist()], [m0], 1e-7, what + ': mean centroid', inp)
    matclose(s['moment1_env'].tolist(), m1, 1e-7, what + ': mean covariance', inp)
    g = s['moment0_rms'].tolist()
    for j in range(7):
        if not math.isnan(r[j]) and r[j] > 1e-12 and not close(g[j], r[j], 1e-6, 1e-9):
            raise Fail('%s: rms[%d] %r, contract %r' % (what, j, g[j], r[j]), inp)


def load(L, src, elems):
    return N.Machine(L, N.lattice(L, 'MomentMatrix', [src] + elems))


def set_state(s, S):
    """write a reference state into a native one"""
    for a in s.arrays():
        v = a.np()
        if a.name == 'moment0':
            for k in range(len(S.real)):
                v[:, k] = S.m0[k]
        elif a.name == 'moment1':
            for k in range(len(S.real)):
                v[:, :, k] = S.m1[k]


def elem_case(L, g, it, types, back, energy=True, what='element step'):
    """one element: fresh, again with the same input, changed input, (backwards), each step against its contract"""
    t = types[it % len(types)]
    src = rand_source(g)
    e = rand_elem(g, 1, t)
    inp = {'lattice': [src, e], 'steps': []}
    N.note(inp)
    m = load(L, src, [e])
    s = m.state()
    m.propagate(s, 0, 1)
    hist = inp['steps']
    for rep in range(5 if back else 3):
        b = back and rep in (2, 3) and t != 'sextupole'
        try:
            if rep == 1:
                # same input again: served from the cache
                s = m.state()
                m.propagate(s, 0, 1)
            elif rep >= 2 and energy and g.random() < 0.6:
                k = g.randrange(-1, s.n())
                r = s.L.l.fl_realp(s.p, k) if k >= 0 else s.L.l.fl_refp(s.p)
                r[11] *= 1.0 + rnd(g, -1e-2, 1e-2)      # a different energy
            elif rep >= 2 and g.random() < 0.3:
                k = g.randrange(0, s.n())
                s.L.l.fl_realp(s.p, k)[0] *= 1.0 + rnd(g, -1e-2, 1e-2)
            S = Ref.of(s)
            R.step(S, e, b)
            if b and max(map(cond, S.tm)) > 1e5:
                break       # rounding alone exceeds the tolerance
        except (ValueError, OverflowError, ZeroDivisionError):
            break
        hist.append('backward' if b else 'forward')
        m.propagate(s, 1, -1 if b else 1)
        cmp_state(s, S, '%s %s (%s, after %s)' % (what, t, hist[-1], hist[:-1]), inp)


def c_forward(L, g, it):
    elem_case(L, g, it, MATRIX, False)


def c_history(L, g, it):
    elem_case(L, g, it, MATRIX, True)


def c_sext(L, g, it):
    st = g.getstate()
    try:
        elem_case(L, g, it, ['sextupole'], False)
    except Fail as x:
        # the thick lens without the listed deviation is correct as well
        R.DR2 = False
        g.setstate(st)
        try:
            elem_case(L, g, it, ['sextupole'], False)
        except Fail:
            raise x
        finally:
            R.DR2 = True
    if it % 4 == 0:
        src = rand_source(g)
        e = rand_elem(g, 1, 'sextupole')
        inp = {'lattice': [src, e], 'steps': ['forward', 'backward']}
        N.note(inp)
        m = load(L, src, [e])
        s = m.state()
        m.propagate(s)
        try:
            m.propagate(s, 1, -1)
        except N.FlameError:
            return
        raise Fail('backward propagation through a sextupole is accepted', inp)


def c_lattice(L, g, it):
    src = rand_source(g)
    es = [rand_elem(g, i + 1) for i in range(g.choice((2, 4, 7)))]
    inp = {'lattice': [src] + es}
    N.note(inp)
    m = load(L, src, es)
    s = m.state()
    m.propagate(s, 0, 1)
    S = Ref.of(s)
    for i, e in enumerate(es):
        R.step(S, e)
        m.propagate(s, i + 1, 1)
        cmp_state(s, S, 'lattice element %d (%s)' % (i + 1, e['type']), inp, 1e-6)
        S = Ref.of(s)


def c_curves(L, g, it):
    """field curves from files: which file, which range, how scaled; malformed curve data is an error"""
    import tempfile, os, time
    with tempfile.TemporaryDirectory(prefix='fvcurve') as d:
        dirs = [os.path.join(d, x) for x in ('a', 'b')]
        for x in dirs:
            os.mkdir(x)
        data = {}
        names = ['c.lat', 'k.lat']
        s = {'quadrupole': 8, 'solenoid': 5, 'equad': 2e6}
        inp = {'files': data, 'lattice': None}

        def write(x, f, t):
            n = g.choice((1, 2, 3, 6))
            m = g.choice((1, 2, 4, 7)) if g.random() < 0.97 else 130
            data[x[-1] + '/' + f] = cv = [[rnd(g, -s[t], s[t]) for _ in range(m)] for _ in range(n)]
            with open(os.path.join(x, f), 'w') as o:
                for k, v in enumerate(cv):
                    o.write('curve%d = [%s];\n' % (k, ', '.join('%r' % y for y in v)))
            os.utime(os.path.join(x, f), (10 ** 9 + g.randrange(3),) * 2)
        t = ('quadrupole', 'solenoid', 'equad')[it % 3]
        for x in dirs:
            for f in names:
                write(x, f, t)
        src = rand_source(g)
        for rep in range(4):
            if rep == 2:
                # the file changes (with another modification time)
                f = names[0]
                write(dirs[0], f, t)
                os.utime(os.path.join(dirs[0], f), (10 ** 9 + g.choice((3, 100)),) * 2)
            x, f = g.choice(dirs), g.choice(names)
            e = rand_elem(g, 1, t)
            for k in [k for k in e if k.startswith('curve') or k.startswith('scl_fac') or k in ('ncurve', 'use_range')]:
                del e[k]
            own = g.random() < 0.25
            cv = data[x[-1] + '/' + f]
            n = g.randrange(1, len(cv) + 1)
            m = len(cv[0])
            e['ncurve'] = float(n)
            if own:
                for k in range(n):
                    e['curve%d' % k] = cv[k]
            else:
                e['CurveFile'], e['Eng_Data_Dir'] = f, x
                if g.random() < 0.3:
                    e['curve0'] = [1.0, 2.0]        # ignored
            for k in range(n):
                if g.random() < 0.85:
                    e['scl_fac%d' % k] = rnd(g, -1.5, 1.5)
            if g.random() < 0.5:
                a = g.randrange(0, m)
                e['use_range'] = [float(a), float(g.randrange(a + 1, m + 1))]
            bad = None
            b = g.random()
            if b < 0.05:
                bad, e['ncurve'] = 'a curve is missing', float(len(cv) + 1)
                if own:
                    bad, e['ncurve'] = 'a curve is missing', float(n + 1)
            elif b < 0.1:
                bad, e['use_range'] = 'use_range exceeds the curve', [0.0, float(m + 1)]
            elif b < 0.15:
                bad, e['use_range'] = 'use_range has not two entries', [0.0, float(m), 1.0][:g.choice((1, 3))]
            elif b < 0.2 and not own:
                bad, e['CurveFile'] = 'the curve file does not exist', 'nosuch.lat'
            elif b < 0.25 and own and n > 1:
                k = g.randrange(1, n)
                bad, e['curve%d' % k] = 'curves differ in length', cv[k] + [0.0]
                e.pop('use_range', None)
            inp['lattice'] = [src, e]
            N.note(inp)
            ma = load(L, src, [e])
            st = ma.state()
            ma.propagate(st, 0, 1)
            S = Ref.of(st)
            try:
                ma.propagate(st, 1, 1)
            except N.FlameError as z:
                if bad:
                    continue
                raise Fail('curve data rejected: %s' % z, inp)
            if bad:
                raise Fail('accepted although %s' % bad, inp)
            q = dict(e)
            for k in range(n):
                q['curve%d' % k] = cv[k]
            try:
                R.step(S, q, False)
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
            cmp_state(st, S, 'field curves of a %s' % t, inp)


CHECKS = {'curves': c_curves, 'forward': c_forward, 'history': c_history, 'lattice': c_lattice, 'sext': c_sext}
