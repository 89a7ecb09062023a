"""Bounded run-time contract checks of the beam state: kinematics, statistics, copies, introspection, initial values."""
import math, ctypes as C
import native as N
from native import Fail, close, matclose
from refsim import Ref
from verify import PF, INDEP, recalc_spec
from n_moment import rnd, rand_source, rand_elem, load, TYPES, cmp_rms

BIG = 2147483647


def base_state(L, g, n=None, through=True):
    src = rand_source(g, n)
    es = [rand_elem(g, i + 1) for i in range(g.choice((0, 1, 2)))]
    inp = {'lattice': [src] + es}
    N.note(inp)
    m = load(L, src, es)
    s = m.state()
    m.propagate(s, 0, BIG if through else 1)
    return m, s, inp


def particles(s):
    return [('ref', s.L.l.fl_refp(s.p), -1)] + [('charge state %d' % k, s.L.l.fl_realp(s.p, k), k) for k in range(s.n())]


def rand_particle(g):
    q = g.random()
    Es = 0.0 if q < 0.1 else g.choice((931494320.0, 5e5, 938272081.0, rnd(g, 1e3, 1e10)))
    Ek = 0.0 if g.random() < 0.07 else Es * 10 ** rnd(g, -6, 1) if Es else rnd(g, 1e3, 1e7)
    return {'IonZ': rnd(g, -1, 1), 'IonQ': rnd(g, 0.1, 1e5), 'IonEs': Es, 'SampleFreq': 10 ** rnd(g, 6, 9), 'phis': rnd(g, -50, 50), 'IonEk': Ek}


def c_kinematics(L, g, it):
    m, s, inp = base_state(L, g)
    inp['particles'] = []
    pts = particles(s)
    for nm, p, k in pts:
        v = rand_particle(g)
        inp['particles'].append(v)
        for f, x in v.items():
            p[PF.index(f)] = x
        for f in PF:
            if f not in INDEP and g.random() < 0.7:
                p[PF.index(f)] = rnd(g, -5, 5)      # stale
    N.note(inp)
    S = Ref.of(s)
    if L.l.fl_recalc(s.p):
        raise N.FlameError(L.err())
    for (nm, p, k), v in zip(pts, inp['particles']):
        got = dict(zip(PF, p[:12]))
        for f in INDEP:
            if got[f] != v[f]:
                raise Fail('recalc changes the independent value %s.%s: %r -> %r' % (nm, f, v[f], got[f]), inp)
        W = v['IonEs'] + v['IonEk']
        ga = W / v['IonEs'] if v['IonEs'] else 1.0
        be = math.sqrt(max(0.0, 1 - 1 / (ga * ga)))
        bg = be * ga if be else 1.0
        la = 299792458.0 / v['SampleFreq'] * 1e3
        bt = 1e-8 + (2e-15 / (be * be) if be else 0.0)      # beta is a difference of nearly equal numbers at low energy
        for f, w, tol in (('IonW', W, 1e-13), ('gamma', ga, 1e-13), ('beta', be, bt), ('bg', bg, bt), ('SampleLambda', la, 1e-13),
                          ('SampleIonK', 2 * math.pi / (be * la) if be else None, bt)):
            if w is not None and not close(got[f], w, tol, 1e-300):
                raise Fail('%s.%s = %r, definition gives %r' % (nm, f, got[f], w), inp)
        b = L.l.fl_brho(s.p, k)
        w = got['beta'] * W / (299792458.0 * v['IonZ'])
        if not close(b, w, 1e-10):
            raise Fail('%s: rigidity %r, beta W/(c Z) gives %r' % (nm, b, w), inp)
    T = Ref.of(s)
    if T.m0 != S.m0 or T.m1 != S.m1 or T.tm != S.tm or T.pos != S.pos:
        raise Fail('recalc changes the moments', inp)
    # comparison
    A = (C.c_double * 12)(*[pts[0][1][i] for i in range(12)])
    B = (C.c_double * 12)(*A)
    for j in range(12):
        if math.isnan(A[j]) or math.isinf(A[j]):
            A[j] = B[j] = 1.0
    ks = g.sample(range(12), g.choice((0, 1, 1, 1, 2, 3)))
    for k in ks:
        x = B[k]
        B[k] = g.choice((math.nextafter(x, math.inf), -x if x else 1.0, x * 1.0001 + 1e-3, x + 1.0))
    inp['compare'] = [list(A), list(B)]
    N.note(inp)
    for a, b in ((A, B), (B, A), (A, A)):
        dif = {PF[k] for k in range(12) if a[k] != b[k]}
        eq = not (dif & set(INDEP))
        le = not (dif & (set(INDEP) - {'phis'}))
        for op, nm, w in ((0, '==', eq), (1, '!=', not eq), (2, '<=', le)):
            r = bool(L.l.fl_peq(a, b, op))
            if r != w:
                raise Fail('Particle operator%s is %s for particles which differ in %s' % (nm, r, sorted(dif)), inp)


def c_rms(L, g, it):
    n = 1 + it % 7 if it % 9 else 11
    m, s, inp = base_state(L, g, n)
    kind = g.choice((0, 0, 1, 2, 3))
    for k in range(n):
        p = L.l.fl_realp(s.p, k)
        p[1] = rnd(g, 0.01, 10) if kind != 1 else 10 ** rnd(g, -3, 5)
        if kind == 2 and n > 1 and k == g.randrange(n):
            p[1] = 0.0
    if kind == 3 and n > 1:
        L.l.fl_realp(s.p, g.randrange(n))[1] *= -0.3
    if abs(sum(L.l.fl_realp(s.p, k)[1] for k in range(n))) < 1e-2:
        raise N.Skip()
    if g.random() < 0.3:
        L.l.fl_refp(s.p)[1] = rnd(g, 1, 9)
    sc = [10 ** rnd(g, -3, 1) for _ in range(7)]
    m0, m1 = s['moment0'], s['moment1']
    for k in range(n):
        for i in range(7):
            m0[i, k] = rnd(g, -1, 1) * sc[i] if i < 6 or g.random() < 0.2 else 1.0
        V = [[rnd(g, -1, 1) * sc[i] for i in range(7)] for _ in range(7)]
        for i in range(7):
            for j in range(7):
                m1[i, j, k] = sum(v[i] * v[j] for v in V)
        if g.random() < 0.3:
            for i in range(7):
                for j in range(i):
                    m1[i, j, k] = m1[i, j, k] * 1.25      # not symmetric: still entry by entry
    S = Ref.of(s)
    inp['state'] = {'IonQ': [p['IonQ'] for p in S.real], 'moment0': S.m0, 'moment1': S.m1}
    N.note(inp)
    if L.l.fl_calc_rms(s.p):
        raise N.FlameError(L.err())
    a, b, r = S.rms()
    for j in range(7):
        for i in range(7):
            w = b[i][j]
            x = float(s['moment1_env'][i, j])
            if not close(x, w, 1e-8, 1e-4 * sc[i] * sc[j] * 7):
                raise Fail('ensemble covariance [%d,%d] = %r, contract %r' % (i, j, x, w), inp)
        x = float(s['moment0_env'][j])
        if not close(x, a[j], 1e-9, 1e-4 * sc[j]):
            raise Fail('mean centroid [%d] = %r, contract %r' % (j, x, a[j]), inp)
        x = float(s['moment0_rms'][j])
        if not (math.isnan(x) and math.isnan(r[j])) and not close(x, r[j], 1e-7, 1e-9 * sc[j]) and b[j][j] > -1e-9 * sc[j] ** 2 \
                and not (abs(b[j][j]) < 1e-12 * sc[j] ** 2 and (math.isnan(x) or x * x < 2e-12 * sc[j] ** 2)):
            raise Fail('rms [%d] = %r, contract %r' % (j, x, r[j]), inp)
    T = Ref.of(s)
    if T.m0 != S.m0 or T.m1 != S.m1 or T.tm != S.tm or T.pos != S.pos or T.real != S.real or T.ref != S.ref:
        raise Fail('calc_rms changes the charge states', inp)


def snap(s):
    d = {k: v.tolist() for k, v in s.snapshot().items()}
    d.pop('next_elem', None)
    return d


def full(s, moment=True):
    d = snap(s)
    if moment:
        d['$ref'] = s.L.l.fl_refp(s.p)[:12]
        d['$real'] = [s.L.l.fl_realp(s.p, k)[:12] for k in range(s.n())]
    return d


def nanfix(x):
    if isinstance(x, float) and math.isnan(x):
        return 'nan'
    if isinstance(x, list):
        return [nanfix(y) for y in x]
    if isinstance(x, dict):
        return {k: nanfix(v) for k, v in x.items()}
    return x


def same(a, b, what, inp):
    a, b = nanfix(a), nanfix(b)
    if a == b:
        return
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            raise Fail('%s: %s is %s, contract %s' % (what, k, str(a.get(k))[:200], str(b.get(k))[:200]), inp)


def scramble(g, s):
    """change every stored value of a state"""
    for a in s.arrays():
        if a.type == 0:
            v = a.np()
            v += rnd(g, 0.1, 1)


def mk_linear(L, g, typ, n=None):
    dim = 6 if typ == 'Vector' else 36
    e = [{'name': 'src', 'type': 'source', 'initial': [rnd(g, -2, 2) for _ in range(dim)]}]
    for i in range(g.choice((1, 2, 3))):
        e.append({'name': 'd%d' % i, 'type': g.choice(('drift', 'quadrupole', 'solenoid')), 'L': rnd(g, 0.1, 1), 'K': rnd(g, -2, 2)})
    inp = {'sim_type': typ, 'lattice': e}
    N.note(inp)
    m = N.Machine(L, N.lattice(L, typ, e))
    s = m.state()
    m.propagate(s)
    return m, s, inp


def any_state(L, g, it, n=None):
    t = ('MomentMatrix', 'MomentMatrix', 'Vector', 'TransferMatrix')[it % 4]
    if t == 'MomentMatrix':
        m, s, inp = base_state(L, g, n)
        # every field of the state gets a value of its own
        s['last_caviphi0'][...] = rnd(g, -180, 180)
        s['pos'][...] = rnd(g, 1, 20)
        for nm, p, k in particles(s):
            for i in range(12):
                p[i] *= 1 + rnd(g, -1e-3, 1e-3)
        for a in ('moment0_env', 'moment0_rms', 'moment1_env', 'transmat', 'moment1', 'moment0'):
            v = s[a]
            for ix in range(v.size):
                v[tuple(int(z) for z in __import__('numpy').unravel_index(ix, v.shape))] += rnd(g, -1e-2, 1e-2)
        # ... or the default one
        for a in ('last_caviphi0', 'pos', 'moment0_env', 'moment0_rms', 'moment1_env', 'transmat', 'moment1', 'moment0'):
            if g.random() < 0.12:
                s[a][...] = 0.0
        if g.random() < 0.2:
            nm, p, k = g.choice(particles(s))
            p[g.randrange(12)] = 0.0
        return t, m, s, inp
    return (t,) + mk_linear(L, g, t)


def c_copies(L, g, it):
    t, m, s, inp = any_state(L, g, it)
    mom = t == 'MomentMatrix'
    nx = g.randrange(0, 5)
    L.l.fl_state_setnext(s.p, nx)
    L.l.fl_state_retreat(s.p, g.choice((0, 1)))
    rt = L.l.fl_state_retreat(s.p, -1)
    L.l.fl_state_pyptr(s.p, 1, 0x1234)
    try:
        A = full(s, mom)
        c = s.clone()
        same(full(c, mom), A, 'clone', inp)
        if L.l.fl_state_next(c.p) != 0 or L.l.fl_state_retreat(c.p, -1):
            raise Fail('a clone starts at next_elem=%d, retreat=%d' % (L.l.fl_state_next(c.p), L.l.fl_state_retreat(c.p, -1)), inp)
        if L.l.fl_state_pyptr(c.p, 0, None):
            raise Fail('a clone shares the wrapper object of the original', inp)
        if L.l.fl_state_next(s.p) != nx or L.l.fl_state_retreat(s.p, -1) != rt:
            raise Fail('cloning changes the original', inp)
        scramble(g, c)
        same(full(s, mom), A, 'original after its clone was modified', inp)
        c = s.clone()
        scramble(g, s)
        same(full(c, mom), A, 'clone after the original was modified', inp)
        # assign into a state with other contents and another number of charge states
        if mom:
            m2, d, _ = base_state(L, g)
        else:
            m2, d, _ = mk_linear(L, g, t)
        scramble(g, d)
        L.l.fl_state_setnext(d.p, 3)
        L.l.fl_state_retreat(d.p, 1)
        if L.l.fl_state_assign(d.p, c.p):
            raise Fail('assign of a compatible state failed: ' + L.err(), inp)
        same(full(d, mom), A, 'assigned state', inp)
        same(full(c, mom), A, 'source of the assignment', inp)
        if L.l.fl_state_next(d.p) != 3 or L.l.fl_state_retreat(d.p, -1) != 1:
            raise Fail('assign changes next_elem / direction', inp)
        scramble(g, d)
        same(full(c, mom), A, 'source after the assigned state was modified', inp)
        L.l.fl_state_assign(d.p, c.p)
        scramble(g, c)
        same(full(d, mom), A, 'assigned state after the source was modified', inp)
        # another simulation type is rejected
        t2 = g.choice([x for x in ('MomentMatrix', 'Vector', 'TransferMatrix') if x != t])
        o = base_state(L, g)[1] if t2 == 'MomentMatrix' else mk_linear(L, g, t2)[1]
        if L.l.fl_state_assign(d.p, o.p) == 0:
            raise Fail('assign of a %s state to a %s state is accepted' % (t2, t), inp)
        same(full(d, mom), A, 'target after a rejected assignment', inp)
    finally:
        L.l.fl_state_pyptr(s.p, 1, None)


def c_independent(L, g, it):
    """propagating a copy gives what the original gives and leaves the original alone"""
    src = rand_source(g)
    es = [rand_elem(g, i + 1) for i in range(g.choice((2, 3, 4)))]
    inp = {'lattice': [src] + es}
    N.note(inp)
    m = load(L, src, es)
    s = m.state()
    k = g.randrange(1, len(es) + 1)
    m.propagate(s, 0, k)
    A = full(s)
    c = s.clone()
    m.propagate(c, k)
    same(full(s), A, 'original while its copy propagates', inp)
    m.propagate(s, k)
    same(full(s), full(c), 'copy against original propagated from element %d' % k, inp)


MOM = {'moment0': 1, 'moment1': 2, 'transmat': 2}


def c_arrays(L, g, it):
    t, m, s, inp = any_state(L, g, it)
    arr = s.arrays()
    names = [a.name for a in arr]
    if len(set(names)) != len(names):
        raise Fail('array names are not unique: %s' % names, inp)
    A = {a.name: a for a in arr}

    def expect(nm, dim, type_=0):
        if nm not in A:
            raise Fail('no parameter %r' % nm, inp)
        if A[nm].dim != dim or A[nm].type != type_:
            raise Fail('parameter %r has dimensions %s type %d, expected %s type %d' % (nm, A[nm].dim, A[nm].type, dim, type_), inp)
        return A[nm].np()
    expect('next_elem', [], 1)
    expect('pos', [])
    nx = g.randrange(0, 99)
    L.l.fl_state_setnext(s.p, nx)
    if int(s['next_elem']) != nx:
        raise Fail('next_elem reads %d after being set to %d' % (int(s['next_elem']), nx), inp)
    s['next_elem'][...] = 3
    if L.l.fl_state_next(s.p) != 3:
        raise Fail('writing next_elem has no effect', inp)
    if t != 'MomentMatrix':
        v = expect('state', [6] if t == 'Vector' else [6, 6])
        # the stored value: what the source gives
        sr = inp['lattice'][0]['initial']
        m.propagate(s, 0, 1)
        w = s['state'].reshape(-1).tolist()
        if w != sr:
            raise Fail('state after the source is %s, expected %s' % (w, sr), inp)
        return
    n = s.n()
    for f in PF:
        if f == 'SampleLambda':
            continue
        v = expect('ref_' + f, [])
        if float(v) != L.l.fl_refp(s.p)[PF.index(f)]:
            raise Fail('ref_%s reads %r, the state holds %r' % (f, float(v), L.l.fl_refp(s.p)[PF.index(f)]), inp)
        x = rnd(g, 1, 2)
        v[...] = x
        if L.l.fl_refp(s.p)[PF.index(f)] != x:
            raise Fail('writing ref_%s does not reach the state' % f, inp)
        v = expect(f, [n])
        for k in range(n):
            if float(v[k]) != L.l.fl_realp(s.p, k)[PF.index(f)]:
                raise Fail('%s[%d] reads %r, the state holds %r' % (f, k, float(v[k]), L.l.fl_realp(s.p, k)[PF.index(f)]), inp)
        for k in range(n):
            v[k] = 10.0 * k + x
        for k in range(n):
            if L.l.fl_realp(s.p, k)[PF.index(f)] != 10.0 * k + x:
                raise Fail('writing %s[%d] does not reach the state' % (f, k), inp)
    expect('last_caviphi0', [])
    for nm, d in (('moment0', [7, n]), ('moment1', [7, 7, n]), ('transmat', [7, 7, n]), ('moment0_env', [7]), ('moment0_rms', [7]), ('moment1_env', [7, 7])):
        v = expect(nm, d)
        if hasattr(L.l, 'fl_moment_elem'):
            import numpy as np
            for _ in range(12):
                ix = [g.randrange(q) for q in d]
                k = ix[-1] if nm in MOM else 0
                jj = ix[:-1] if nm in MOM else ix
                p = L.l.fl_moment_elem(s.p, nm.encode(), k, jj[0], jj[1] if len(jj) > 1 else 0)
                x = rnd(g, -1, 1)
                v[tuple(ix)] = x
                if p[0] != x:
                    raise Fail('%s%s addresses another entry of the state' % (nm, ix), inp)
    # distinct storage
    seen = {}
    for a in s.arrays():
        import itertools
        for ix in itertools.product(*[range(q) for q in a.dim]):
            ad = a.ptr + sum(i * z for i, z in zip(ix, a.stride))
            if ad in seen:
                raise Fail('%s%s and %s%s address the same value' % (a.name, list(ix), seen[ad][0], seen[ad][1]), inp)
            seen[ad] = (a.name, list(ix))


def c_initial(L, g, it):
    """the state a source or allocState() builds is what the configuration says"""
    n = g.choice((1, 2, 3, 5, 11, 13))
    full_ = it % 3 != 2
    e = {'IonEs': rnd(g, 5e8, 1e9), 'IonEk': rnd(g, 1e5, 5e7)}
    if g.random() < 0.5:
        e['SampleFreq'] = rnd(g, 5e7, 2e8)
    if g.random() < 0.5:
        e['IonZ'] = rnd(g, 0.1, 0.4)
    if g.random() < 0.5:
        e['IonQ'] = rnd(g, 1, 99)
    vn, mn = 'moment0', 'initial'
    if g.random() < 0.5:
        e['vector_variable'] = vn = 'BC'
    if g.random() < 0.5:
        e['matrix_variable'] = mn = 'S'
    vec = lambda: [rnd(g, -3, 3), rnd(g, -1e-2, 1e-2), rnd(g, -3, 3), rnd(g, -1e-2, 1e-2), rnd(g, -0.5, 0.5), rnd(g, -0.05, 0.05), 1.0]
    mat = lambda: [rnd(g, -1, 1) for _ in range(49)]
    cs = None
    bad = None
    if full_:
        e['IonChargeStates'] = [rnd(g, 0.1, 0.4) for _ in range(n)]
        e['NCharge'] = [rnd(g, 1, 1e4) for _ in range(n)]
        for k in range(n):
            e['%s%d' % (vn, k)], e['%s%d' % (mn, k)] = vec(), mat()
        if g.random() < 0.4:
            cs = g.randrange(n)
            e['cstate'] = cs + g.choice((0.0, 0.0, 0.4))
        b = g.random()
        if b < 0.06:
            bad, e['NCharge'] = 'NCharge has another length', e['NCharge'] + [1.0]
        elif b < 0.12:
            bad, e['cstate'] = 'cstate out of bounds', float(n)
        elif b < 0.18:
            bad, e['IonChargeStates'], e['NCharge'] = 'no charge states', [], []
        elif b < 0.24:
            bad = 'centroid vector has a wrong size'
            e['%s%d' % (vn, cs or 0)] = vec() + [0.0] if g.random() < 0.5 else vec()[:6]
        elif b < 0.30:
            bad = 'covariance missing'
            del e['%s%d' % (mn, cs or 0)]
        elif b < 0.34:
            bad = 'NCharge missing'
            del e['NCharge']
    else:
        have = (g.random() < 0.7, g.random() < 0.7)
        if have[0]:
            e[vn] = vec()
        if have[1]:
            e[mn] = mat()
        if g.random() < 0.1:
            bad, e['cstate'] = 'cstate without charge states', 0.0
    inp = {'source': e}
    N.note(inp)
    how = g.choice(('source', 'alloc'))
    inp['how'] = how
    try:
        if how == 'source':
            src = dict(e, name='src', type='source')
            m = N.Machine(L, N.lattice(L, 'MomentMatrix', [src]))
            s = m.state()
            m.propagate(s)
        else:
            m = N.Machine(L, N.lattice(L, 'MomentMatrix', [{'name': 'm', 'type': 'marker'}]))
            c = N.Conf(L)
            for k, v in e.items():
                c[k] = v
            s = m.state(c)
    except N.FlameError as x:
        if bad:
            return
        raise Fail('rejected: %s' % x, inp)
    if bad:
        raise Fail('accepted although %s' % bad, inp)
    S = Ref()
    rz = e.get('IonZ', e['IonChargeStates'][0] if full_ else 0.0)
    rq = e.get('IonQ', e['NCharge'][0] if full_ else 1.0)
    ref = {'IonZ': rz, 'IonQ': rq, 'IonEs': e['IonEs'], 'IonEk': e['IonEk'], 'SampleFreq': e.get('SampleFreq', 80.5e6), 'phis': 0.0}
    S.ref = recalc_spec(ref)
    Id = [[float(i == j) for j in range(7)] for i in range(7)]
    if full_:
        for k in ([cs] if cs is not None else range(n)):
            v = e['%s%d' % (vn, k)]
            M = e['%s%d' % (mn, k)]
            S.m0.append(v)
            S.m1.append([M[7 * i:7 * i + 7] for i in range(7)])
            S.real.append(recalc_spec(dict(ref, IonZ=e['IonChargeStates'][k], IonQ=e['NCharge'][k], phis=v[4], IonEk=ref['IonEk'] + v[5] * 1e6)))
            S.tm.append(Id)
    else:
        S.real = [dict(S.ref)]
        S.m0 = [e.get(vn, [0.0] * 7)]
        S.m1 = [[e[mn][7 * i:7 * i + 7] for i in range(7)] if mn in e else Id]
        S.tm = [Id]
    G = Ref.of(s)
    if len(G.real) != len(S.real):
        raise Fail('%d charge states, contract %d' % (len(G.real), len(S.real)), inp)
    if G.pos != 0.0 or float(s['last_caviphi0']) != 0.0:
        raise Fail('initial position %r, cavity phase %r' % (G.pos, float(s['last_caviphi0'])), inp)
    for nm, a, b in [('ref', G.ref, S.ref)] + [('charge state %d' % k, x, y) for k, (x, y) in enumerate(zip(G.real, S.real))]:
        for f in PF:
            if not close(a[f], b[f], 1e-10 + (2e-15 / b['beta'] ** 2 if f in ('beta', 'bg', 'SampleIonK') and b['beta'] else 0.0)):
                raise Fail('%s.%s = %r, contract %r' % (nm, f, a[f], b[f]), inp)
    for k in range(len(S.real)):
        if G.m0[k] != S.m0[k]:
            raise Fail('centroid %d is %s, contract %s' % (k, G.m0[k], S.m0[k]), inp)
        if G.m1[k] != S.m1[k]:
            raise Fail('covariance %d is %s, contract %s' % (k, G.m1[k], S.m1[k]), inp)
        if G.tm[k] != S.tm[k]:
            raise Fail('initial transfer matrix %d is %s, contract identity' % (k, G.tm[k]), inp)
    cmp_rms(s, G, 'initial state', inp)


CHECKS = {'kinematics': c_kinematics, 'rms': c_rms, 'copies': c_copies, 'independent': c_independent, 'arrays': c_arrays, 'initial': c_initial}
