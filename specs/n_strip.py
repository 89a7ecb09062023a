"""Bounded run-time contract check of the charge stripper."""
import math
import native as N
from native import Fail
from refsim import Ref, particle
from n_moment import rnd, rand_source, load, cmp_state
from s_strip import DEF, PARA, E0PARA


def reference(S, e):
    S.recalc()
    env, _, _ = S.rms()
    g = lambda k: e.get(k, DEF[k])
    p, e0 = e.get('Stripper_Para', PARA), e.get('Stripper_E0Para', E0PARA)
    tot = sum(r['IonQ'] for r in S.real)
    phi = sum(r['IonQ'] * r['phis'] for r in S.real) / tot
    ek = (sum(r['IonQ'] * r['IonEk'] for r in S.real) / tot - p[2]) * e0[1] + e0[0]
    M = [[sum(r['IonQ'] * (S.m1[k][i][j] + (S.m0[k][i] - env[i]) * (S.m0[k][j] - env[j])) for k, r in enumerate(S.real)) / tot
          for j in range(7)] for i in range(7)]
    foil = math.sqrt(1 / 3.) * p[1] / 100 * p[0] * e0[2]
    th = math.sqrt(g('Stripper_upara') / g('Stripper_lambda') ** 2) * 1e-3
    gr = [1.0, math.sqrt((M[1][1] + th * th) / M[1][1]), 1.0, math.sqrt((M[3][3] + th * th) / M[3][3]), 1.0,
          math.sqrt((M[5][5] + g('Stripper_E1Para') ** 2 + foil * foil) / M[5][5])]
    W = [[M[i][j] * gr[i] * gr[j] if i < 6 and j < 6 else M[i][j] for j in range(7)] for i in range(7)]
    Z = e['IonChargeStates']
    if e.get('charge_model', 'baron') == 'off':
        pop = e['NCharge']
    else:
        a = g('Stripper_IonProton')
        q1 = a * (1 - math.exp(-83.275 * S.real[0]['beta'] / a ** 0.447))
        q = q1 * (1 - math.exp(-12.905 + 0.2124 * a - 0.00122 * a * a))
        y = q1 / a
        d = math.sqrt(q1 * (0.07535 + 0.19 * y - 0.2654 * y * y))
        pop = [math.exp(-0.5 * (z * g('Stripper_IonMass') - q) ** 2 / d ** 2) / d / math.sqrt(2 * math.pi) for z in Z]
    S.ref.update(IonZ=g('Stripper_IonZ'), IonEk=(S.ref['IonEk'] - p[2]) * e0[1] + e0[0])
    S.ref = particle(S.ref)
    S.real = [particle({'IonZ': z, 'IonQ': n, 'SampleFreq': S.ref['SampleFreq'], 'IonEs': S.ref['IonEs'], 'IonEk': ek, 'phis': phi}) for z, n in zip(Z, pop)]
    S.m0 = [list(env) for _ in Z]
    S.m1 = [[r[:] for r in W] for _ in Z]
    S.tm = [[[1.0 if i == j else 0.0 for j in range(7)] for i in range(7)] for _ in Z]


def c_strip(L, g, it):
    src = rand_source(g)
    src['IonEk'] = rnd(g, 1.5e7, 1.8e7)
    n = g.choice((1, 2, 3, 5, 12))
    e = {'name': 's', 'type': 'stripper', 'IonChargeStates': [rnd(g, 0.29, 0.37) for _ in range(n)], 'NCharge': [rnd(g, 1, 100) for _ in range(n)]}
    if n > 1 and g.random() < 0.3:
        a, b = g.sample(range(n), 2)
        e['IonChargeStates'][b] = e['IonChargeStates'][a]
        if g.random() < 0.5 and b:
            e['IonChargeStates'][b] = e['IonChargeStates'][b - 1]
    for k, a, b in (('Stripper_IonZ', 0.3, 0.35), ('Stripper_IonMass', 200, 240), ('Stripper_IonProton', 80, 95), ('Stripper_E1Para', 1e-3, 1e-2),
                    ('Stripper_lambda', 3, 7), ('Stripper_upara', 1, 4)):
        if g.random() < 0.4:
            e[k] = rnd(g, a, b)
    if g.random() < 0.4:
        e['Stripper_Para'] = [rnd(g, 1, 5), rnd(g, 5, 30), rnd(g, 1.6e7, 1.7e7)]
    if g.random() < 0.4:
        e['Stripper_E0Para'] = [rnd(g, 1.6e7, 1.7e7), rnd(g, 0.9, 1.1), rnd(g, -0.2, 0.2)]
    m = g.choice((None, 'off', 'baron'))
    if m:
        e['charge_model'] = m
    if g.random() < 0.3:
        e['L'] = rnd(g, 0.1, 1)         # ignored
    bad = None
    b = g.random()
    if b < 0.04:
        bad, e['charge_model'] = 'unknown charge model', 'barn'
    elif b < 0.08:
        bad = 'IonChargeStates missing'
        del e['IonChargeStates']
    elif b < 0.12:
        bad = 'NCharge missing'
        del e['NCharge']
    elif b < 0.16:
        bad, e['charge_model'] = 'NCharge of another length', 'off'
        e['NCharge'] = e['NCharge'] + [1.0] if g.random() < 0.5 else e['NCharge'][:-1]
    elif b < 0.2:
        bad, e[g.choice(('Stripper_Para', 'Stripper_E0Para'))] = 'too few stripper parameters', [1.0, 2.0][:g.choice((0, 1, 2))]
    dr = {'name': 'd', 'type': 'drift', 'L': rnd(g, 0.1, 1)}
    inp = {'lattice': [src, dr, e]}
    N.note(inp)
    ma = load(L, src, [dr, e])
    s = ma.state()
    for rep in range(2):
        ma.propagate(s, 0, 2)
        if rep:
            L.l.fl_realp(s.p, 0)[11] *= 1 + rnd(g, -1e-2, 1e-2)
        if g.random() < 0.2:
            # unusual populations: the averages are weighted with whatever the state holds
            k = g.randrange(s.n())
            L.l.fl_realp(s.p, k)[1] = g.choice((0.0, -0.1 * L.l.fl_realp(s.p, k)[1])) if s.n() > 1 else rnd(g, 1, 9)
        S = Ref.of(s)
        try:
            W = Ref.of(s)
            reference(W, dict(e, IonChargeStates=e.get('IonChargeStates', []), NCharge=e.get('NCharge', [])))
        except (ValueError, ZeroDivisionError, IndexError):
            if not bad:
                raise N.Skip()
        try:
            ma.propagate(s, 2, 1)
        except N.FlameError as x:
            if bad:
                return
            raise Fail('stripper rejected: %s' % x, inp)
        if bad:
            raise Fail('%s is accepted' % bad, inp)
        reference(S, e)
        cmp_state(s, S, 'stripper (pass %d)' % (rep + 1), inp)
    try:
        ma.propagate(s, 2, -1)
    except N.FlameError:
        return
    raise Fail('backward propagation through a stripper is accepted', inp)


CHECKS = {'strip': c_strip}
