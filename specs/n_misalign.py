"""Bounded run-time contract checks of element misalignment."""
import math, ctypes as C
import native as N
from native import Fail, close, matclose
import refsim as RS
from refsim import Ref
import optics as O
from mathx import *
from n_moment import rnd, rand_source, rand_elem, misal, load, cmp_state

MT = ['quadrupole', 'solenoid', 'orbtrim', 'sbend', 'edipole', 'equad', 'sextupole']
KEYS = ('dx', 'dy', 'pitch', 'yaw', 'roll')


def c_misalign(L, g, it):
    t = MT[it % len(MT)]
    src = rand_source(g)
    e = rand_elem(g, 1, t)
    for k in KEYS:
        e.pop(k, None)
    misal(g, e, 0.7)
    if g.random() < 0.15:
        k = g.choice(KEYS)      # one error alone, large
        for q in KEYS:
            e.pop(q, None)
        e[k] = rnd(g, -0.5, 0.5)
    a = {k: v for k, v in e.items() if k not in KEYS}
    inp = {'lattice': [src, e]}
    N.note(inp)
    m, ma = load(L, src, [e]), load(L, src, [a])
    s = m.state()
    m.propagate(s, 0, 1)
    # frames
    S = Ref.of(s)
    S.recalc()
    buf, ibuf = (C.c_double * 49)(), (C.c_double * 49)()
    fr = []
    for k in range(len(S.real)):
        if L.l.fl_elem_misalign(m.p, 1, s.p, k, buf, ibuf):
            raise N.FlameError(L.err())
        A = [list(buf[7 * i:7 * i + 7]) for i in range(7)]
        B = [list(ibuf[7 * i:7 * i + 7]) for i in range(7)]
        M, IM = RS.mis(e, RS.elem_length(e), S.ref, S.real[k])
        matclose(A, M, 1e-8, 'entrance frame of charge state %d' % k, inp)
        matclose(B, IM, 1e-8, 'exit frame of charge state %d' % k, inp)
        fr.append((M, IM))
    # no misalignment: identity
    for k in range(len(S.real)):
        L.l.fl_elem_misalign(ma.p, 1, s.p, k, buf, ibuf)
        for X, nm in ((buf, 'entrance'), (ibuf, 'exit')):
            matclose([list(X[7 * i:7 * i + 7]) for i in range(7)], O.ident(), 1e-9, '%s frame of an aligned element' % nm, inp)
    # action of the misaligned element = aligned element seen from the frames
    b = s.clone()
    for k, (M, IM) in enumerate(fr):
        m0, m1 = mv(M, S.m0[k]), chain(M, S.m1[k], tr(M))
        for i in range(7):
            b['moment0'][i, k] = m0[i]
            for j in range(7):
                b['moment1'][i, j, k] = m1[i][j]
    ma.propagate(b, 1, 1)
    m.propagate(s, 1, 1)
    G, W = Ref.of(s), Ref.of(b)
    rot = t == 'orbtrim' and e.get('xyrotate', 0.0) != 0
    if rot:
        return          # the rotation is about the laboratory axes: compared entry by entry by the optics property
    for k, (M, IM) in enumerate(fr):
        matclose([G.m0[k]], [mv(IM, W.m0[k])], 1e-6, '%s: centroid %d through the misaligned element' % (t, k), inp)
        matclose(G.m1[k], chain(IM, W.m1[k], tr(IM)), 1e-6, '%s: covariance %d through the misaligned element' % (t, k), inp)
        matclose(G.tm[k], chain(IM, W.tm[k], M), 1e-6, '%s: transfer matrix %d of the misaligned element' % (t, k), inp)
    if not close(G.pos, W.pos, 1e-12, 1e-3):
        raise Fail('misalignment changes the path length', inp)


CHECKS = {'misalign': c_misalign}
