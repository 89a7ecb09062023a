"""Specification of the beam-optics matrices (textbook formulas, written once; run on terms and on floats).

Phase space: 0 x [mm], 1 x' [rad], 2 y, 3 y', 4 phase [rad], 5 kinetic energy offset [MeV/u], 6 constant 1."""
from mathx import *

X, PX, Y, PY, S, PS = range(6)


def quad2(L, K):
    """2x2 matrix of x'' = -K x over length L"""
    def foc():
        k = sqrt(K)
        return k * L
    kp = lambda: sqrt(K)
    kn = lambda: sqrt(-K)
    c = where(gt(K, 0), lambda: cos(kp() * L), where(eq(K, 0), 1.0, lambda: cosh(kn() * L)))
    s = where(gt(K, 0), lambda: sin(kp() * L) / kp(), where(eq(K, 0), L, lambda: sinh(kn() * L) / kn()))
    d = where(gt(K, 0), lambda: -kp() * sin(kp() * L), where(eq(K, 0), 0.0, lambda: kn() * sinh(kn() * L)))
    return [[c, s], [d, c]]


def put_block(M, i, B):
    M = [list(r) for r in M]
    for a in range(2):
        for b in range(2):
            M[i + a][i + b] = B[a][b]
    return M


def setm(M, **kw):
    return M


def with_entries(M, d):
    M = [list(r) for r in M]
    for (i, j), v in d.items():
        M[i][j] = v
    return M


def sol_entries(L, K):
    """rotating-frame solenoid, K = B/(2 Brho)"""
    C, Sn = cos(K * L), sin(K * L)
    z = eq(K, 0)
    sck = where(z, L, lambda: Sn * C / K)
    s2k = where(z, 0.0, lambda: Sn * Sn / K)
    return {(0, 0): C * C, (1, 1): C * C, (2, 2): C * C, (3, 3): C * C,
            (0, 1): sck, (2, 3): sck, (0, 2): Sn * C, (1, 3): Sn * C, (2, 0): -(Sn * C), (3, 1): -(Sn * C),
            (0, 3): s2k, (2, 1): -s2k, (1, 0): -(K * Sn * C), (3, 2): -(K * Sn * C), (1, 2): -(K * Sn * Sn), (3, 0): K * Sn * Sn}


def rot(dx, dy, ax, ay, az):
    """R = rotation by (pitch ax, yaw ay, roll az) in a left-handed frame, after a translation by (-dx, -dy)"""
    cx, sx = cos(ax), sin(ax)
    cy, sy = cos(ay), -sin(ay)
    cz, sz = cos(az), sin(az)
    m = [[cy * cz, sx * sy * cz + cx * sz, sx * sz - cx * sy * cz],
         [-(cy * sz), cx * cz - sx * sy * sz, cx * sy * sz + sx * cz],
         [sy, -(sx * cy), cx * cy]]
    R = [[0.0] * 7 for _ in range(7)]
    R[6][6] = 1.0
    for i in range(3):
        for j in range(3):
            R[2 * i][2 * j] = m[i][j]
            R[2 * i + 1][2 * j + 1] = m[i][j]
    T = ident()
    T[0][6] = -dx
    T[2][6] = -dy
    return mm(R, T)


def rot_inv(dx, dy, ax, ay, az):
    R = rot(0.0, 0.0, ax, ay, az)
    T = ident()
    T[0][6] = dx
    T[2][6] = dy
    return mm(T, tr(R))


def misalign(dx, dy, pitch, yaw, roll, length, IonK, beta, gamma, IonEs):
    """coordinate change into the displaced/rotated element frame and back (rotation about the element centre)"""
    a = -IonK
    b = beta * beta * gamma * IonEs / MeVtoeV

    def scl(p, q):
        m = ident()
        m[4][4] = p
        m[5][5] = q
        return m
    h = length / 2 * MtoMM

    def T(s, p):
        m = ident()
        m[4][6] = s
        m[5][6] = p
        return m
    D, Di = scl(1 / a, 1 / b), scl(a, b)
    M = chain(Di, T(h, -1.0), rot(dx, dy, pitch, yaw, roll), T(-h, 1.0), D)
    IM = chain(Di, T(-h, -1.0), rot_inv(dx, dy, pitch, yaw, roll), T(h, 1.0), D)
    return M, IM


def edge(rho, phi):
    return with_entries(ident(), {(1, 0): tan(phi) / rho, (3, 2): -(tan(phi) / rho)})


def eedge(fx, fy, kappa):
    return with_entries(ident(), {(1, 0): fx, (1, 1): sqrt(1 + kappa), (3, 2): fy, (5, 5): 1 + kappa})


def sbend(M, L, phi, phi1, phi2, K, IonEs, ref_gamma, qmrel, db, dg, d, dk):
    """M: matrix the body entries are written into (identity at the call sites)"""
    rho = L / phi
    Kx = K + 1 / (rho * rho)
    q = quad2(L, Kx)
    # particular solution of x'' = -Kx x + 1/rho : (dx, sx), and lx = int dx/rho
    dx = where(eq(Kx, 0), lambda: L * L / (2 * rho), lambda: (1 - q[0][0]) / (rho * Kx))
    sx = q[0][1] / rho
    lx = where(eq(Kx, 0), lambda: L * L * L / (6 * rho * rho), lambda: (L / rho - sx) / (Kx * rho))
    g = db * db * dg * IonEs / MeVtoeV
    B = put_block(put_block(M, 0, q), 2, quad2(L, -K))
    B = with_entries(B, {(0, 5): dx / g, (1, 5): sx / g, (4, 0): sx * dk, (4, 1): dx * dk,
                         (4, 5): (lx - L / (ref_gamma * ref_gamma)) * dk / g,
                         (4, 6): (lx * d - L / (ref_gamma * ref_gamma) * (d + qmrel)) * dk,
                         (0, 6): dx * d, (1, 6): sx * d})
    return chain(edge(rho, phi2), B, edge(rho, phi1))


def ebend(M, L, phi, fx, fy, kappa, Kx, Ky, IonEs, gam, eta0, h, dK, dKZ, IonK):
    rho = L / phi
    scl = (gam - 1) * IonEs / MeVtoeV
    q = quad2(L, Kx)
    # requires Kx != 0
    dx = (1 - q[0][0]) / (rho * Kx)
    sx = q[0][1]
    e1, e2 = 1 + eta0, 1 + 2 * eta0
    Nk = (e2 * e2 + h) / (2 * e1 * e2)
    Nt = 1 + h / (e2 * e2)
    Nkz = (e2 - h) / (2 * e1 * e2)
    cor = -(gam / (1 + gam))
    B = put_block(put_block(M, 0, q), 2, quad2(L, Ky))
    tz = (-(L / (2 * e1 * e2)) + (L - sx) / Kx / (rho * rho) * Nk * Nt) * cor
    n6 = Nk * dK + Nkz * dKZ
    B = with_entries(B, {(0, 5): dx * Nk / scl, (1, 5): sx / rho * Nk / scl, (4, 0): -(sx / rho * Nt * cor * IonK),
                         (4, 1): -(dx * Nt * cor * IonK), (4, 5): -(tz * IonK / scl), (0, 6): dx * n6, (1, 6): sx / rho * n6})
    E = eedge(fx, fy, kappa)
    return chain(E, B, E)


def sext(M, L, K3, Dx, Dy, D2x, D2y, D2xy, thin, kick, dr2=None):
    """thin, kick: python bools.  Thick lens: coupled quadrupole with gradient K3 (Dx, Dy); the entries outside the transverse
    4x4 part are those of M (k != 0)"""
    if thin:
        Dr = with_entries(ident(), {(0, 1): L / 2, (2, 3): L / 2})
        P = with_entries(ident(), {(1, 0): -(K3 * L * Dx), (1, 2): K3 * L * Dy, (3, 0): K3 * L * Dy, (3, 2): K3 * L * Dx})
        R = chain(Dr, P, Dr)
    else:
        dr = sqrt(Dx * Dx + Dy * Dy if dr2 is None else dr2)
        sg = where(gt(0.0, K3), -1.0, 1.0)
        k = sqrt(fabs(K3) * dr)
        ux, uy = sg * Dx, sg * Dy
        cs, sn, ch, sh = cos(k * L), sin(k * L), cosh(k * L), sinh(k * L)
        z = eq(k, 0)
        w = lambda a, b: where(z, b, a)
        two = 2 * dr if not iszero(dr) else 1.0
        if not isinstance(z, T) and z:
            R = with_entries(ident(), {(0, 1): L, (2, 3): L})
        else:
            a = ((dr + ux) * cs + (dr - ux) * ch) / two
            b = ((dr + ux) * sn + (dr - ux) * sh) / (two * k)
            c = k * ((dr - ux) * sh - (dr + ux) * sn) / two
            a2 = ((dr - ux) * cs + (dr + ux) * ch) / two
            b2 = ((dr - ux) * sn + (dr + ux) * sh) / (two * k)
            c2 = k * ((dr + ux) * sh - (dr - ux) * sn) / two
            x, y, v = uy * (ch - cs) / two, uy * (sh - sn) / (two * k), uy * k * (sn + sh) / two
            d = {(0, 0): a, (1, 1): a, (0, 1): b, (1, 0): c, (2, 2): a2, (3, 3): a2, (2, 3): b2, (3, 2): c2,
                 (0, 2): x, (2, 0): x, (1, 3): x, (3, 1): x, (0, 3): y, (2, 1): y, (1, 2): v, (3, 0): v}
            zero = with_entries(ident(), {(0, 1): L, (2, 3): L})
            R = [[w(d.get((i, j), M[i][j]), zero[i][j]) for j in range(7)] for i in range(7)]
    if kick:
        R = with_entries(R, {(1, 6): -(K3 * L * (D2x - D2y)), (3, 6): 2 * K3 * L * D2xy})
    return R


def drift_s(p, L):
    """longitudinal drift term d(phase)/d(energy)"""
    return -(2 * PI / (p.SampleLambda * p.IonEs / MeVtoeV * p.bg * p.bg * p.bg) * L)


def brho(p):
    return p.beta * p.IonW / (C0 * p.IonZ)


# ------------------------------------------------------------------ element transfer matrices (before misalignment)
def T_drift(c, L, ref, p):
    l = L * MtoMM
    return with_entries(ident(), {(0, 1): l, (2, 3): l, (4, 5): drift_s(p, l)})


def T_quad(c, ref, p):
    l = c('L') * MtoMM
    K = c('B2') / brho(p) / (MtoMM * MtoMM)
    M = put_block(put_block(ident(), 0, quad2(l, K)), 2, quad2(l, -K))
    return with_entries(M, {(4, 5): drift_s(p, l)})


def T_equad(c, ref, p):
    l = c('L') * MtoMM
    K = 2 * c('V') / (C0 * p.beta * c('radius') * c('radius')) / brho(p) / (MtoMM * MtoMM)
    M = put_block(put_block(ident(), 0, quad2(l, K)), 2, quad2(l, -K))
    return with_entries(M, {(4, 5): drift_s(p, l)})


def T_sol(c, ref, p):
    l = c('L') * MtoMM
    K = c('B') / (2 * brho(p)) / MtoMM
    M = with_entries(ident(), sol_entries(l, K))
    return with_entries(M, {(4, 5): drift_s(p, l)})


def T_orbtrim_kick(c, ref, p):
    real = eq(c('realpara', 0.0), 1)
    e = lambda: ref.IonZ * C0 / sqrt(ref.IonW * ref.IonW - ref.IonEs * ref.IonEs)
    tx = where(real, lambda: c('tm_xkick', 0.0) * e(), lambda: c('theta_x', 0.0))
    ty = where(real, lambda: c('tm_ykick', 0.0) * e(), lambda: c('theta_y', 0.0))
    return with_entries(ident(), {(1, 6): tx * p.IonZ / ref.IonZ, (3, 6): ty * p.IonZ / ref.IonZ})


def T_sbend(c, ref, p, fit, sbend=sbend):
    l = c('L') * MtoMM
    rad = PI / 180
    phi, phi1, phi2 = c('phi') * rad, c('phi1') * rad, c('phi2') * rad
    K = c('K', 0.0) / (MtoMM * MtoMM)
    q = (p.IonZ - ref.IonZ) / ref.IonZ
    if fit:
        return sbend(ident(), l, phi, phi1, phi2, K, ref.IonEs, ref.gamma, q, ref.beta, ref.gamma, -q, ref.SampleIonK)
    bg = c('bg')
    g = ((sqrt(bg * bg + 1) - 1) * ref.IonEs + ref.IonEs) / ref.IonEs
    b = sqrt(1 - 1 / (g * g))
    d = (ref.gamma - g) / (b * b * g) - q
    return sbend(ident(), l, phi, phi1, phi2, K, ref.IonEs, ref.gamma, q, b, g, d, 2 * PI / (b * ref.SampleLambda))


def edipole_args(c, ref, p, fit):
    l = c('L') * MtoMM
    phi = c('phi') * (PI / 180)
    b0 = ref.beta if fit else c('beta', ref.beta)
    eta0 = (1 / sqrt(1 - b0 * b0) - 1) / 2
    ratio = (p.beta * p.beta / p.IonZ) / (b0 * b0 / ref.IonZ)
    el = ratio * l
    rho = el / phi
    sp = c('spher')
    Kx = (1 - sp + (1 + 2 * eta0) * (1 + 2 * eta0)) / (rho * rho)
    return (el, phi, c('fringe_x', 0.0) / MtoMM, c('fringe_y', 0.0) / MtoMM, c('asym_fac', 0.0), Kx, sp / (rho * rho), ref.IonEs,
            p.gamma, eta0, 1.0, (ratio - 1) - (p.IonEk - ref.IonEk) / p.IonEk, ref.IonZ / p.IonZ - 1, 2 * PI / (p.beta * p.SampleLambda))


def rot90():
    R = ident()
    for i in range(4):
        R[i][i] = 0.0
    for a, b, v in ((0, 2, -1.0), (1, 3, -1.0), (2, 0, 1.0), (3, 1, 1.0)):
        R[a][b] = v
    return R


def T_edipole(c, ref, p, fit, ver, ebend=ebend):
    M = ebend(ident(), *edipole_args(c, ref, p, fit))
    if ver:
        R = rot90()
        M = chain(R, M, tr(R))
    return M
