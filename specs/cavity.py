"""Specification of the RF cavity (written once; runs on terms and on floats).

Longitudinal: on-axis field integrated step by step with the phase at the middle of each step; transverse: thin lenses of the
cavity lattice in order, each with its transit-time factors at the local energy and phase."""
from mathx import *
import optics as O
import cavtab as TAB

AU = 931.49432
MU0 = 4.0 * PI * 1e-7
RM = {1: 17.0, 2: 17.0, 3: 20.0, 4: 20.0}
LABEL = {1: 41, 2: 85, 3: 29, 4: 53}
TYPE = {'0.041QWR': 1, '0.085QWR': 2, '0.29HWR': 3, '0.53HWR': 4, 'Generic': 0}
FIT = {1: (4.394, -0.4965, 4.731), 2: (5.428, -0.5008, -1.6), 3: (22.35, -0.5348, -2.026), 4: (41.43, -0.5775, -2.59839), 5: (5.428, -0.5008, -1.6)}


def pow_(x, y):
    if isinstance(x, T) or isinstance(y, T):
        return fn('pow', R(x), R(y))
    return math.pow(x, y)


def beta_of(g):
    return sqrt(1.0 - 1.0 / (g * g))


def wave(beta, lam):
    return 2.0 * PI / (beta * lam)


def lam_rf(f):
    return C0 / f * MtoMM


def boost_step(fy, W, K, e0, e1, Z, Es, scl, dz, lam):
    """one step of the field integration -> phase, energy, wave number"""
    f1 = fy + K * dz
    w = W + Z * scl * (e0 + e1) / 2.0 * cos((fy + f1) / 2.0) * dz / MtoMM
    stop = lt(w - Es, 0.0)
    g = w / Es
    b = where(stop, 0.0, lambda: beta_of(g))
    return f1, where(stop, Es, w), 2.0 * PI / (b * lam)


def gap(dis, W0, Z, Es, fy, k, lam, Ec, t, s, tp, sp, V0):
    """acceleration in one gap -> energy, phase at the far end"""
    a = fy + k * Ec
    W = W0 + Z * V0 * MeVtoeV * (t * cos(a) - s * sin(a))
    kf = wave(beta_of(W / Es), lam)
    return W, a + kf * (dis - Ec) + Z * V0 * k * (tp * sin(a) + sp * cos(a)) / (2.0 * (W0 - Es) / MeVtoeV)


def sync_sin(cavi, Ek, P=None):
    """offset between driven and synchronous phase, sinusoidal fit (Ek in MeV)"""
    a, b, c = FIT[cavi] if cavi else P
    return a * pow_(Ek, b) - c


def sync_term(Ek, P):
    return P[0] * pow_(Ek, P[1]) + P[2] * log(Ek) + P[3] * exp(-Ek) + P[4]


def ttf(c, beta):
    if c[0] == 'c':
        return c[1]
    if c[0] == 'pow':
        return c[1] * pow_(beta, c[2]) + c[3]
    return series(c[1], beta)


def series(a, x):
    r = a[0]
    for k in range(1, 10):
        if a[k] != 0:
            r = r + a[k] * pow_(x, float(k))
    return r


def transit_map(z, E, gaplabel, K, half):
    """electric centre, T, T', S, S', V0 from a field table (trapezoidal sums about the electric centre)"""
    n = len(z)
    end = z[n - 1]
    if half:
        n = int(math.floor((n - 1) / 2.0 + 0.5))
    dz = (z[n - 1] - z[0]) / (n - 1)
    zz = [x - z[0] for x in z[:n]]
    zz[0] = 0.0
    A = sum((abs(E[k]) + abs(E[k + 1])) / 2 for k in range(n - 1)) * dz
    c = sum((zz[k] + zz[k + 1]) / 2 * (abs(E[k]) + abs(E[k + 1])) / 2 for k in range(n - 1)) * dz / A
    m = [(zz[k] + zz[k + 1]) / 2 - c for k in range(n - 1)]
    e = [(E[k] + E[k + 1]) / 2 for k in range(n - 1)]
    t = sum(x * math.cos(K * y) for x, y in zip(e, m)) * dz / A
    tp = -sum(x * y * math.sin(K * y) for x, y in zip(e, m)) * dz / A
    s = sum(x * math.sin(K * y) * (zz[k + 1] - zz[k]) for k, (x, y) in enumerate(zip(e, m))) / A
    sp = sum(x * y * math.cos(K * y) for x, y in zip(e, m)) * dz / A
    if gaplabel == 2:
        c, t, tp = end - c, -t, -tp
    return c, t, tp, s, sp, A / MeVtoeV / MtoMM


def lens(ty, Z, V0, beta, gamma, fy, t, s, rm):
    """thin multipole: kicks ((1,0), (3,2), (3,6)) of the matrix; None: no such multipole"""
    E = lambda: Z * V0 / (beta * beta) / gamma / AU * (t * cos(fy) - s * sin(fy))
    H = lambda: -MU0 * C0 * Z * V0 / beta / gamma / AU * (t * cos(fy + PI / 2.0) - s * sin(fy + PI / 2.0))
    if ty in ('EFocus', 'EFocus1', 'EFocus2'):
        return E() / rm, E() / rm, 0.0
    if ty == 'EDipole':
        return 0.0, 0.0, E()
    if ty == 'EQuad':
        return E() / rm, -(E() / rm), 0.0
    if ty == 'HMono':
        return H() / rm, H() / rm, 0.0
    if ty == 'HDipole':
        return 0.0, 0.0, H()
    if ty == 'HQuad':
        return H() / rm, -(H() / rm), 0.0
    return None


LEVEL = {'EDipole': 1, 'HDipole': 1, 'EQuad': 2, 'HMono': 2, 'HQuad': 2, 'EFocus': 0, 'EFocus1': 0, 'EFocus2': 0}


def lens_matrix(k):
    return O.with_entries(O.ident(), {(1, 0): k[0], (3, 2): k[1], (3, 6): k[2]})


def drift_matrix(L):
    return O.with_entries(O.ident(), {(0, 1): L, (2, 3): L})


def gap_matrix(a):
    return O.with_entries(O.ident(), {(1, 1): a, (3, 3): a})


def slip(L, bg, Es, lam):
    """longitudinal drift entry (4,5)"""
    return -2.0 * PI / lam * (1.0 / (bg * bg * bg) * MeVtoeV / Es * L)


def poly(x, c):
    """highest power first"""
    r = 0.0
    for a in c:
        r = r * x + a
    return r


def emit_growth(M, inn, out, f, phi, refZ, Es, betaf, gammaf, x2, cx, y2, cy):
    """covariance after the emittance growth of the cavity"""
    lam = lam_rf(f)
    dW = out['IonW'] - inn['IonW']
    b, g = (out['beta'] + inn['beta']) / 2, (out['gamma'] + inn['gamma']) / 2
    c = cos(phi)
    E0TL = where(band_(gt(c, -0.0001), lt(c, 0.0001)), 0.0, lambda: dW / c / refZ)
    d = sqrt(M[4][4])
    kx = -PI * fabs(refZ) * E0TL / Es / ((b * g) * (b * g)) / betaf / gammaf / lam
    F = lambda u: 15.0 / (u * u) * (3.0 / (u * u) * (sin(u) / u - cos(u)) - sin(u) / u)
    G = 0.5 * (1.0 + (sin(phi) * sin(phi) - c * c) * F(2.0 * d))
    h = G - (sin(phi) * F(d)) * (sin(phi) * F(d))
    grow = lambda a, m: where(gt(a + m, 0.0), lambda: sqrt((a + m) / m), 1.0)
    fx = grow(kx * kx * h * (x2 + cx * cx), M[1][1])
    fyy = grow(kx * kx * h * (y2 + cy * cy), M[3][3])
    kz = -2.0 * kx * g * g
    K = 2.0 * PI / (b * lam)
    dz2 = (kz * d) * (kz * d) * (d * d / (K * K)) * (c * c / 8.0 + d * sin(phi) / 576.0)
    lt_ = 1.0 / (g - 1.0) / Es * MeVtoeV
    fz = grow(dz2, M[5][5] * lt_ * lt_)
    w = [1.0, fx, 1.0, fyy, 1.0, fz, 1.0]
    return [[M[i][j] * w[i] * w[j] for j in range(7)] for i in range(7)]


def band_(a, b):
    return band(a, b) if isinstance(a, T) else a and b
