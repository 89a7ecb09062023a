"""Contracts of FLAME functions used at call sites (each is itself discharged against the real body by the property
that owns it, see specs/), plus the assumed contract of the ublas LU solver."""
import re
from terms import *
from sym import *
import lib as LIB
from lib import gget, gset, strval, cstr_at, vec, vec_new, vec_copy_into
from logic import entails, feasible
import logic as LOGIC

PTR_ = PTR


def at(p, o):
    return Ptr(p.r, iadd(p.o, ic(o)))


# ------------------------------------------------------------------ Config (owned by the Config property)
def confname(st, p):
    g = gget(st, p)
    if g is None or g[0] != 'config':
        raise Unknown("Config object without ghost value")
    return g[1]


def keyname(v):
    if v[0] == 'lit':
        return v[1]
    return repr(v)


def has(c, key, ty):
    return pred('has', c, key, ty)


def cval(c, key):
    return rvar('%s[%s]' % (c, key))


def h_get_double(ex, st, a, n):
    c, k = confname(st, a[0]), keyname(strval(st, a[1]))
    h = has(c, k, 'double')
    d = ex.decide(st, h)
    if d is False:
        return Throw('_ZTI9key_error')
    if d is True:
        return cval(c, k)
    s2 = st.clone()
    st.assume(h)
    s2.assume(bnot(h))
    return Fork([(st, cval(c, k)), (s2, Throw('_ZTI9key_error'))])


def h_get_double_def(ex, st, a, n):
    c, k = confname(st, a[0]), keyname(strval(st, a[1]))
    h = has(c, k, 'double')
    d = a[2]
    if isinstance(d, Ptr):
        d = ex.load(st, d, ('d',))
    x = ex.decide(st, h)
    if x is not None:
        return cval(c, k) if x else d
    return rite(h, cval(c, k), d)


def h_tryget_double(ex, st, a, n):
    c, k = confname(st, a[0]), keyname(strval(st, a[1]))
    h = has(c, k, 'double')
    s2 = st.clone()
    st.assume(h)
    ex.store(st, a[2], cval(c, k), ('d',))
    s2.assume(bnot(h))
    return Fork([(st, TRUE), (s2, FALSE)])


def h_tryget_string(ex, st, a, n):
    c, k = confname(st, a[0]), keyname(strval(st, a[1]))
    h = has(c, k, 'string')
    s2 = st.clone()
    st.assume(h)
    gset(st, a[2], ('sym', '%s[%s]' % (c, k)))
    s2.assume(bnot(h))
    return Fork([(st, TRUE), (s2, FALSE)])


def h_get_string(ex, st, a, n):
    """returns const string& (no default)"""
    c, k = confname(st, a[0]), keyname(strval(st, a[1]))
    h = has(c, k, 'string')
    r = ex.alloc(st, 'confstr')
    r.cells[('g', 0)] = ('sym', '%s[%s]' % (c, k))
    d = ex.decide(st, h)
    if d is True:
        return Ptr(r.id, I0)
    if d is False:
        return Throw('_ZTI9key_error')
    s2 = st.clone()
    st.assume(h)
    s2.assume(bnot(h))
    return Fork([(st, Ptr(r.id, I0)), (s2, Throw('_ZTI9key_error'))])


def h_get_string_def(ex, st, a, n):
    c, k = confname(st, a[0]), keyname(strval(st, a[1]))
    h = has(c, k, 'string')
    r = ex.alloc(st, 'confstr')
    r.cells[('g', 0)] = ('sym', '%s[%s]' % (c, k))
    d = ex.decide(st, h)
    if d is True:
        return Ptr(r.id, I0)
    if d is False:
        return a[2]
    s2 = st.clone()
    st.assume(h)
    s2.assume(bnot(h))
    return Fork([(st, Ptr(r.id, I0)), (s2, a[2])])


def conf_vec(ex, st, c, k, p):
    nm = '%s[%s]' % (c, k)
    n = ivar('n.' + nm)
    st.assume(ile(I0, n))
    ex.nonneg = ex.nonneg | {'n.' + nm}
    n2 = st.ghost.get(('size', nm), n)
    return vec_new(ex, st, p, n2, 8, {0: (8, 'R')}, base='sym', name=nm, fam=nm)


def h_get_vec(ex, st, a, n):
    """const std::vector<double>& get(name)"""
    c, k = confname(st, a[0]), keyname(strval(st, a[1]))
    h = has(c, k, 'vector')
    d = ex.decide(st, h)
    if d is False:
        return Throw('_ZTI9key_error')
    s2 = st.clone() if d is None else None
    r = ex.alloc(st, 'confvec')
    st.assume(h)
    conf_vec(ex, st, c, k, Ptr(r.id, I0))
    if s2 is None:
        return Ptr(r.id, I0)
    s2.assume(bnot(h))
    return Fork([(st, Ptr(r.id, I0)), (s2, Throw('_ZTI9key_error'))])


def h_tryget_vec(ex, st, a, n):
    c, k = confname(st, a[0]), keyname(strval(st, a[1]))
    h = has(c, k, 'vector')
    d = ex.decide(st, h)
    if d is True:
        conf_vec(ex, st, c, k, a[2])
        return TRUE
    if d is False:
        return FALSE
    s2 = st.clone()
    st.assume(h)
    conf_vec(ex, st, c, k, a[2])
    s2.assume(bnot(h))
    return Fork([(st, TRUE), (s2, FALSE)])


def h_conf_copy(ex, st, a, n):
    gset(st, a[0], gget(st, a[1]))


def h_conf_assign(ex, st, a, n):
    gset(st, a[0], gget(st, a[1]))
    return a[0]


def h_conf_new(ex, st, a, n):
    gset(st, a[0], ('config', fresh('newconf')))


def h_noop(ex, st, a, n):
    return None


STRM = r'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
CONFIG = [
    (r'_ZNK6Config3getIdEE.*E10param_typeE$', h_get_double_def),
    (r'_ZNK6Config3getIdEE.*', h_get_double),
    (r'_ZNK6Config3getI' + STRM + r'.*E10param_typeE$', h_get_string_def),
    (r'_ZNK6Config3getI' + STRM + r'.*', h_get_string),
    (r'_ZNK6Config3getISt6vectorIdSaIdEEE.*(?<!param_typeE)$', h_get_vec),
    (r'_ZNK6Config6tryGetIdE.*', h_tryget_double),
    (r'_ZNK6Config6tryGetI' + STRM + r'.*', h_tryget_string),
    (r'_ZNK6Config6tryGetISt6vectorIdSaIdEEE.*', h_tryget_vec),
    (r'_ZN6ConfigC[12]ERKS_$', h_conf_copy),
    (r'_ZN6ConfigC[12]Ev$', h_conf_new),
    (r'_ZN6ConfigaSERKS_$', h_conf_assign),
    (r'_ZN6ConfigD[12]Ev$', h_noop),
]


def config_contracts(ctx):
    out = {}
    for n in ctx.lib.dm:
        for rx, h in CONFIG:
            if re.match(rx, n):
                out[n] = h
                break
    return out


# ------------------------------------------------------------------ MomentElementBase::get_flag(conf, name, default)
def h_get_flag(ex, st, a, n):
    """value = unsigned integer of the string or number `name`, else the default; throws when not an unsigned integer"""
    c, k = confname(st, a[-3]), keyname(strval(st, a[-2]))
    d = ex.load(st, a[-1], ('i', 32))
    v = ivar('flag.%s[%s]' % (c, k))
    st.assume(ile(I0, v))
    ex.nonneg = ex.nonneg | {'flag.%s[%s]' % (c, k)}
    g = st.ghost.get(('flag', c, k))
    if g is not None:
        return ic(g)
    hs = pred('hasflag', c, k)
    s2 = st.clone()
    return iite(hs, v, d)


# ------------------------------------------------------------------ inverse()
INV = '_Z7inverseRN5boost7numeric5ublas6matrixIdNS1_15basic_row_majorImlEENS1_13bounded_arrayIdLm49ESaIdEEEEERKS8_'
N7 = 7


def rdmat(ex, st, p):
    return [[ex.load(st, at(p, 24 + 8 * (7 * i + j)), ('d',)) for j in range(7)] for i in range(7)]


def wrmat(ex, st, p, M):
    ex.store(st, p, ic(7), ('i', 64))
    ex.store(st, at(p, 8), ic(7), ('i', 64))
    ex.store(st, at(p, 16), ic(49), ('i', 64))
    for i in range(7):
        for j in range(7):
            ex.store(st, at(p, 24 + 8 * (7 * i + j)), M[i][j], ('d',))


def inv_opaque(A):
    flat = sum(A, [])
    return [[fn('inv%d%d' % (i, j), *flat) for j in range(7)] for i in range(7)]


def inv_of(A, pc=()):
    """ensures out = in^-1: a closed form when a witness is checked, else the uninterpreted inverse"""
    z, o = R0, R1
    n = 7

    def isz(x):
        return x is R0

    off0 = all(isz(A[i][j]) for i in range(n) for j in range(n) if i != j)
    if off0:
        return [[rdiv(R1, A[i][i]) if i == j else R0 for j in range(n)] for i in range(n)]
    # affine [A b; 0 1] with A = identity
    last = all(isz(A[6][j]) for j in range(6)) and A[6][6] is R1
    if last and all((A[i][j] is (R1 if i == j else R0)) for i in range(6) for j in range(6)):
        return [[(R1 if i == j else (rneg(A[i][6]) if j == 6 and i < 6 else R0)) for j in range(n)] for i in range(n)]
    if last:
        # orthogonal linear part: A^-1 = A^T, b' = -A^T b  (checked)
        B = [[A[j][i] for j in range(6)] for i in range(6)]
        try:
            ok = all(req_proved(dot(B[i], [A[k][j] for k in range(6)]), R1 if i == j else R0)
                     for i in range(6) for j in range(6))
        except Unknown:
            ok = False
        if ok:
            b = [A[i][6] for i in range(6)]
            M = [[B[i][j] for j in range(6)] + [rneg(dot(B[i], b))] for i in range(6)]
            return M + [[R0] * 6 + [R1]]
    return inv_opaque(A)


def dot(a, b):
    r = R0
    for x, y in zip(a, b):
        if x is R0 or y is R0:
            continue
        r = radd(r, rmul(x, y))
    return r


def h_inverse(ex, st, a, n):
    wrmat(ex, st, a[0], inv_of(rdmat(ex, st, a[1])))
    st.trace.append(('inverse',))
    return None


def _num_inverse(*xs):
    M = LOGIC.mp.matrix(7, 7)
    for k, x in enumerate(xs):
        M[k // 7, k % 7] = x
    try:
        Q = M ** -1
    except ZeroDivisionError:
        raise ValueError('singular')
    return [[Q[i, j] for j in range(7)] for i in range(7)]


_num_inverse.terms = False
LOGIC.DEFS['inv'] = _num_inverse


# ------------------------------------------------------------------ MomentElementBase::get_misalign
def mis_args(ex, st, this, ST, real, off):
    """off: record offsets of the element and of MomentState"""
    g = lambda p, o: ex.load(st, at(p, o), ('d',))
    e, s, p = off['E'], off['S'], off['P']
    return [g(this, e[k]) for k in ('dx', 'dy', 'pitch', 'yaw', 'roll', 'length')] + \
           [g(real, p['SampleIonK']), g(real, p['beta']), g(real, p['gamma']), g(ST, s['ref.IonEs'])]


def mis_opaque(args):
    M = [[fn('mis%d%d' % (i, j), *args) for j in range(7)] for i in range(7)]
    IM = [[fn('imis%d%d' % (i, j), *args) for j in range(7)] for i in range(7)]
    return M, IM


def make_h_misalign(off):
    def h(ex, st, a, n):
        this, ST, real, pM, pIM = a
        M, IM = mis_opaque(mis_args(ex, st, this, ST, real, off))
        wrmat(ex, st, pM, M)
        wrmat(ex, st, pIM, IM)
    return h


def offsets_for(ctx, tu='moment', cls='MomentElementBase'):
    L = ctx.lay
    return {'E': {k: L.off(cls, k, tu) for k in ('dx', 'dy', 'pitch', 'yaw', 'roll', 'length')},
            'S': {'ref.IonEs': L.off('MomentState', 'ref.IonEs', tu)},
            'P': {k: L.off('Particle', k, tu) for k in ('SampleIonK', 'beta', 'gamma')}}
