"""recompute_matrix() of the moment-simulation elements: transfer[i] = IM(i) * T(ref, real[i]) * M(i) for every charge state i."""
from verify import *
import optics as O
import s_matrices as SM
from s_advance import vslot, setup_element

TUS = ['moment', 'base', 'moment_sup']


def mangled(c):
    return 'N12_GLOBAL__N_1%d%sE' % (len(c), c)


class Conf:
    """spec-side view of the element configuration"""

    def __init__(self, name):
        self.n = name

    def __call__(self, key, default=None):
        v = CT.cval(self.n, key)
        if default is None:
            return v
        return rite(CT.has(self.n, key, 'double'), v, R(default))

    def has(self, key):
        return CT.has(self.n, key, 'double')


def wrap(T0, mis):
    M, IM = mis
    return chain(IM, T0, M)


def base_contracts(ctx, extra=()):
    C = SM.contract_map(ctx, ['quad', 'edge', 'eedge', 'sol', 'sbend', 'ebend', 'rot'])
    for k, n in (('sbend', 12), ('ebend', 14)):
        try:
            C[ctx.find(SM.SPECS[k][0], 'moment_sup')] = SM.opaque(k, n, SM.SPECS[k][2])
        except Unknown:
            pass
    C.update(CT.config_contracts(ctx))
    C[CT.INV] = CT.h_inverse
    try:
        C[ctx.find(r'MomentElementBase::get_misalign\(.*\) const', 'moment')] = CT.make_h_misalign(CT.offsets_for(ctx))
    except Unknown:
        pass
    return C


def recompute_task(ctx, cls, spec, needs=(), pre=None, flags=None, members=None, label='', mis=True, tu='moment', throws=None,
                   ghosts=None, dom=None, extra=None, accept=None):
    """spec(c, ref, p, mis_pair, E) -> 7x7; needs: required keys (missing -> exception)"""
    name = '%s::recompute_matrix%s' % (cls, label)

    def run(rec):
        P = Prover(rec, name, dom)
        full = 'MomentElementBase' if cls == 'MomentElementBase' else '(anonymous namespace)::' + cls
        C = base_contracts(ctx)
        C.update(extra or {})
        ex = ctx.executor(C)
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n'}
        S = MState(ctx, ex, st, n, tu=tu, consistent=True)
        vt = vtable_ptr(ctx, ex, st, '17MomentElementBase' if cls == 'MomentElementBase' else mangled(cls), tu)
        e = new_obj(ctx, ex, st, full, 'E', tu=tu, counts={p: n for p in ('last_real_in', 'last_real_out', 'transfer', 'misalign', 'misalign_inv')})
        ex.store(st, e.ptr, vt, PTR)
        c = Conf('E.p_conf')
        for (k, v) in (flags or {}).items():
            st.ghost[('flag', 'E.p_conf', k)] = v
        for k, v in (ghosts or {}).items():
            st.ghost[k] = v
        ex.contracts[ctx.find(r'MomentElementBase::get_flag\(.*\)', tu)] = CT.h_get_flag
        for k, (v, ty) in (members or {}).items():
            e.set(st, k, v, ty)
        i = ivar('i')
        for x in (pre(c, S, st, i) if pre else ()):
            st.assume(x)
        f = vslot(ctx, ex, st, vt, r'.*::recompute_matrix\(MomentState&\)')
        s0 = st.clone()
        outs = ex.call(st, f, [e.ptr, S.ptr], ctx.prog.mods[tu])
        rec.functions.extend([f] + [g for g in ex.stats['functions'] if not build.is_library(g)])
        rets = 0
        need = band(*[c.has(k) for k in needs]) if needs else accept or TRUE
        for o in outs:
            s1 = o.state
            pc = s1.pc + [ile(I0, i), ilt(i, n)]
            if not feasible(pc):
                continue
            if o.kind == 'throw':
                if throws is not None and throws(P, s1, o):
                    continue
                P.holds('exception only when a required parameter is missing', s1.pc, bnot(need))
                continue
            if o.kind != 'ret':
                P.unknown('termination', o.kind)
                continue
            rets += 1
            P.holds('a missing required parameter is reported', s1.pc, need)
            sI = s1.clone()
            sI.pc = list(pc)
            sZ = s0.clone()
            sZ.pc = list(pc)
            ref, p = NS(S.ref(sZ)), NS(S.real(sZ, i))
            args = [e.get(s0, k) for k in ('dx', 'dy', 'pitch', 'yaw', 'roll', 'length')] + [p.SampleIonK, p.beta, p.gamma, ref.IonEs]
            W = spec(c, ref, p, CT.mis_opaque(args), e, s0)
            G = S_mat(e, sI, 'transfer', i)
            SM.mats_eq(P, 'transfer', pc, G, W)
            P.eq('number of matrices', s1.pc, e.vsize(s1, 'transfer', 416), n)
            P.eqs('input energies/charges unchanged', pc, [('ref.' + q, S.o.get(s1, 'ref.' + q), S.o.get(s0, 'ref.' + q)) for q in INDEP] +
                  [('real.' + q, S.o.velem(sI, 'real', i, PO[q]), S.o.velem(sZ, 'real', i, PO[q])) for q in INDEP])
            P.eqs('moments unchanged', pc, [('m0[%d]' % r, a, b) for r, (a, b) in enumerate(zip(S.m0(sI, i), S.m0(sZ, i)))])
        P.fact('normal return reachable', rets > 0)
    return Task(name, run)


def S_mat(e, st, path, i):
    return [[e.velem(st, path, i, 24 + 8 * (7 * r + k)) for k in range(7)] for r in range(7)]


def tasks(ctx):
    ts = []
    add = lambda *a, **k: ts.append(recompute_task(ctx, *a, **k))
    Lm = lambda e, s0: e.get(s0, 'length')
    add('MomentElementBase', lambda c, r, p, m, e, s: O.ident())
    add('ElementDrift', lambda c, r, p, m, e, s: O.T_drift(c, Lm(e, s), r, p))
    add('ElementQuad', lambda c, r, p, m, e, s: wrap(O.T_quad(c, r, p), m), needs=('L', 'B2'), flags={'ncurve': 0})
    add('ElementEQuad', lambda c, r, p, m, e, s: wrap(O.T_equad(c, r, p), m), needs=('L', 'V', 'radius'), flags={'ncurve': 0})
    add('ElementSolenoid', lambda c, r, p, m, e, s: wrap(O.T_sol(c, r, p), m), needs=('L', 'B'), flags={'ncurve': 0})

    def trim(c, r, p, m, e, s):
        M = wrap(O.T_orbtrim_kick(c, r, p), m)
        a = c('xyrotate', 0.0) * (PI / 180)
        Rm = O.rot(0.0, 0.0, 0.0, 0.0, a)
        Q = mm(M, Rm)
        z = eq(c('xyrotate', 0.0), 0)
        return [[where(z, M[i][j], Q[i][j]) for j in range(7)] for i in range(7)]
    add('ElementOrbTrim', trim)
    for fit in (0, 1):
        def sb(c, r, p, m, e, s, fit=fit):
            W = wrap(O.T_sbend(c, r, p, fit, lambda M, *a: SM.opq('sbend', *a)), m)
            z = eq(c('L'), 0)
            Id = O.ident()
            return [[where(z, Id[i][j], W[i][j]) for j in range(7)] for i in range(7)]
        add('ElementSBend', sb, needs=('L', 'phi', 'phi1', 'phi2') + (() if fit else ()), members={'HdipoleFitMode': (ic(fit), ('i', 32))},
            label=' (HdipoleFitMode %d)' % fit, throws=None if fit else throws_bg)
    for fit in (0, 1):
        for ver in (0, 1):
            def ed(c, r, p, m, e, s, fit=fit, ver=ver):
                W = wrap(O.T_edipole(c, r, p, fit, ver, lambda M, *a: SM.opq('ebend', *a)), m)
                z = eq(c('L'), 0)
                Id = O.ident()
                return [[where(z, Id[i][j], W[i][j]) for j in range(7)] for i in range(7)]
            add('ElementEDipole', ed, needs=('ver', 'L', 'phi', 'spher'), flags={'HdipoleFitMode': fit}, label=' (HdipoleFitMode %d, ver %d)' % (fit, ver),
                pre=lambda c, S, st, i, ver=ver: [req(c('ver'), R1) if ver else bnot(req(c('ver'), R1))])
    add('ElementTMatrix', lambda c, r, p, m, e, s: [[rvar('matrix[%d]' % (7 * i + j)) for j in range(7)] for i in range(7)],
        extra={ctx.find(LOAD, 'moment').split(':')[-1]: h_load}, throws=throws_matrix, accept=pred('vecof', 'matrix', 49))
    return ts


LOAD = r'bool \(anonymous namespace\)::load_storage<boost::numeric::ublas::bounded_array<double, 49ul, std::allocator<double>>>\(.*'


def h_load(ex, st, a, n):
    """contract of load_storage<49> (proved in s_init): the 49 values of the named vector, or an exception"""
    if CT.confname(st, a[1]) != 'E.p_conf' or LIB.strval(st, a[2]) != ('lit', 'matrix') or ex.decide(st, ex.tobool(a[3])) is not True:
        raise Unknown("load_storage of another entry")
    g = pred('vecof', 'matrix', 49)
    s2 = st.clone()
    st.assume(g)
    s2.assume(bnot(g))
    for k in range(49):
        ex.store(st, Ptr(a[0].r, iadd(a[0].o, ic(8 + 8 * k))), rvar('matrix[%d]' % k), ('d',))
    return Fork([(st, TRUE), (s2, Throw('_ZTISt16invalid_argument'))])


def throws_matrix(P, s1, o):
    P.fact('rejected with invalid_argument', o.exc[0] == '_ZTISt16invalid_argument', repr(o.exc))
    P.holds('exception only without a matrix of 49 values', s1.pc, bnot(pred('vecof', 'matrix', 49)))
    return True


def throws_bg(P, s1, o):
    """mode 0 also needs bg"""
    c = Conf('E.p_conf')
    need = band(*[c.has(k) for k in ('L', 'phi', 'phi1', 'phi2', 'bg')])
    P.holds('exception only when a required parameter is missing', s1.pc, bnot(need))
    return True
