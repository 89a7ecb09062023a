"""Matrix building functions (free functions of the moment simulation): contracts and their obligations."""
from verify import *
import optics as O

TUS = ['moment', 'base', 'moment_sup']
VT = 'boost::numeric::ublas::matrix<double, boost::numeric::ublas::basic_row_major<unsigned long, long>, boost::numeric::ublas::bounded_array<double, 49ul, std::allocator<double> > >'


def new_mat(ex, st, name):
    reg = ex.alloc(st, name, size=416, base='sym')
    reg.layout = {24 + 8 * k: (8, 'R') for k in range(49)}
    reg.names = {24 + 8 * k: '%s[%d,%d]' % (name, k // 7, k % 7) for k in range(49)}
    for o, v in ((0, 7), (8, 7), (16, 49)):
        ex.store(st, Ptr(reg.id, ic(o)), ic(v), ('i', 64))
    return Ptr(reg.id, I0)


def rv(n):
    return rvar(n)


def mats_eq(P, name, pc, G, W):
    P.eqs(name, pc, [('[%d,%d]' % (r, k), G[r][k], W[r][k]) for r in range(7) for k in range(7)])


def matfn_task(ctx, rx, sig, spec, pre=None, label=None, contracts=None):
    """f(args..., matrix& out): out = spec(old, args)"""
    fn_ = ctx.find(rx, 'moment_sup')
    label = label or re.sub(r'\\|\(.*', '', rx)

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor(contracts or {})
        st = State()
        args = [rv(a) if isinstance(a, str) else a for a in sig]
        if pre:
            for c in pre(*args):
                st.assume(c)
        pM = new_mat(ex, st, 'M')
        old = CT.rdmat(ex, st, pM)
        rec.functions.append(fn_)
        n = 0
        for o in ex.call(st, fn_, args + [pM], ctx.prog.mods['moment_sup']):
            if not feasible(o.state.pc):
                continue
            if o.kind != 'ret':
                P.fact('returns normally', False, 'path ends in %s' % o.kind)
                continue
            n += 1
            mats_eq(P, 'ensures', o.state.pc, CT.rdmat(ex, o.state, pM), spec(old, *args))
        rec.functions.extend(f for f in ex.stats['functions'] if not build.is_library(f))
        P.fact('normal return reachable', n > 0)
    return Task(label, run)


def ctr(spec, nargs):
    """call-site contract of f(args..., matrix& M)"""
    def h(ex, st, a, n):
        old = CT.rdmat(ex, st, a[nargs])
        W = spec(old, *a[:nargs])
        CT.wrmat(ex, st, a[nargs], [[R(x) for x in r] for r in W])
    return h


def quad_spec(old, L, K, ind):
    i = ind.args[1] if ind.op == 'lin' and not ind.args[0] else None
    if i is None:
        i = iconst(ind)
    return O.put_block(old, i, O.quad2(L, K))


def iconst(t):
    if t.op == 'ic':
        return t.args[0]
    if t.op == 'lin' and not t.args[0]:
        return t.args[1]
    raise Unknown('index is not a constant')


def btrue(t):
    if t is TRUE or (t.op in ('ic',) and t.args[0] == 1):
        return True
    if t is FALSE or (t.op in ('ic',) and t.args[0] == 0):
        return False
    return None


SPECS = {
    'quad': (r'GetQuadMatrix\(double, double, unsigned int, .*\)', 3, quad_spec),
    'edge': (r'GetEdgeMatrix\(double, double, .*\)', 2, lambda old, rho, phi: O.edge(rho, phi)),
    'eedge': (r'GetEEdgeMatrix\(double, double, double, .*\)', 3, lambda old, a, b, c: O.eedge(a, b, c)),
    'sol': (r'GetSolMatrix\(double, double, .*\)', 2, lambda old, L, K: O.with_entries(old, O.sol_entries(L, K))),
    'sbend': (r'GetSBendMatrix\(.*\)', 12, lambda old, *a: O.sbend(old, *a)),
    'ebend': (r'GetEBendMatrix\(.*\)', 14, lambda old, *a: O.ebend(old, *a)),
    'rot': (r'RotMat\(double, double, double, double, double, .*\)', 5, lambda old, *a: O.rot(*a)),
}


def opaque(name, nargs, spec):
    """M := name(args), a defined function; requires M = identity on entry"""
    logic.DEFS[name] = lambda *a: spec(O.ident(), *a)

    def h(ex, st, a, n):
        old = CT.rdmat(ex, st, a[nargs])
        Id = O.ident()
        if not all(old[i][j] is R(Id[i][j]) for i in range(7) for j in range(7)):
            raise Unknown('%s: matrix is not the identity at the call' % name)
        CT.wrmat(ex, st, a[nargs], [[fn('%s%d%d' % (name, i, j), *a[:nargs]) for j in range(7)] for i in range(7)])
    return h


def opq(name, *a):
    a = [R(x) for x in a]
    return [[fn('%s%d%d' % (name, i, j), *a) for j in range(7)] for i in range(7)]


logic.DEFS['mis'] = lambda *a: O.misalign(*a)[0]
logic.DEFS['imis'] = lambda *a: O.misalign(*a)[1]


def contract_map(ctx, names, tu='moment_sup'):
    out = {}
    for k in names:
        rx, n, spec = SPECS[k]
        try:
            out[ctx.find(rx, tu)] = ctr(spec, n)
        except Unknown:
            pass        # function gone: callers are verified through its replacement
    return out


def nz(*xs):
    return [bnot(req(x, R0)) for x in xs]


def safe(ts, f, *a, **k):
    try:
        ts.append(f(*a, **k))
    except Unknown:
        pass            # the function no longer exists: its callers are checked directly


def tasks(ctx):
    ts = []
    q = contract_map(ctx, ['quad', 'edge', 'eedge'])
    for ind in (0, 2):
        safe(ts, matfn_task, ctx, SPECS['quad'][0], ['L', 'K', ic(ind)], quad_spec, label='GetQuadMatrix plane %d' % ind)
    safe(ts, matfn_task, ctx, SPECS['edge'][0], ['rho', 'phi'], SPECS['edge'][2], label='GetEdgeMatrix', pre=lambda rho, phi: nz(rho))
    safe(ts, matfn_task, ctx, SPECS['eedge'][0], ['fx', 'fy', 'kappa'], SPECS['eedge'][2], label='GetEEdgeMatrix')
    safe(ts, matfn_task, ctx, SPECS['sol'][0], ['L', 'K'], SPECS['sol'][2], label='GetSolMatrix')
    safe(ts, matfn_task, ctx, SPECS['rot'][0], ['dx', 'dy', 'ax', 'ay', 'az'], SPECS['rot'][2], label='RotMat')
    sb = ['L', 'phi', 'phi1', 'phi2', 'K', 'IonEs', 'rgamma', 'qmrel', 'db', 'dg', 'd', 'dk']
    safe(ts, matfn_task, ctx, SPECS['sbend'][0], sb, SPECS['sbend'][2], label='GetSBendMatrix', contracts=q,
         pre=lambda L, phi, *a: nz(L, phi))
    eb = ['L', 'phi', 'fx', 'fy', 'kappa', 'Kx', 'Ky', 'IonEs', 'gam', 'eta0', 'h', 'dK', 'dKZ', 'IonK']
    safe(ts, matfn_task, ctx, SPECS['ebend'][0], eb, SPECS['ebend'][2], label='GetEBendMatrix', contracts=q,
         pre=lambda L, phi, fx, fy, kappa, Kx, *a: nz(L, phi, Kx))
    safe(ts, sext_task, ctx, True)
    safe(ts, sext_task, ctx, False)
    safe(ts, misalign_task, ctx)
    safe(ts, inverse_lemma_task, ctx)
    return ts


def sext_task(ctx, thin):
    fn_ = ctx.find(r'GetSextMatrix\(.*\)', 'moment_sup')
    label = 'GetSextMatrix %s lens' % ('thin' if thin else 'thick')

    def run(rec):
        P = Prover(rec, label)
        for kick in (True, False):
            ex = ctx.executor()
            st = State()
            args = [rv(a) for a in ('L', 'K3', 'Dx', 'Dy', 'D2x', 'D2y', 'D2xy')]
            pM = new_mat(ex, st, 'M')
            # requires: transverse part of M is the identity or a previous thick-lens step; the entries the thick lens does not
            # write when K3*|D| = 0 are only read then
            old = CT.rdmat(ex, st, pM)
            rec.functions.append(fn_)
            n = 0
            for o in ex.call(st, fn_, args + [TRUE if thin else FALSE, TRUE if kick else FALSE, pM], ctx.prog.mods['moment_sup']):
                if not feasible(o.state.pc):
                    continue
                if o.kind != 'ret':
                    P.fact('returns normally', False, 'path ends in %s' % o.kind)
                    continue
                n += 1
                got = CT.rdmat(ex, o.state, pM)
                W = O.sext(old, *args, thin, kick)
                if thin:
                    mats_eq(P, 'ensures (kick %s)' % kick, o.state.pc, got, W)
                else:
                    sub = Recorder()
                    mats_eq(Prover(sub, label), 'ensures (kick %s)' % kick, o.state.pc, got, W)
                    if any(x.status != 'proved' for x in sub.obls):
                        # known finding: |D| is computed from Dx alone
                        sub2 = Recorder()
                        Wk = O.sext(old, *args, thin, kick, dr2=args[2] * args[2] + args[2] * args[2])
                        mats_eq(Prover(sub2, label), 'ensures (kick %s) [known deviation: |D| = sqrt(2) Dx]' % kick, o.state.pc, got, Wk)
                        if all(x.status == 'proved' for x in sub2.obls):
                            sub = sub2
                            rec.notes.append(('KF', 'sext-thick-dr'))
                    rec.obls.extend(sub.obls)
            P.fact('normal return reachable', n > 0)
    return Task(label, run)


def misalign_task(ctx):
    """MomentElementBase::get_misalign: M and IM"""
    fn_ = ctx.find(r'MomentElementBase::get_misalign\(.*\) const', 'moment')
    label = 'MomentElementBase::get_misalign'

    def run(rec):
        P = Prover(rec, label)
        C = contract_map(ctx, ['rot'])
        C[CT.INV] = CT.h_inverse
        ex = ctx.executor(C)
        st = State()
        e = new_obj(ctx, ex, st, 'MomentElementBase', 'E', tu='moment')
        s = new_obj(ctx, ex, st, 'MomentState', 'S', tu='moment')
        p = new_obj(ctx, ex, st, 'Particle', 'P', tu='moment')
        pM, pIM = new_mat(ex, st, 'M'), new_mat(ex, st, 'IM')
        off = CT.offsets_for(ctx)
        args = CT.mis_args(ex, st, e.ptr, s.ptr, p.ptr, off)
        for a in args[6:]:
            st.assume(bnot(req(a, R0)))
        M, IM = O.misalign(*args)
        rec.functions.append(fn_)
        n = 0
        for o in ex.call(st, fn_, [e.ptr, s.ptr, p.ptr, pM, pIM], ctx.prog.mods['moment']):
            if o.kind != 'ret':
                P.fact('returns normally', False, o.kind)
                continue
            n += 1
            mats_eq(P, 'ensures M', o.state.pc, CT.rdmat(ex, o.state, pM), M)
            mats_eq(P, 'ensures IM', o.state.pc, CT.rdmat(ex, o.state, pIM), IM)
        P.fact('normal return reachable', n > 0)
        # lemma: an element without misalignment sees the identity
        z = [R0] * 5
        M0, IM0 = O.misalign(*z, *args[5:])
        Id = O.ident()
        mats_eq(P, 'lemma: no misalignment => identity M', st.pc, M0, Id)
        mats_eq(P, 'lemma: no misalignment => identity IM', st.pc, IM0, Id)
    return Task(label, run)


def inverse_lemma_task(ctx):
    """the closed forms used for inverse() at call sites are inverses; determinants of the 2x2 blocks are one"""
    label = 'lemmas: symplecticity and inverses'

    def run(rec):
        P = Prover(rec, label)
        L, K = rv('L'), rv('K')
        q = O.quad2(L, K)
        P.eq('quadrupole block has unit determinant', [], q[0][0] * q[1][1] - q[0][1] * q[1][0], R1)
        a = [rv(x) for x in ('dx', 'dy', 'ax', 'ay', 'az')]
        Rm, Ri = O.rot(*a), O.rot_inv(*a)
        mats_eq(P, 'rotation inverse', [], O.mm(Rm, Ri), O.ident())
        M = O.with_entries(O.ident(), O.sol_entries(L, K))
        J = [[0.0] * 4 for _ in range(4)]
        J[0][1] = J[2][3] = 1.0
        J[1][0] = J[3][2] = -1.0
        B = [r[:4] for r in M[:4]]
        G = O.chain(O.tr(B), J, B)
        for i in range(4):
            for j in range(4):
                P.eq('solenoid is symplectic [%d,%d]' % (i, j), [], R(G[i][j]), R(J[i][j]))
    return Task(label, run)
