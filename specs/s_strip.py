"""Charge stripper: new charge states, populations (Baron or given), recombined energy, phase and covariance, growth by straggling."""
from verify import *
from s_state import env_sizes
from s_advance import vslot, h_rms

TUS = ['chg_stripper', 'moment', 'moment_sup', 'base']
TU = 'chg_stripper'
VD = r'std::vector<double, std::allocator<double>>'


def h_get_vec_def(ex, st, a, n):
    c, k = CT.confname(st, a[0]), CT.keyname(LIB.strval(st, a[1]))
    h = CT.has(c, k, 'vector')
    s2 = st.clone()
    st.assume(h)
    r = ex.alloc(st, 'confvec')
    CT.conf_vec(ex, st, c, k, Ptr(r.id, I0))
    s2.assume(bnot(h))
    return Fork([(st, Ptr(r.id, I0)), (s2, a[2])])


def ex_(x):
    return fn('exp', x)


def baron(beta, prot):
    """mean charge and width behind a carbon foil (Baron et al.)"""
    q1 = prot * (R1 - ex_(R('-83.275') * beta / fn('pow', prot, R('0.447'))))
    q = q1 * (R1 - ex_(R('-12.905') + R('0.2124') * prot - R('0.00122') * prot * prot))
    y = q1 / prot
    d = fn('sqrt', q1 * (R('0.07535') + R('0.19') * y - R('0.2654') * y * y))
    return q, d


def gauss(x, q, d):
    return R1 / fn('sqrt', R2 * PI_) / d * ex_(R('-0.5') * (x - q) * (x - q) / (d * d))


PI_ = R(3.14159265358979323846)
R2 = R(2)


def fn_of(ctx, rx):
    return ctx.find(rx, TU)


def charge_task(ctx):
    label = 'ElementStripper::StripperCharge'

    def run(rec):
        P = Prover(rec, label)
        f = fn_of(ctx, r'ElementStripper::StripperCharge\(double, double&, double&\)')
        rec.functions.append(f)
        ex = ctx.executor()
        st = State()
        e = new_obj(ctx, ex, st, 'ElementStripper', 'E', tu=TU)
        a, b = ex.alloc(st, 'Q_ave', size=8), ex.alloc(st, 'd', size=8)
        beta = rvar('beta')
        s0 = st.clone()
        q, d = baron(beta, e.get(st, 'Stripper_IonProton'))
        n = 0
        for o in ex.call(st, f, [e.ptr, beta, Ptr(a.id, I0), Ptr(b.id, I0)], ctx.prog.mods[TU]):
            if not feasible(o.state.pc):
                continue
            n += 1
            P.fact('returns', o.kind == 'ret', o.kind)
            P.eq('mean charge (Baron)', o.state.pc, ex.load(o.state, Ptr(a.id, I0), ('d',)), q)
            P.eq('width of the charge distribution (Baron)', o.state.pc, ex.load(o.state, Ptr(b.id, I0), ('d',)), d)
            frame_unchanged(P, 'element unchanged', ex, s0, o.state, e.reg.id)
        P.fact('reachable', n > 0)
    return Task(label, run)


def dvec(ex, st, name, n):
    r = ex.alloc(st, name)
    LIB.vec_new(ex, st, Ptr(r.id, I0), n, 8, {0: (8, 'R')}, base='sym', name=name, fam=name)
    return Ptr(r.id, I0)


def h_stripcharge(ctx):
    o = ctx.lay.off('ElementStripper', 'Stripper_IonProton', TU)

    def h(ex, st, a, n):
        q, d = baron(a[1], ex.load(st, Ptr(a[0].r, iadd(a[0].o, ic(o))), ('d',)))
        ex.store(st, a[2], q, ('d',))
        ex.store(st, a[3], d, ('d',))
    return h


def fractions_task(ctx):
    label = 'ElementStripper::ChargeStripper'

    def run(rec):
        P = Prover(rec, label)
        f = fn_of(ctx, r'ElementStripper::ChargeStripper\(.*')
        rec.functions.append(f)
        ex = ctx.executor({ctx.sym('ElementStripper::StripperCharge(double, double&, double&)'): h_stripcharge(ctx)})
        st = State()
        e = new_obj(ctx, ex, st, 'ElementStripper', 'E', tu=TU)
        n = ivar('n')
        st.assume(ile(I0, n))
        ex.nonneg = ex.nonneg | {'n'}
        cs = dvec(ex, st, 'cs', n)
        out = ex.alloc(st, 'out')
        LIB.vec_ctor0(ex, st, [Ptr(out.id, I0)], next(m for m in ctx.lib.dm if re.match(r'_ZNSt6vectorIdSaIdEEC[12]Ev$', m)))
        beta = rvar('beta')
        q, d = baron(beta, e.get(st, 'Stripper_IonProton'))
        mass = e.get(st, 'Stripper_IonMass')
        k = 0
        i = ivar('i')
        for o in ex.call(st, f, [e.ptr, beta, cs, Ptr(out.id, I0)], ctx.prog.mods[TU]):
            s = o.state
            if not feasible(s.pc):
                continue
            k += 1
            P.fact('returns', o.kind == 'ret', o.kind)
            P.eq('one population per charge state', s.pc, LIB.vec_size(ex, s, Ptr(out.id, I0), 8), n)
            pc = s.pc + [ile(I0, i), ilt(i, n)]
            if feasible(pc):
                s2 = s.clone()
                s2.pc = pc
                b = ex.load(s2, Ptr(out.id, I0), PTR)
                P.eq('population of each charge state', pc, ex.load(s2, Ptr(b.r, iscale(i, 8)), ('d',)), gauss(relem('cs', i, 0) * mass, q, d))
        P.fact('reachable', k > 0)
    return Task(label, run)


def h_fractions(ctx):
    L = ctx.lay

    def h(ex, st, a, n):
        at_ = lambda k: ex.load(st, Ptr(a[0].r, iadd(a[0].o, ic(L.off('ElementStripper', k, TU)))), ('d',))
        q, d = baron(a[1], at_('Stripper_IonProton'))
        b, e = LIB.vec(ex, st, a[2])
        m = LIB.vec_size(ex, st, a[2], 8)
        if LIB.vec_size(ex, st, a[3], 8) is not I0:
            raise Unknown("ChargeStripper on a non-empty vector")
        kv = ivar(fresh('$s'))
        s2 = st.clone()
        s2.pc = st.pc + [ile(I0, kv), ilt(kv, m)]
        src = ex.load(s2, Ptr(b.r, iadd(b.o, iscale(kv, 8))), ('d',))
        v = gauss(src * at_('Stripper_IonMass'), q, d)
        LIB.vec_new(ex, st, a[3], m, 8, {0: (8, 'R')}, log=(('map', kv, I0, m, {0: (8, v)}),))
        st.trace.append(('baron', a[1]))
    return h


DEF = {'Stripper_IonZ': 78.0 / 238.0, 'Stripper_IonMass': 238.0, 'Stripper_IonProton': 92.0, 'Stripper_E1Para': 2.8874e-3,
       'Stripper_lambda': 5.5740, 'Stripper_upara': 2.6903}
PARA, E0PARA = (3.0, 20.0, 16.623e6), (16.348e6, 1.00547, -0.10681)


def getmat_task(ctx, model):
    label = 'ElementStripper::Stripper_GetMat, charge model %s' % model

    def run(rec):
        P = Prover(rec, label)
        f = fn_of(ctx, r'ElementStripper::Stripper_GetMat\(.*')
        rec.functions.append(f)
        C = CT.config_contracts(ctx)
        for m_, d in ctx.lib.dm.items():
            if re.match(r'_ZNK6Config3getISt6vectorIdSaIdEEE.*param_typeE$', m_):
                C[m_] = h_get_vec_def
        C[ctx.sym('MomentState::calc_rms()')] = h_rms
        C[RECALC] = h_recalc
        C[fn_of(ctx, r'ElementStripper::ChargeStripper\(.*').split(':')[-1]] = h_fractions(ctx)
        ex = ctx.executor(C)
        st = State()
        n0, n = ivar('n0'), ivar('n.C[IonChargeStates]')
        ex.nonneg = ex.nonneg | {'n0', 'n.C[IonChargeStates]'}
        st.assume(ile(I1, n0))
        S = MState(ctx, ex, st, n0, tu='moment')
        env_sizes(S, ex, st)
        e = new_obj(ctx, ex, st, 'ElementStripper', 'E', tu=TU)
        for v in ('Stripper_Para', 'Stripper_E0Para'):
            for o in (0, 8, 16):
                ex.store(st, at(e.p(v), o), Ptr(None, I0), PTR)
        conf = ex.alloc(st, 'conf')
        conf.cells[('g', 0)] = ('config', 'C')
        cm = ('sym', 'C[charge_model]')
        hm = CT.has('C', 'charge_model', 'string')
        for w in ('off', 'baron'):
            pass
        isoff, isbar = LIB.streq(cm, ('lit', 'off')), LIB.streq(cm, ('lit', 'baron'))
        if model == 'off':
            st.assume(hm)
            st.assume(isoff)
        elif model == 'baron':
            st.assume(hm)
            st.assume(isbar)
            st.assume(bnot(isoff))
        elif model == 'default':
            st.assume(bnot(hm))
        else:
            st.assume(hm)
            st.assume(bnot(isoff))
            st.assume(bnot(isbar))
        s0 = st.clone()
        has = lambda k: CT.has('C', k, 'vector')
        nN = ivar('n.C[NCharge]')
        kinds = set()
        q = ivar('$q')
        sK = s0.clone()
        sK.pc = s0.pc + [ile(I0, q), ilt(q, n0)]
        Q = S.o.velem(sK, 'real', q, PO['IonQ'])
        tot = rsum(q, I0, n0, Q)
        phi = rsum(q, I0, n0, Q * S.o.velem(sK, 'real', q, PO['phis'])) / tot
        ek0 = rsum(q, I0, n0, Q * S.o.velem(sK, 'real', q, PO['IonEk'])) / tot
        m0, m1 = S.m0(sK, q), S.mat(sK, 'moment1', q)
        env = S.env_vec(s0, 'moment0_env')
        M = [[rsum(q, I0, n0, Q * (m1[i][j] + (m0[i] - env[i]) * (m0[j] - env[j]))) / tot for j in range(7)] for i in range(7)]
        par = {k: rite(CT.has('C', k, 'double'), CT.cval('C', k), R(v)) for k, v in DEF.items()}
        for o in ex.call(st, f, [e.ptr, Ptr(conf.id, I0), S.ptr], ctx.prog.mods[TU]):
            s = o.state
            if not feasible(s.pc):
                continue
            kinds.add(o.kind)
            if o.kind == 'throw':
                bad = [bnot(has('IonChargeStates')), bnot(has('NCharge'))]
                if model == 'off':
                    bad.append(bnot(ieq(n, nN)))
                if model == 'other':
                    bad.append(TRUE)
                for k in ('Stripper_Para', 'Stripper_E0Para'):
                    bad.append(band(has(k), ilt(ivar('n.C[%s]' % k), ic(3))))
                P.holds('rejected only for missing or inconsistent parameters', s.pc, bor(*bad))
                P.fact('rejected with an error', o.exc[0] in ('_ZTI9key_error', '_ZTISt13runtime_error'), repr(o.exc))
                frame_unchanged(P, 'rejected: the beam is not changed', ex, s0, s, S.o.reg.id)
                continue
            P.fact('no other outcome', o.kind == 'ret', o.kind)
            if o.kind != 'ret':
                continue
            P.fact('accepted only for a known charge model', model != 'other')
            need = [has('IonChargeStates'), has('NCharge')] + ([ieq(n, nN)] if model == 'off' else [])
            P.holds('accepted only with complete parameters', s.pc, band(*need))
            pv = []
            for k, dv in (('Stripper_Para', PARA), ('Stripper_E0Para', E0PARA)):
                if entails(s.pc, has(k)):
                    P.holds('%s has three entries' % k, s.pc, ile(ic(3), ivar('n.C[%s]' % k)))
                    pv.append([relem('C[%s]' % k, ic(j), 0) for j in range(3)])
                else:
                    pv.append([R(x) for x in dv])
            p, e0 = pv
            ek = (ek0 - p[2]) * e0[1] + e0[0]
            foil = fn('sqrt', R1 / R(3)) * p[1] / R(100) * p[0] * e0[2]
            dz = par['Stripper_E1Para'] * par['Stripper_E1Para'] + foil * foil
            th = fn('sqrt', par['Stripper_upara'] / (par['Stripper_lambda'] * par['Stripper_lambda'])) * R('1e-3')
            gz = fn('sqrt', (M[5][5] + dz) / M[5][5])
            gx = fn('sqrt', (M[1][1] + th * th) / M[1][1])
            gy = fn('sqrt', (M[3][3] + th * th) / M[3][3])
            g = [R1, gx, R1, gy, R1, gz]
            W = [[M[i][j] * g[i] * g[j] if i < 6 and j < 6 else M[i][j] for j in range(7)] for i in range(7)]
            rms = [t for t in s.trace if t[0] == 'rms']
            P.fact('statistics recomputed', len(rms) == 1, str(len(rms)))
            for k, v in S.sizes(s).items():
                P.eq('number of charge states = IonChargeStates (%s)' % k, s.pc, v, n)
            w = S.ref(s0, INDEP)
            w = dict(w, IonZ=par['Stripper_IonZ'], IonEk=(w['IonEk'] - p[2]) * e0[1] + e0[0])
            P.eqs('reference', s.pc, [(k, S.o.get(s, 'ref.' + k), v) for k, v in recalc_spec(w).items()])
            P.eq('path length unchanged', s.pc, S.o.get(s, 'pos'), S.o.get(s0, 'pos'))
            frame_unchanged(P, 'rest of the state unchanged', ex, s0, s, S.o.reg.id,
                            [(S.o.off('ref'), S.o.off('ref') + 96)] + [(S.o.off(v), S.o.off(v) + 24) for v in ('real', 'moment0', 'moment1', 'transmat')])
            i = ivar('i')
            pc = s.pc + [ile(I0, i), ilt(i, n)]
            if not feasible(pc):
                continue
            sI = s.clone()
            sI.pc = list(pc)
            if model == 'off':
                pop = relem('C[NCharge]', i, 0)
            else:
                qa, d = baron(S.o.velem(s0, 'real', I0, PO['beta']), par['Stripper_IonProton'])
                pop = gauss(relem('C[IonChargeStates]', i, 0) * par['Stripper_IonMass'], qa, d)
            r = {'IonZ': relem('C[IonChargeStates]', i, 0), 'IonQ': pop, 'SampleFreq': w['SampleFreq'], 'IonEs': w['IonEs'], 'IonEk': ek, 'phis': phi}
            P.eqs('charge state', pc, [(k, S.o.velem(sI, 'real', i, PO[k]), v) for k, v in recalc_spec(r).items()])
            P.eqs('centroid = ensemble centroid', pc, [('[%d]' % j, S.m0(sI, i)[j], env[j]) for j in range(7)])
            G, Tm = S.mat(sI, 'moment1', i), S.mat(sI, 'transmat', i)
            P.eqs('covariance = recombined covariance with straggling', pc, [('[%d,%d]' % (a, b), G[a][b], W[a][b]) for a in range(7) for b in range(7)])
            P.eqs('transfer matrix = identity', pc, [('[%d,%d]' % (a, b), Tm[a][b], R1 if a == b else R0) for a in range(7) for b in range(7)])
        P.fact('outcomes reachable', kinds == ({'throw'} if model == 'other' else {'ret', 'throw'}), repr(kinds))
    return Task(label, run, cost=30)


def advance_task(ctx):
    label = 'ElementStripper::advance'

    def run(rec):
        P = Prover(rec, label)
        f = fn_of(ctx, r'ElementStripper::advance\(StateBase&\)')
        rec.functions.append(f)
        gm = fn_of(ctx, r'ElementStripper::Stripper_GetMat\(.*').split(':')[-1]

        def h_gm(ex, st, a, n):
            st.trace.append(('getmat', a, st.clone()))
            s2 = st.clone()
            s2.trace.append(('raised',))
            return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])

        def h_rec(ex, st, a, n):
            st.trace.append(('recalc', a[0]))
        C = {gm: h_gm, ctx.sym('MomentState::calc_rms()'): lambda ex, st, a, n: st.trace.append(('rms', a[0]))}
        for m_, d in ctx.lib.dm.items():
            if d == 'MomentState::recalc()':
                C[m_] = h_rec
        ex = ctx.executor(C)
        for rt in (0, 1):
            st = State()
            n = ivar('n')
            st.assume(ile(I1, n))
            S = MState(ctx, ex, st, n)
            e = new_obj(ctx, ex, st, 'ElementStripper', 'E', tu=TU)
            S.o.set(st, 'retreat', ic(rt), ('i', 8))
            k = 0
            for o in ex.call(st, f, [e.ptr, S.ptr], ctx.prog.mods[TU]):
                s = o.state
                if not feasible(s.pc):
                    continue
                k += 1
                g = [t for t in s.trace if t[0] == 'getmat']
                if rt:
                    P.fact('backward propagation is an error', o.kind == 'throw' and o.exc[0] == '_ZTISt13runtime_error' and not g, o.kind)
                    continue
                P.fact('the stripper acts once', len(g) == 1, str(len(g)))
                if ('raised',) in s.trace:
                    P.fact('an error of the configuration is passed on', o.kind == 'throw', o.kind)
                else:
                    P.fact('returns', o.kind == 'ret', o.kind)
                for _, a, sg in g:
                    ks = [t[0] for t in sg.trace]
                    P.fact('acts on up-to-date kinematics and statistics', 'recalc' in ks and 'rms' in ks and ks.index('recalc') < len(ks) - 1 - ks[::-1].index('rms'), repr(ks))
                    ok = a[0].r == e.reg.id and a[2].r == S.ptr.r and icst(a[2].o) == 0 and a[1].r == e.reg.id and icst(a[1].o) == e.off('p_conf')
                    P.fact('with the configuration of the element, on the given state', ok, repr(a))
            P.fact('outcome reachable', k > 0)
    return Task(label, run)


def tasks(ctx):
    return [charge_task(ctx), fractions_task(ctx)] + [getmat_task(ctx, m) for m in ('off', 'baron', 'default', 'other')] + [advance_task(ctx)]
