"""RF cavity: the functions between the field integration / transit factors (s_cav.py) and advance() (s_rf.py).

Callees are used through their contracts: GetCavBoost, TransFacts, EvalGapModel, TransitFacMultipole, ipow, calFitPow (discharged in
s_cav.py), GetCavPhase*, GetCavMatParams, GenCavMat2, GetCavMatGeneric, GetCavMat (discharged here)."""
from verify import *
import optics as O
import cavity as CV
import cavtab as TAB
from s_base import run_to
from loopcut import RCut
from s_cav import TUS, TU, CLS, D, fnm, key, cell, kd, simple, mod, table, quiet_log, loops_of, h_ipow, OUT6

I32 = ('i', 32)
I8 = ('i', 8)


def conf_exec(ctx, ex):
    ex.contracts.update(CT.config_contracts(ctx))
    ex.contracts[RECALC] = h_recalc
    quiet_log(ctx, ex)


def rets(outs):
    return [o for o in outs if feasible(o.state.pc)]


def vecarg(ex, st, name, n):
    v = ex.alloc(st, name)
    LIB.vec_new(ex, st, Ptr(v.id, I0), n, 8, {0: (8, 'R')}, base='sym', name=name, fam=name)
    return Ptr(v.id, I0)


def Ek_of(p, s):
    return (p.get(s, 'IonW') - p.get(s, 'IonEs')) / MeVtoeV


# ------------------------------------------------------------------ driven phase
def phase_task(ctx):
    def body(P, ex, f):
        for cv in (1, 2, 3, 4, 5, 0, None):
            st = State()
            p = new_obj(ctx, ex, st, 'Particle', 'ref', tu=TU)
            n = ivar('n')
            ex.nonneg = ex.nonneg | {'n'}
            st.assume(ile(I0, n))
            v = vecarg(ex, st, 'fit', n)
            cavi = ivar('cavi') if cv is None else ic(cv)
            if cv is None:
                for k in range(6):
                    st.assume(bnot(ieq(cavi, ic(k))))
            fys, mult = rvar('fys'), rvar('multip')
            s0 = st.clone()
            seen = set()
            for o in rets(ex.call(st, f, [cavi, p.ptr, fys, mult, v], mod(ctx))):
                s = o.state
                seen.add(o.kind)
                if o.kind == 'throw':
                    P.holds('cavity %s: error only for an unknown type or a missing fit' % cv, s.pc, TRUE if cv is None else (ilt(n, ic(3)) if cv == 0 else FALSE))
                    continue
                P.fact('cavity %s: returns' % cv, o.kind == 'ret' and cv is not None, o.kind)
                if cv is None:
                    continue
                if cv == 0:
                    P.holds('fit of the data file has three entries', s.pc, ile(ic(3), n))
                w = fys - CV.sync_sin(cv, Ek_of(p, s0), [relem('fit', ic(k), 0) for k in range(3)]) - p.get(s0, 'phis') * mult
                P.eq('cavity %s: driven phase' % cv, s.pc, o.value, w)
                frame_unchanged(P, 'cavity %s: particle unchanged' % cv, ex, s0, s, p.reg.id)
            P.fact('cavity %s: outcomes reachable' % cv, seen == ({'throw'} if cv is None else {'ret', 'throw'} if cv == 0 else {'ret'}), repr(seen))
    return simple(ctx, 'GetCavPhase', r'GetCavPhase\(.*', body)


def phase_complex_task(ctx):
    def body(P, ex, f):
        try:
            ex.contracts[fnm(ctx, r'ipow\(double, int\)')] = h_ipow(P)
        except Unknown:
            pass
        quiet_log(ctx, ex)
        for rem in range(5):
            st = State()
            p = new_obj(ctx, ex, st, 'Particle', 'ref', tu=TU)
            m = ivar('m')
            ex.nonneg = ex.nonneg | {'m'}
            st.assume(ile(I0, m))
            st.assume(ile(m, ic(2 ** 31 - 1)))
            v = vecarg(ex, st, 'fit', iadd(imul(m, ic(5)), ic(rem)))
            fys, scl, mult = rvar('fys'), rvar('scale'), rvar('multip')
            s0 = st.clone()
            seen = set()
            q = ivar('$q')
            E = lambda k: relem('fit', iadd(imul(q, ic(5)), ic(k)), 0)
            term = CV.sync_term(Ek_of(p, s0), [E(k) for k in range(5)]) * fn('ipw', scl, i2r(q))
            for o in rets(ex.call(st, f, [p.ptr, fys, scl, mult, v], mod(ctx))):
                s = o.state
                seen.add(o.kind)
                if o.kind == 'throw':
                    P.fact('error only when the number of coefficients is not a multiple of five', rem != 0)
                    continue
                P.fact('returns (remainder %d)' % rem, o.kind == 'ret' and rem == 0, o.kind)
                sm = R0 if entails(s.pc, ile(m, I0)) else rsum(q, I0, m, term)
                P.eq('driven phase', s.pc, o.value, fys - sm - p.get(s0, 'phis') * mult)
                frame_unchanged(P, 'particle unchanged', ex, s0, s, p.reg.id)
            P.fact('remainder %d: reachable' % rem, seen == ({'throw'} if rem else {'ret'}), repr(seen))
    return simple(ctx, 'GetCavPhaseComplex', r'GetCavPhaseComplex\(.*', body)


# ------------------------------------------------------------------ emittance growth
def mats(ex, st, name):
    r = ex.alloc(st, name, size=416)
    p = Ptr(r.id, I0)
    M = [[rvar('%s%d%d' % (name, i, j)) for j in range(7)] for i in range(7)]
    CT.wrmat(ex, st, p, M)
    return p, M


def growth_task(ctx):
    def body(P, ex, f):
        st = State()
        c, n = ivar('c'), ivar('n')
        ex.nonneg = ex.nonneg | {'c', 'n'}
        st.assume(ile(I0, n))
        st.assume(ilt(n, c))
        e = new_obj(ctx, ex, st, CLS, 'E', tu=TU, counts={'last_real_in': c, 'last_real_out': c})
        p = new_obj(ctx, ex, st, 'Particle', 'ref', tu=TU)
        pin, M = mats(ex, st, 'Min')
        pout, _ = mats(ex, st, 'Mout')
        a = {k: rvar(k) for k in ('betaf', 'gammaf', 'x2', 'cx', 'y2', 'cy')}
        s0 = st.clone()
        pick = lambda path: {k: e.velem(s0, path, n, PO[k]) for k in ('IonW', 'beta', 'gamma')}
        w = CV.emit_growth(M, pick('last_real_in'), pick('last_real_out'), e.get(s0, 'fRF'), e.get(s0, 'IonFys'), p.get(s0, 'IonZ'), p.get(s0, 'IonEs'), **a)
        k = 0
        for o in rets(ex.call(st, f, [e.ptr, pin, p.ptr, n, a['betaf'], a['gammaf'], a['x2'], a['cx'], a['y2'], a['cy'], pout], mod(ctx))):
            s = o.state
            k += 1
            P.fact('returns', o.kind == 'ret', o.kind)
            G = CT.rdmat(ex, s, pout)
            P.eqs('covariance', s.pc, [('[%d,%d]' % (i, j), G[i][j], R(w[i][j])) for i in range(7) for j in range(7)])
            frame_unchanged(P, 'element unchanged', ex, s0, s, e.reg.id)
            frame_unchanged(P, 'particle unchanged', ex, s0, s, p.reg.id)
        P.fact('reachable', k > 0)
    return simple(ctx, 'ElementRFCavity::calRFcaviEmitGrowth', r'ElementRFCavity::calRFcaviEmitGrowth\(.*', body, 5)


# ------------------------------------------------------------------ contracts
BOOST_IN = ('IonZ', 'IonEs', 'IonW', 'beta')


def boost_val(which, f, fy0, scl, p):
    return fn('boost' + which, f, fy0, scl, *[p[k] for k in BOOST_IN])


def h_boost(P, ctx, e):
    def h(ex, st, a, n):
        this, tab, p, fy0, scl, pf = a
        if this != e.ptr or tab != e.p('CavData'):
            raise Unknown("field integration over another table")
        d = {k: ex.load(st, CT.at(p, PO[k]), D) for k in BOOST_IN}
        f = e.get(st, 'fRF')
        ex.store(st, CT.at(p, PO['IonW']), boost_val('W', f, fy0, scl, d), D)
        ex.store(st, pf, boost_val('F', f, fy0, scl, d), D)
    return h


def h_phase(P, ctx, e):
    def h(ex, st, a, n):
        cavi, p, fys, mult, v = a
        if v != e.p('SynAccTab'):
            raise Unknown("fit table")
        st.trace.append(('sin', cavi, p))
        d = {k: ex.load(st, CT.at(p, PO[k]), D) for k in ('IonW', 'IonEs', 'phis')}
        s2 = st.clone()
        return Fork([(st, fn('phase_sin', i2r(cavi), fys, mult, d['IonW'], d['IonEs'], d['phis'])), (s2, Throw('_ZTISt13runtime_error'))])
    return h


def h_phase_complex(P, ctx, e):
    def h(ex, st, a, n):
        p, fys, scl, mult, v = a
        if v != e.p('SynComplex'):
            raise Unknown("fit table")
        st.trace.append(('complex', p))
        d = {k: ex.load(st, CT.at(p, PO[k]), D) for k in ('IonW', 'IonEs', 'phis')}
        s2 = st.clone()
        return Fork([(st, fn('phase_complex', fys, scl, mult, d['IonW'], d['IonEs'], d['phis'])), (s2, Throw('_ZTISt13runtime_error'))])
    return h


def after_boost(e, s0, p0, phi, mult, scl):
    """particle behind the cavity"""
    f = e.get(s0, 'fRF')
    fy0 = mult * p0['phis'] + phi
    W = boost_val('W', f, fy0, scl, p0)
    F = boost_val('F', f, fy0, scl, p0)
    q = dict(p0, IonEk=W - p0['IonEs'], phis=p0['phis'] + (F - fy0) / mult)
    return recalc_spec(q)


def long_task(ctx):
    def body(P, ex, f):
        conf_exec(ctx, ex)
        for cv in (0, 1):
            st = State()
            ex.nonneg = ex.nonneg | {'nE', 'nN', 'nS', 'nC'}
            cnt = {'EkLim': ivar('nE'), 'NrLim': ivar('nN'), 'SynAccTab': ivar('nS'), 'SynComplex': ivar('nC')}
            e = new_obj(ctx, ex, st, CLS, 'E', tu=TU, counts=cnt)
            for b in ('have_RefNrm', 'have_SynComplex', 'have_EkLim', 'have_NrLim'):
                e.set(st, b, iite(bvar('E.' + b), I1, I0), I8)
            # class invariant (LoadCavityFile): limits have two entries
            st.assume(bor(bnot(bvar('E.have_EkLim')), ile(ic(2), cnt['EkLim'])))
            st.assume(bor(bnot(bvar('E.have_NrLim')), ile(ic(2), cnt['NrLim'])))
            cavi = I0 if cv == 0 else ivar('cavi')
            if cv:
                st.assume(bnot(ieq(cavi, I0)))
            e.set(st, 'cavi', cavi, I32)
            p = new_obj(ctx, ex, st, 'Particle', 'ref', tu=TU)
            for k, v in recalc_spec({k: p.get(st, k) for k in PF}).items():
                p.set(st, k, v)
            out = cell(ex, st, 'phi_ref')
            ex.contracts.update({key(fnm(ctx, r'ElementRFCavity::GetCavBoost\(.*')): h_boost(P, ctx, e), fnm(ctx, r'GetCavPhase\(.*'): h_phase(P, ctx, e),
                                 fnm(ctx, r'GetCavPhaseComplex\(.*'): h_phase_complex(P, ctx, e)})
            s0 = st.clone()
            cf = CT.confname(s0, e.p('p_conf'))
            p0 = {k: p.get(s0, k) for k in PF}
            mult = e.get(s0, 'fRF') / p0['SampleFreq']
            cvl = lambda k: CT.cval(cf, k)
            hs = CT.has(cf, 'syncflag', 'double')
            sync = rite(hs, cvl('syncflag'), R1)
            cx = band(band(bvar('E.have_RefNrm'), bvar('E.have_SynComplex')), req(sync, R1)) if cv == 0 else FALSE
            seen = set()
            for o in rets(ex.call(st, f, [e.ptr, p.ptr, out], mod(ctx))):
                s = o.state
                tr = [t[0] for t in s.trace if t[0] in ('sin', 'complex')]
                nm = 'type %d: ' % cv
                if o.kind == 'throw':
                    seen.add('throw')
                    if not tr:
                        P.holds(nm + 'error only for a missing scl_fac or phi', s.pc, bor(bnot(CT.has(cf, 'scl_fac', 'double')), band(rlt(sync, R1), bnot(CT.has(cf, 'phi', 'double')))))
                    frame_unchanged(P, nm + 'element unchanged by an error', ex, s0, s, e.reg.id)
                    continue
                P.fact(nm + 'returns', o.kind == 'ret', o.kind)
                scl = cvl('scl_fac')
                P.holds(nm + 'scl_fac given', s.pc, CT.has(cf, 'scl_fac', 'double'))
                fys = e.get(s0, 'IonFys')
                if tr == ['complex']:
                    P.holds(nm + 'peak-position model only with its data and syncflag 1', s.pc, cx)
                    phi = fn('phase_complex', fys, scl * p0['IonZ'] / e.get(s0, 'RefNrm'), mult, p0['IonW'], p0['IonEs'], p0['phis'])
                elif tr == ['sin']:
                    P.holds(nm + 'sinusoidal model for syncflag >= 1 otherwise', s.pc, band(rle(R1, sync), bnot(cx)))
                    phi = fn('phase_sin', i2r(cavi), fys, mult, p0['IonW'], p0['IonEs'], p0['phis'])
                else:
                    P.holds(nm + 'driven phase given directly for syncflag < 1', s.pc, rlt(sync, R1))
                    phi = cvl('phi') * PI_ / 180.0
                seen.add(tr[0] if tr else 'direct')
                P.eq(nm + 'driven phase', s.pc, ex.load(s, out, D), phi)
                q = after_boost(e, s0, p0, phi, mult, scl)
                P.eqs(nm + 'reference', s.pc, [(k, p.get(s, k), q[k]) for k in PF])
                frame_unchanged(P, nm + 'element unchanged', ex, s0, s, e.reg.id)
            P.fact('type %d: outcomes reachable' % cv, seen >= {'sin', 'direct', 'throw'} and (cv or 'complex' in seen), repr(seen))
    return simple(ctx, 'ElementRFCavity::PropagateLongRFCav', r'ElementRFCavity::PropagateLongRFCav\(.*', body, 5)


PI_ = R(PI)


# ------------------------------------------------------------------ one charge state
def cavmat(i, j, args):
    return fn('cavmat%d%d' % (i, j), *args)


def h_cavmat(P, e, generic):
    """matrix of the cavity: a function of the type, aperture radius, charge, rest energy, scale, phase and energy"""
    def h(ex, st, a, n):
        if generic:
            this, p, scl, fy, ek, pm, line = a
            args = [R(0), R(0), R(0)]
        else:
            this, cavi, lab, rm, p, scl, fy, ek, pm, line = a
            args = [i2r(cavi), i2r(lab), rm]
        if this != e.ptr:
            raise Unknown("other element")
        args += [ex.load(st, CT.at(p, PO[k]), D) for k in ('IonZ', 'IonEs')] + [scl, fy, ek]
        CT.wrmat(ex, st, pm, [[cavmat(i, j, args) for j in range(7)] for i in range(7)])
        st.trace.append(('cavmat', generic, line))
        s2 = st.clone()
        return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])
    return h


def init_task(ctx):
    def body(P, ex, f):
        conf_exec(ctx, ex)
        for cv in (0, 1, 2, 3, 4, None):
            st = State()
            e = new_obj(ctx, ex, st, CLS, 'E', tu=TU)
            if cv is None:
                cavi = ivar('cavi')
                for k in range(6):
                    st.assume(bnot(ieq(cavi, ic(k))))
                e.set(st, 'cavi', cavi, I32)
            else:
                e.set(st, 'cavi', ic(cv), I32)
            p = new_obj(ctx, ex, st, 'Particle', 'real', tu=TU)
            for k, v in recalc_spec({k: p.get(st, k) for k in PF}).items():
                p.set(st, k, v)
            pm, _ = mats(ex, st, 'M')
            line = Ptr(ex.alloc(st, 'line', size=200).id, I0)
            ex.contracts.update({key(fnm(ctx, r'ElementRFCavity::GetCavBoost\(.*')): h_boost(P, ctx, e),
                                 key(fnm(ctx, r'ElementRFCavity::GetCavMat\(.*')): h_cavmat(P, e, False),
                                 key(fnm(ctx, r'ElementRFCavity::GetCavMatGeneric\(.*')): h_cavmat(P, e, True)})
            s0 = st.clone()
            cf = CT.confname(s0, e.p('p_conf'))
            p0 = {k: p.get(s0, k) for k in PF}
            mult = e.get(s0, 'fRF') / p0['SampleFreq']
            scl = CT.cval(cf, 'scl_fac')
            phi = e.get(s0, 'phi_ref')
            q = after_boost(e, s0, p0, phi, mult, scl)
            args = ([R(0)] * 3 if cv == 0 else [R(cv), R(CV.LABEL[cv]), R(CV.RM[cv])] if cv else []) + [p0['IonZ'], p0['IonEs'], scl, mult * p0['phis'] + phi, p0['IonEk']]
            nm = 'cavity %s: ' % cv
            seen = set()
            for o in rets(ex.call(st, f, [e.ptr, p.ptr, pm, line], mod(ctx))):
                s = o.state
                tr = [t for t in s.trace if t[0] == 'cavmat']
                seen.add(o.kind)
                if o.kind == 'throw':
                    if not tr and cv is not None:
                        P.holds(nm + 'error only for a missing scl_fac', s.pc, bnot(CT.has(cf, 'scl_fac', 'double')))
                    continue
                P.fact(nm + 'returns', o.kind == 'ret' and cv is not None, o.kind)
                if cv is None:
                    continue
                P.eqs(nm + 'charge state', s.pc, [(k, p.get(s, k), q[k]) for k in PF])
                G = CT.rdmat(ex, s, pm)
                mu = R1 if entails(s.pc, req(mult, R1)) else mult
                w = [[cavmat(i, j, args) * (mu if j == 4 and i != 4 else 1.0) / (mu if i == 4 and j != 4 else 1.0) for j in range(7)] for i in range(7)]
                P.eqs(nm + 'matrix scaled to the sampling phase', s.pc, [('[%d,%d]' % (i, j), G[i][j], R(w[i][j])) for i in range(7) for j in range(7)])
                P.fact(nm + 'own line table', len(tr) == 1 and tr[0][2] == line, repr(tr))
                frame_unchanged(P, nm + 'element unchanged', ex, s0, s, e.reg.id)
            P.fact(nm + 'reachable', seen == ({'throw'} if cv is None else {'ret', 'throw'}), repr(seen))
    return simple(ctx, 'ElementRFCavity::InitRFCav', r'ElementRFCavity::InitRFCav\(.*', body, 5)



# ------------------------------------------------------------------ two-gap model: tables for the matrix construction
def tf_val(k, lab, beta, K, gap, scl):
    return fn('tf' + k, lab, beta, K, gap, scl)


def h_transfacts(P, e):
    def h(ex, st, a, n):
        this, lab, beta, K, gap, scl, *outs = a
        if this != e.ptr:
            raise Unknown("other element")
        s2 = st.clone()
        for k, p in zip(OUT6, outs):
            ex.store(st, p, tf_val(k, i2r(lab), beta, K, i2r(gap), scl), D)
        return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])
    return h


def getmat_task(ctx):
    def body(P, ex, f):
        from s_cav import h_gap
        quiet_log(ctx, ex)
        st = State()
        e = new_obj(ctx, ex, st, CLS, 'E', tu=TU)
        n, w = ivar('rows'), ivar('cols')
        ex.nonneg = ex.nonneg | {'rows', 'cols'}
        st.assume(ile(I1, n))
        st.assume(ile(ic(2), w))
        tab = table(ctx, ex, st, e.p('CavData'), 'F', n, w)
        p = new_obj(ctx, ex, st, 'Particle', 'real', tu=TU)
        pm, _ = mats(ex, st, 'M')
        line = Ptr(ex.alloc(st, 'line', size=200).id, I0)
        arr = lambda ex, s, q, m: [ex.load(s, CT.at(q, 8 * k), D) for k in range(m)]

        def h_params(ex, s, a, nm):
            this, cavi, be, ga, K, ln = a
            s.trace.append(('params', this, cavi, arr(ex, s, be, 3), arr(ex, s, ga, 3), arr(ex, s, K, 2), ln))
            return Fork([(s, None), (s.clone(), Throw('_ZTISt13runtime_error'))])

        def h_gen(ex, s, a, nm):
            this, cavi, dis, scl, ttf, be, ga, lam, real, fy, rm, M, ln = a
            s.trace.append(('gen', this, cavi, dis, scl, arr(ex, s, ttf, 12), arr(ex, s, be, 3), arr(ex, s, ga, 3), lam, real, arr(ex, s, fy, 2), rm, M, ln))
            return Fork([(s, None), (s.clone(), Throw('_ZTISt13runtime_error'))])
        ex.contracts.update({key(fnm(ctx, r'ElementRFCavity::TransFacts\(.*')): h_transfacts(P, e), fnm(ctx, r'EvalGapModel\(.*'): h_gap(ctx),
                             key(fnm(ctx, r'ElementRFCavity::GetCavMatParams\(.*')): h_params, key(fnm(ctx, r'ElementRFCavity::GenCavMat2\(.*')): h_gen})
        cavi, lab, rm, scl, fy, ek = ivar('cavi'), ivar('label'), rvar('Rm'), rvar('scl'), rvar('fy'), rvar('Ek')
        s0 = st.clone()
        Z, Es = p.get(s0, 'IonZ'), p.get(s0, 'IonEs')
        lam = CV.lam_rf(e.get(s0, 'fRF'))
        dis = (tab(isub(n, I1), 0) - tab(I0, 0)) / 2.0
        W, F, g, b, K, tf = [ek + Es], [fy], [], [], [], []
        for k in range(3):
            g.append(W[k] / Es)
            b.append(CV.beta_of(g[k]))
            K.append(CV.wave(b[k], lam))
            if k < 2:
                t = {q: tf_val(q, i2r(lab), b[k], K[k], R(k + 1), scl) for q in OUT6}
                tf.append(t)
                args = [dis, W[k], Z, Es, F[k], K[k], lam] + [t[q] for q in ('Ecen', 'T', 'S', 'Tp', 'Sp', 'V0')]
                W.append(fn('gapW', *args))
                F.append(fn('gapF', *args))
        ttf = [tf[k][q] - (dis if q == 'Ecen' and k == 0 else 0.0) for k in range(2) for q in OUT6]
        seen = set()
        for o in rets(ex.call(st, f, [e.ptr, cavi, lab, rm, p.ptr, scl, fy, ek, pm, line], mod(ctx))):
            s = o.state
            seen.add(o.kind)
            if o.kind == 'throw':
                continue
            tr = [t for t in s.trace if t[0] in ('params', 'gen')]
            if [t[0] for t in tr] != ['params', 'gen']:
                raise Unknown("calls")
            A, B = tr
            P.fact('same element, type and line table', A[1] == e.ptr and B[1] == e.ptr and A[2] is cavi and A[6] == line and B[13] == line and B[12] == pm and B[9] == p.ptr)
            L = lambda nm, x, y: [('%s %d' % (nm, k), u, R(v)) for k, (u, v) in enumerate(zip(x, y))]
            P.eqs('velocities for the line table', s.pc, L('beta', A[3], b) + L('gamma', A[4], g) + L('wave number', A[5], [(K[0] + K[1]) / 2.0, (K[1] + K[2]) / 2.0]))
            P.eqs('matrix', s.pc, L('beta', B[6], b) + L('gamma', B[7], g) + L('transit factors', B[5], ttf) + L('phase', B[10], F) +
                  L('half length, scale, wavelength, aperture', [B[3], B[4], B[8], B[11]], [dis, scl, lam, rm]))
            frame_unchanged(P, 'element unchanged', ex, s0, s, e.reg.id)
            frame_unchanged(P, 'particle unchanged', ex, s0, s, p.reg.id)
        P.fact('reachable', seen == {'ret', 'throw'}, repr(seen))
    return simple(ctx, 'ElementRFCavity::GetCavMat', r'ElementRFCavity::GetCavMat\(.*', body)


# ------------------------------------------------------------------ two-gap model: matrix
TYPES = ('drift', 'AccGap', 'EFocus1', 'EFocus2', 'EDipole', 'EQuad', 'HMono', 'HDipole', 'HQuad')
GENERIC = ('drift', 'AccGap', 'EFocus', 'EDipole', 'EQuad', 'HMono', 'HDipole', 'HQuad')


def lattice_loop(fn_):
    """header of the loop over the lattice: the outermost loop with the largest body (the others fill matrices)"""
    hs = sorted(loops_of(fn_), key=lambda h: -len(fn_.loops[h]))
    if not hs:
        raise Unknown("loop over the lattice not found")
    return hs[:1]


def mul7(A, B):
    return [[sum((R(A[i][q]) * B[q][j] for q in range(7)), R0) for j in range(7)] for i in range(7)]


def reals(ex, st, name, n):
    r = ex.alloc(st, name, size=8 * n)
    v = [rvar('%s%d' % (name, k)) for k in range(n)]
    for k in range(n):
        ex.store(st, Ptr(r.id, ic(8 * k)), v[k], D)
    return Ptr(r.id, I0), v


def element(ctx, ex, st, nL):
    """cavity whose lattice has nL elements of arbitrary content"""
    e = new_obj(ctx, ex, st, CLS, 'E', tu=TU)
    size, mem = ctx.lay.get(CLS + '::RawParams', TU)
    e.reg.cells.pop(('g', e.off('lattice')), None)
    LIB.vec_new(ex, st, e.p('lattice'), nL, size, {o: (8, 'R') for o, q, ty in mem if ty == 'double'}, base='sym', name='E.lattice', fam='E.lattice')
    return e


def member(ctx, f):
    return ctx.lay.off(CLS + '::RawParams', f, TU)


def typ(ctx, ex, e, s, k, types):
    """which type the path has established for element k: name, or None when all are excluded"""
    b = ex.load(s, e.p('lattice'), PTR)
    v = LIB.strval(s, Ptr(b.r, iadd(iscale(k, s.mem[b.r].stride), ic(member(ctx, 'type')))))
    yes = [t for t in types if entails(s.pc, LIB.streq(v, ('lit', t)))]
    if len(yes) > 1:
        return 'void'
    if yes:
        return yes[0]
    if all(entails(s.pc, bnot(LIB.streq(v, ('lit', t)))) for t in types):
        return None
    raise Unknown("type of the element not decided on a path")


def identities(cu, s1, backs):
    """regions of accumulated matrices: identity on entry, next value depends on the present one"""
    by = {}
    for l, v in cu.real.items():
        if l[0] == 'mem' and isinstance(v, T) and v.sort == 'R':
            by.setdefault(l[1], {})[l[2]] = v
    out = []
    for rid, cs in by.items():
        reg = s1.mem[rid]
        ks = [k for k in reg.cells if isinstance(k, int) and isinstance(reg.cells[k][1], T) and reg.cells[k][1].sort == 'R']
        if len(ks) != 49:
            continue
        k0 = min(ks)
        ok = all(reg.cells.get(k0 + 8 * (7 * i + j), (0, None))[1] is (R1 if i == j else R0) for i in range(7) for j in range(7))
        own = set(cs.values())
        dep = any(set(fvars(b.mem[rid].cells[k][1])) & own for b in backs for k in cs)
        if ok and dep:
            out.append((rid, k0, {(k - k0) // 8 for k in cs}))
    return out


def mat_role(cu, s1, backs):
    out = identities(cu, s1, backs)
    if len(out) != 1:
        raise Unknown("accumulated matrix not identified")
    return out[0][:2]


def mat_roles(cu, s1, backs):
    """transverse and longitudinal product"""
    out = identities(cu, s1, backs)
    lon = [x for x in out if 4 * 7 + 5 in x[2]]
    tr = [x for x in out if 4 * 7 + 5 not in x[2] and 1 in x[2]]
    if len(out) != 2 or len(lon) != 1 or len(tr) != 1:
        raise Unknown("accumulated matrices not identified")
    return tr[0][:2], lon[0][:2]


def gap_cut(ex, s1, base, fn_, h):
    """cut at the lattice loop; the counter of gaps passed so far (0 on entry) takes each of its values 0, 1, 2"""
    lc = (len(s1.frames), h, fn_.loops[h])
    why = Unknown("counter of gaps not found")
    for ph in fn_.blocks[h].phis:
        if s1.frames[-1].regs[ph.res] is not I0:
            continue

        def body(s, r=ph.res):
            out = []
            for sg in range(3):
                t = s.clone()
                t.frames[-1].regs[r] = ic(sg)
                out.extend(ex.run([t], base, lc))
            return out
        try:
            cu = RCut(ex, s1, base, fn_, h, body)
        except Unknown as x:
            why = x
            continue
        if ('reg', ph.res) in cu.real:
            return cu, ph.res
    raise why


def step(ex, s, base, lc):
    """one iteration: outcomes back at the header ('stop'), 'ret' or 'throw' of the function"""
    out = []
    for o in ex.run([s], base, lc):
        if not feasible(o.state.pc):
            continue
        if kd(o) == 'exit':
            o.state.frames[-1].loops = {}
            out.extend(x for x in ex.run([o.state], base) if feasible(x.state.pc))
        else:
            out.append(o)
    return out


def regs_by_entry(cu, s1, want):
    """loop-carried values identified by the value they have on entry"""
    out = {}
    for name, v in want.items():
        hit = []
        for l, x in cu.real.items():
            x0 = s1.frames[-1].regs[l[1]] if l[0] == 'reg' else (s1.mem[l[1]].cells.get(l[2]) or (0, None))[1]
            if not isinstance(x, T) or not isinstance(x0, T) or x0.sort != v.sort:
                continue
            if x0 is v or v.sort == 'R' and prove_eq(list(s1.pc), x0, v, None, 3, 0, [20])[0] == 'proved':
                hit.append(l)
        out[name] = hit
    return out


def gencav_task(ctx, one=None):
    def body(P, ex, f):
        quiet_log(ctx, ex)
        st = State()
        nL, n, w, k = ivar('nL'), ivar('rows'), ivar('cols'), ivar('k')
        ex.nonneg = ex.nonneg | {'nL', 'rows', 'cols', 'k'}
        for c in (ile(I1, nL), ile(I1, n), ile(ic(2), w)):
            st.assume(c)
        e = element(ctx, ex, st, nL)
        tab = table(ctx, ex, st, e.p('CavData'), 'F', n, w)
        p = new_obj(ctx, ex, st, 'Particle', 'real', tu=TU)
        line = new_obj(ctx, ex, st, 'CavTLMLineType', 'line', tu=TU, counts={x: nL for x in ('s', 'Elem', 'E0', 'T', 'S', 'Accel')})
        pm, _ = mats(ex, st, 'M')
        pt, ttf = reals(ex, st, 'ttf', 12)
        pb, b = reals(ex, st, 'beta', 3)
        pg, g = reals(ex, st, 'gamma', 3)
        pf, fy = reals(ex, st, 'fy', 2)
        cavi, dis, scl, lam, rm = ivar('cavi'), rvar('dis'), rvar('scl'), rvar('lam'), rvar('Rm')
        s0 = st.clone()
        Z, Es = p.get(s0, 'IonZ'), p.get(s0, 'IonEs')
        lvl = e.get(s0, 'MpoleLevel', I32)
        st.assume(ile(I0, lvl))       # unsigned
        sv = s0.clone()
        sv.ghost['nobounds'] = True
        fn_ = ctx.prog.find(f, mod(ctx))
        hs = lattice_loop(fn_)
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, cavi, dis, scl, pt, pb, pg, lam, p.ptr, pf, rm, pm, line.ptr])
        wave = lambda x: 2.0 * PI / (x * lam)
        K = [wave(x) for x in b]
        L = [dis + ttf[0], ttf[6] - ttf[0], dis - ttf[6]]
        kick = lambda o, a: -Z * ttf[o + 5] * ttf[o + 1] * sin(a) - Z * ttf[o + 5] * ttf[o + 3] * cos(a)
        kk = [kick(0, fy[0] + (K[0] + K[1]) / 2.0 * L[0]), kick(6, fy[1] + (K[1] + K[2]) / 2.0 * ttf[6])]
        mul = lambda A, B: [[sum((A[i][q] * B[q][j] for q in range(2)), R0) for j in range(2)] for i in range(2)]
        sl = [CV.slip(L[i], b[i] * g[i], Es, lam) for i in range(3)]
        low = lambda x: [[R1, R0], [x, R1]]
        up = lambda x: [[R1, x], [R0, R1]]
        lon = mul(up(sl[2]), mul(low(kk[1]), mul(up(sl[1]), mul(low(kk[0]), up(sl[0])))))
        seen = set()

        def loop(s1):
            s1.pc = list(s1.pc)
            cu, seg = gap_cut(ex, s1, base, fn_, hs[0])
            sx = cu.at(k)
            roles = regs_by_entry(cu, s1, {'beta': b[0], 'gamma': g[0], 'fy': fy[0], 'kfac': K[0], 's': tab(I0, 0)})
            bad = {x: len(h) for x, h in roles.items() if len(h) != 1}
            if bad:
                raise Unknown("loop-carried values not identified: %r" % bad)
            at = {x: h[0] for x, h in roles.items()}
            cur = {x: cu.real[l] for x, l in at.items()}
            P.eqs('start', s1.pc, [(x, s1.frames[-1].regs[at[x][1]], v) for x, v in (('beta', b[0]), ('gamma', g[0]), ('fy', fy[0]), ('kfac', K[0]), ('s', tab(I0, 0)))])
            sx.assume(ile(I0, k))
            backs = [o for o in cu.run(sx.clone()) if kd(o) == 'back' and feasible(o.state.pc)]
            rid, k0 = mat_role(cu, s1, [o.state for o in backs])
            rd = lambda s: [[s.mem[rid].cells[k0 + 8 * (7 * i + j)][1] for j in range(7)] for i in range(7)]
            for sg in range(3):
                s = sx.clone()
                s.frames[-1].regs[seg] = ic(sg)
                M0 = rd(s)
                for o in step(ex, s, base, cu.lc):
                    s2 = o.state
                    if kd(o) == 'ret':
                        seen.add('exit')
                        P.holds('all elements done', s2.pc, ile(nL, k))
                        G = CT.rdmat(ex, s2, pm)
                        W = [[lon[i - 4][j - 4] if i in (4, 5) and j in (4, 5) else M0[i][j] for j in range(7)] for i in range(7)]
                        P.eqs('result: transverse product, longitudinal drift-kick-drift-kick-drift', s2.pc, [('[%d,%d]' % (i, j), G[i][j], R(W[i][j])) for i in range(7) for j in range(7)])
                        for q, nm in ((e, 'element'), (p, 'particle'), (line, 'line table')):
                            frame_unchanged(P, nm + ' unchanged', ex, s0, s2, q.reg.id)
                        continue
                    ty = typ(ctx, ex, e, s2, k, TYPES)
                    if ty == 'void':
                        continue
                    if kd(o) == 'throw':
                        seen.add('throw')
                        P.fact('error only for an unknown type or a third gap', ty is None or ty == 'AccGap' and sg == 2, '%s after %d gaps' % (ty, sg))
                        continue
                    if kd(o) != 'back':
                        P.fact('no other outcome', False, repr((o.kind, o.info)))
                        continue
                    P.fact('an unknown type or a third gap is an error', ty is not None and not (ty == 'AccGap' and sg == 2), '%s after %d gaps' % (ty, sg))
                    if ty is None or ty == 'AccGap' and sg == 2:
                        continue
                    seen.add(ty)
                    P.holds('%s: only for elements of the lattice' % ty, s2.pc, ilt(k, nL))
                    ln = e.velem(sv, 'lattice', k, member(ctx, 'length'))
                    nx = dict(cur, s=cur['s'] + ln, seg=sg)
                    tb = {x: line.velem(sv, x, k, 0) for x in ('E0', 'T', 'S', 'Accel')}
                    X = None
                    if ty == 'drift':
                        nx['fy'] = cur['fy'] + cur['kfac'] * ln
                        X = CV.drift_matrix(ln)
                    elif ty == 'AccGap':
                        nx.update(seg=sg + 1, beta=b[sg + 1], gamma=g[sg + 1], kfac=wave(b[sg + 1]))
                        X = CV.gap_matrix(tb['Accel'])
                    else:
                        act = ile(ic(CV.LEVEL[ty]), lvl)
                        if CV.LEVEL[ty] == 0 or entails(s2.pc, act):
                            be, ga = cur['beta'], cur['gamma']
                            if ty == 'HQuad':
                                first = rlt(nx['s'], R0)
                                av = lambda q, i: (q[i] + q[i + 1]) / 2.0
                                be, ga = rite(first, av(b, 0), av(b, 1)), rite(first, av(g, 0), av(g, 1))
                                if entails(s2.pc, first):
                                    be, ga = av(b, 0), av(g, 0)
                                elif entails(s2.pc, bnot(first)):
                                    be, ga = av(b, 1), av(g, 1)
                                nx.update(beta=be, gamma=ga)
                            X = CV.lens_matrix(CV.lens(ty, Z, tb['E0'] * scl, be, ga, cur['fy'], tb['T'], tb['S'], rm))
                        elif not entails(s2.pc, bnot(act)):
                            raise Unknown("level not decided")
                    W = mul7(X, M0) if X is not None else M0
                    G = rd(s2)
                    nm = '%s after %d gaps' % (ty, sg)
                    P.eqs(nm, s2.pc, [('[%d,%d]' % (i, j), G[i][j], R(W[i][j])) for i in range(7) for j in range(7)])
                    P.eqs(nm, s2.pc, [(x, cu.val(s2, at[x]), R(nx[x])) for x in ('beta', 'gamma', 'fy', 'kfac', 's')])
                    P.holds(nm + ': gaps counted', s2.pc, ieq(s2.frames[-1].regs[seg], ic(nx['seg'])))
        for o in run_to(ex, st, base, set(hs)):
            if feasible(o.state.pc):
                if kd(o) != 'back':
                    raise Unknown("function returns before the loop")
                loop(o.state)
        P.fact('every type, exit and error reachable', seen == set(TYPES) | {'exit', 'throw'}, repr(seen))
    return simple(ctx, 'ElementRFCavity::GenCavMat2', r'ElementRFCavity::GenCavMat2\(.*', body, 5)


# ------------------------------------------------------------------ line table
LINE = ('s', 'Elem', 'E0', 'T', 'S', 'Accel')


def texts(ctx, ex):
    """std::vector<std::string>: push_back and clear recorded"""
    for m, d in ctx.lib.dm.items():
        if d.startswith('std::vector<std::__cxx11::basic_string') or d.startswith('std::vector<std::string'):
            if '>::push_back(' in d:
                ex.contracts[m] = lambda ex, st, a, n: st.trace.append(('text', a[0], LIB.strval(st, a[1])))
            elif '>::clear()' in d:
                ex.contracts[m] = lambda ex, st, a, n: st.trace.append(('notext', a[0]))


def line_task(ctx, which):
    def body(P, ex, f):
        quiet_log(ctx, ex)
        texts(ctx, ex)
        st = State()
        n = ivar('n')
        ex.nonneg = ex.nonneg | {'n'}
        st.assume(ile(I0, n))
        line = new_obj(ctx, ex, st, 'CavTLMLineType', 'line', tu=TU, counts={x: n for x in LINE})
        for x in LINE:
            if x != 'Elem':
                b = ex.load(st, line.p(x), PTR)
                st.mem[b.r].tag = ('grow',)
                st.mem[b.r].count = None
        args = [line.ptr]
        v = {}
        if which == 'set':
            t = ex.alloc(st, 'text')
            t.cells[('g', 0)] = ('sym', 'text')
            v = {x: rvar('new' + x) for x in LINE if x != 'Elem'}
            args = [line.ptr, v['s'], Ptr(t.id, I0), v['E0'], v['T'], v['S'], v['Accel']]
        s0 = st.clone()
        k, seen = ivar('k'), 0
        for o in rets(ex.call(st, f, args, mod(ctx))):
            s = o.state
            seen += 1
            P.fact('returns', o.kind == 'ret', o.kind)
            tr = [t for t in s.trace if t[0] in ('text', 'notext')]
            P.fact('type of the element', tr == ([('text', line.p('Elem'), ('sym', 'text'))] if which == 'set' else [('notext', line.p('Elem'))]), repr(tr))
            for x in LINE:
                if x == 'Elem':
                    continue
                P.holds('%s: number of entries' % x, s.pc, ieq(line.vsize(s, x, 8), iadd(n, I1) if which == 'set' else I0))
                if which == 'set':
                    t = s.clone()
                    t.ghost['nobounds'] = True
                    P.eq('%s: appended' % x, s.pc, line.velem(t, x, n, 0), v[x])
                    P.eq('%s: earlier entries kept' % x, s.pc + [ile(I0, k), ilt(k, n)], line.velem(t, x, k, 0), relem('line.' + x, k, 0))
        P.fact('reachable', seen > 0)
    return simple(ctx, 'CavTLMLineType::' + which, r'CavTLMLineType::%s\(.*' % which, body)


def h_multipole(P, e):
    def h(ex, st, a, n):
        this, cavi, lab, K, pt, ps = a
        v = LIB.strval(st, lab)
        if this != e.ptr or v[0] != 'lit':
            raise Unknown("multipole of another element")
        s2 = st.clone()
        for q, p in (('T', pt), ('S', ps)):
            ex.store(st, p, mp_val(q, cavi, v[1], K), D)
        return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])
    return h


def mp_val(q, cavi, lab, K):
    return fn('mp' + q, i2r(cavi), rvar('label ' + lab), K)


def params_task(ctx):
    def body(P, ex, f):
        quiet_log(ctx, ex)
        st = State()
        nL, n, w, k = ivar('nL'), ivar('rows'), ivar('cols'), ivar('k')
        ex.nonneg = ex.nonneg | {'nL', 'rows', 'cols', 'k'}
        for c in (ile(I0, nL), ile(I1, n), ile(ic(2), w)):
            st.assume(c)
        e = element(ctx, ex, st, nL)
        tab = table(ctx, ex, st, e.p('CavData'), 'F', n, w)
        line = new_obj(ctx, ex, st, 'CavTLMLineType', 'line', tu=TU, counts={x: nL for x in LINE})
        pb, b = reals(ex, st, 'beta', 3)
        pg, g = reals(ex, st, 'gamma', 3)
        pk, K = reals(ex, st, 'K', 2)
        cavi = ivar('cavi')
        s0 = st.clone()
        lvl = e.get(s0, 'MpoleLevel', I32)
        st.assume(ile(I0, lvl))       # unsigned
        sv = s0.clone()
        sv.ghost['nobounds'] = True

        def h_clear(ex, s, a, nm):
            s.trace.append(('clear', a[0]))

        def h_set(ex, s, a, nm):
            s.trace.append(('set', a[0], a[1], LIB.strval(s, a[2])) + tuple(a[3:]))
        ex.contracts.update({key(fnm(ctx, r'CavTLMLineType::clear\(.*')): h_clear, key(fnm(ctx, r'CavTLMLineType::set\(.*')): h_set,
                             key(fnm(ctx, r'CavTLMLineType::show\(\).*')): lambda ex, s, a, nm: None,
                             key(fnm(ctx, r'ElementRFCavity::TransitFacMultipole\(.*')): h_multipole(P, e)})
        fn_ = ctx.prog.find(f, mod(ctx))
        hs = lattice_loop(fn_)
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, cavi, pb, pg, pk, line.ptr])
        ev = lambda s: [t for t in s.trace if t[0] in ('clear', 'set')]
        seen = set()

        def loop(s1):
            P.fact('table emptied first', ev(s1) == [('clear', line.ptr)], repr(ev(s1)))
            cu = RCut(ex, s1, base, fn_, hs[0])
            at = regs_by_entry(cu, s1, {'s': tab(I0, 0)})['s']
            if len(at) != 1:
                raise Unknown("position not identified")
            P.eq('start', s1.pc, s1.frames[-1].regs[at[0][1]], tab(I0, 0))
            sx = cu.at(k)
            sx.assume(ile(I0, k))
            sx.trace = []
            pos = cu.real[at[0]]
            for o in step(ex, sx, base, cu.lc):
                s2 = o.state
                if kd(o) == 'ret':
                    seen.add('exit')
                    P.holds('all elements done', s2.pc, ile(nL, k))
                    P.fact('table complete', ev(s2) == [], repr(ev(s2)))
                    frame_unchanged(P, 'element unchanged', ex, s0, s2, e.reg.id)
                    frame_unchanged(P, 'table only written through its functions', ex, s0, s2, line.reg.id)
                    continue
                ty = typ(ctx, ex, e, s2, k, TYPES)
                if ty == 'void':
                    continue
                if kd(o) == 'throw':
                    seen.add('throw')
                    P.fact('error only for an unknown type or multipole', ty is None or ty not in ('drift', 'AccGap'), str(ty))
                    continue
                if kd(o) != 'back':
                    raise Unknown("outcome %r" % (o.kind,))
                P.fact('an unknown type is an error', ty is not None, str(ty))
                if ty is None:
                    continue
                seen.add(ty)
                P.holds('%s: only for elements of the lattice' % ty, s2.pc, ilt(k, nL))
                frame_unchanged(P, '%s: table only written through its functions' % ty, ex, s0, s2, line.reg.id)
                sp = pos + e.velem(sv, 'lattice', k, member(ctx, 'length'))
                first = rlt(sp, R0)
                if not entails(s2.pc, first) and not entails(s2.pc, bnot(first)):
                    sides = (True, False)
                else:
                    sides = (entails(s2.pc, first),)
                for a in sides:
                    E0, T_, S_, A = e.velem(sv, 'lattice', k, member(ctx, 'E0')), R0, R0, R0
                    i = 0 if a else 1
                    if ty == 'drift':
                        E0 = R0
                    elif ty == 'AccGap':
                        E0, A = R0, b[i] * g[i] / (b[i + 1] * g[i + 1])
                    else:
                        act = ile(ic(CV.LEVEL[ty]), lvl)
                        if CV.LEVEL[ty] == 0 or entails(s2.pc, act):
                            lab = {'EFocus1': 'EFocus2', 'EFocus2': 'EFocus1'}.get(ty, ty) if a else ty      # mirror image in the first gap
                            T_, S_ = (mp_val(q, cavi, 'CaviMlp_' + lab, K[i]) for q in ('T', 'S'))
                            if a and ty[0] == 'E':
                                S_ = -S_
                            elif a:
                                T_ = -T_
                        elif not entails(s2.pc, bnot(act)):
                            raise Unknown("level not decided")
                    nm = '%s in the %s gap' % (ty, 'first' if a else 'second')
                    t = ev(s2)
                    P.fact(nm + ': one entry', len(t) == 1 and t[0][0] == 'set' and t[0][1] == line.ptr, repr(t)[:200])
                    if len(t) != 1 or t[0][0] != 'set':
                        continue
                    want = LIB.strval(sv, Ptr(ex.load(sv, e.p('lattice'), PTR).r, iadd(iscale(k, ctx.lay.get(CLS + '::RawParams', TU)[0]), ic(member(ctx, 'type')))))
                    P.fact(nm + ': type', t[0][3] == want or t[0][3] == ('lit', ty), repr(t[0][3]))
                    pc = s2.pc + [first if a else bnot(first)]
                    P.eqs(nm, pc, [(x, y, R(z)) for x, y, z in zip(('s', 'E0', 'T', 'S', 'Accel'), (t[0][2],) + t[0][4:], (sp, E0, T_, S_, A))])
                P.eq('%s: position' % ty, s2.pc, cu.val(s2, at[0]), sp)
        for o in run_to(ex, st, base, set(hs)):
            if not feasible(o.state.pc):
                continue
            if kd(o) == 'throw':
                seen.add('empty')
                P.holds('error before the loop only for an empty lattice', o.state.pc, ieq(nL, I0))
            elif kd(o) == 'back':
                P.holds('an empty lattice is an error', o.state.pc, ile(I1, nL))
                loop(o.state)
            else:
                raise Unknown("function returns before the loop")
        P.fact('every type, exit and errors reachable', seen == set(TYPES) | {'exit', 'throw', 'empty'}, repr(seen))
    return simple(ctx, 'ElementRFCavity::GetCavMatParams', r'ElementRFCavity::GetCavMatParams\(.*', body, 5)


# ------------------------------------------------------------------ generic cavity: matrix
def fit_val(q, x, k):
    return fn('fit' + q, x, i2r(k))


def h_fit(ctx, e, k):
    """calFitPow of the fits of element k of the lattice"""
    def h(ex, st, a, n):
        this, x, v = a
        b = ex.load(st, e.p('lattice'), PTR)
        o = isub(v.o, iscale(k, ctx.lay.get(CLS + '::RawParams', TU)[0]))
        for q in ('Tfit', 'Sfit'):
            if this == e.ptr and v.r == b.r and icst(o) == member(ctx, q):
                return fit_val(q, x, k)
        if st.ghost.get('nobounds'):
            return rvar(fresh('fit'))
        raise Unknown("fit of another element")
    return h


def generic_task(ctx):
    def body(P, ex, f):
        quiet_log(ctx, ex)
        st = State()
        nL, k = ivar('nL'), ivar('k')
        ex.nonneg = ex.nonneg | {'nL', 'k'}
        st.assume(ile(I0, nL))
        st.assume(ile(nL, ic(2 ** 32 - 1)))
        e = element(ctx, ex, st, nL)
        p = new_obj(ctx, ex, st, 'Particle', 'real', tu=TU)
        # the line table is not filled for a generic cavity
        line = new_obj(ctx, ex, st, 'CavTLMLineType', 'line', tu=TU, counts={x: I0 for x in LINE})
        pm, _ = mats(ex, st, 'M')
        scl, fy0, Ek = rvar('scl'), rvar('fy'), rvar('Ek')
        s0 = st.clone()
        Z, Es, rm = p.get(s0, 'IonZ'), p.get(s0, 'IonEs'), e.get(s0, 'cRm')
        st.assume(rlt(R0, rm))
        lam = CV.lam_rf(e.get(s0, 'fRF'))
        lvl = e.get(s0, 'MpoleLevel', I32)
        st.assume(ile(I0, lvl))       # unsigned
        sv = s0.clone()
        sv.ghost['nobounds'] = True
        ex.contracts[key(fnm(ctx, r'ElementRFCavity::calFitPow\(.*'))] = h_fit(ctx, e, k)
        fn_ = ctx.prog.find(f, mod(ctx))
        hs = lattice_loop(fn_)
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, p.ptr, scl, fy0, Ek, pm, line.ptr])
        W0 = Ek + Es
        g0 = W0 / Es
        b0 = CV.beta_of(g0)
        seen = set()

        def loop(s1):
            cu = RCut(ex, s1, base, fn_, hs[0])
            start = {'W': W0, 'gamma': g0, 'beta': b0, 'fy': fy0, 'kfac': CV.wave(b0, lam)}
            roles = regs_by_entry(cu, s1, start)
            bad = {x: len(h) for x, h in roles.items() if len(h) != 1}
            if bad:
                raise Unknown("loop-carried values not identified: %r" % bad)
            at = {x: h[0] for x, h in roles.items()}
            cur = {x: cu.real[l] for x, l in at.items()}
            P.eqs('start', s1.pc, [(x, s1.frames[-1].regs[at[x][1]], v) for x, v in start.items()])
            sx = cu.at(k)
            sx.assume(ile(I0, k))
            outs = step(ex, sx.clone(), base, cu.lc)
            tr, lo = mat_roles(cu, s1, [o.state for o in outs if kd(o) == 'back'])
            rd = lambda s, r: [[s.mem[r[0]].cells[r[1] + 8 * (7 * i + j)][1] for j in range(7)] for i in range(7)]
            A0, B0 = rd(sx, tr), rd(sx, lo)
            for o in outs:
                s2 = o.state
                if kd(o) == 'ret':
                    seen.add('exit')
                    P.holds('all elements done', s2.pc, ile(nL, k))
                    G = CT.rdmat(ex, s2, pm)
                    P.eqs('result: transverse and longitudinal products', s2.pc, [('[%d,%d]' % (i, j), G[i][j], R((B0 if i in (4, 5) and j in (4, 5) else A0)[i][j])) for i in range(7) for j in range(7)])
                    for q, nm in ((e, 'element'), (p, 'particle'), (line, 'line table')):
                        frame_unchanged(P, nm + ' unchanged', ex, s0, s2, q.reg.id)
                    continue
                ty = typ(ctx, ex, e, s2, k, GENERIC)
                if ty == 'void':
                    continue
                if kd(o) == 'throw':
                    seen.add('throw')
                    P.fact('error only for an unknown type', ty is None, str(ty))
                    continue
                if kd(o) != 'back':
                    raise Unknown("outcome %r" % (o.kind,))
                P.fact('an unknown type is an error', ty is not None, str(ty))
                if ty is None:
                    continue
                seen.add(ty)
                P.holds('%s: only for elements of the lattice' % ty, s2.pc, ilt(k, nL))
                ln = e.velem(sv, 'lattice', k, member(ctx, 'length'))
                V0 = e.velem(sv, 'lattice', k, member(ctx, 'E0')) * scl
                T_, S_ = (fit_val(q, cur['kfac'], k) for q in ('Tfit', 'Sfit'))
                nx = dict(cur)
                X = Y = None
                fy = cur['fy']
                if ty == 'drift':
                    nx['fy'] = fy + cur['kfac'] * ln
                    X = CV.drift_matrix(ln)
                    Y = O.with_entries(O.ident(), {(4, 5): CV.slip(ln, cur['beta'] * cur['gamma'], Es, lam)})
                elif ty == 'AccGap':
                    nx['W'] = cur['W'] + Z * V0 * MeVtoeV * (T_ * cos(fy) - S_ * sin(fy))
                    nx['gamma'] = nx['W'] / Es
                    nx['beta'] = CV.beta_of(nx['gamma'])
                    nx['kfac'] = CV.wave(nx['beta'], lam)
                    X = CV.gap_matrix(cur['beta'] * cur['gamma'] / (nx['beta'] * nx['gamma']))
                    Y = O.with_entries(O.ident(), {(5, 4): -Z * V0 * T_ * sin(fy) - Z * V0 * S_ * cos(fy)})
                else:
                    act = ile(ic(CV.LEVEL[ty]), lvl)
                    if CV.LEVEL[ty] == 0 or entails(s2.pc, act):
                        X = CV.lens_matrix(CV.lens(ty, Z, V0, cur['beta'], cur['gamma'], fy, T_, S_, rm))
                    elif not entails(s2.pc, bnot(act)):
                        raise Unknown("level not decided")
                WA, WB = (mul7(m, m0) if m is not None else m0 for m, m0 in ((X, A0), (Y, B0)))
                for nm, G, W in (('transverse', rd(s2, tr), WA), ('longitudinal', rd(s2, lo), WB)):
                    P.eqs('%s, %s' % (ty, nm), s2.pc, [('[%d,%d]' % (i, j), G[i][j], R(W[i][j])) for i in range(7) for j in range(7)])
                P.eqs(ty, s2.pc, [(x, cu.val(s2, at[x]), R(nx[x])) for x in start])
        for o in run_to(ex, st, base, set(hs)):
            if feasible(o.state.pc):
                if kd(o) != 'back':
                    raise Unknown("function returns before the loop")
                loop(o.state)
        P.fact('every type, exit and error reachable', seen == set(GENERIC) | {'exit', 'throw'}, repr(seen))
    return simple(ctx, 'ElementRFCavity::GetCavMatGeneric', r'ElementRFCavity::GetCavMatGeneric\(.*', body, 5)


def tasks(ctx):
    return [growth_task(ctx), phase_task(ctx), phase_complex_task(ctx), long_task(ctx), init_task(ctx), getmat_task(ctx), gencav_task(ctx), line_task(ctx, 'clear'), line_task(ctx, 'set'), params_task(ctx), generic_task(ctx)]
