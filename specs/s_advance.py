"""Moment simulation: contract of Element::advance for elements described by a transfer matrix (base advance, sbend)."""
from verify import *

NM = ('last_real_in', 'last_real_out', 'transfer', 'misalign', 'misalign_inv')


def T_opaque(ref, real):
    """ghost: the transfer matrix of the element for this (reference, charge state) input - a function of the element's
    configuration and of the independent input values only (discharged per element type in the optics property)"""
    a = [ref[f] for f in INDEP] + [real[f] for f in INDEP]
    return [[fn('T%d%d' % (r, c), *a) for c in range(7)] for r in range(7)]


def consistent_cells(fam, kv):
    q = recalc_spec({f: relem(fam, kv, PO[f]) for f in INDEP})
    return {PO[f]: (8, q[f]) for f in PF}


def setup_element(ctx, ex, st, cls, vt, warm, n, tu='moment'):
    """element object satisfying the cache invariant; warm: a previous result is cached, for c charge states"""
    c = ivar('c')
    ex.nonneg = ex.nonneg | {'c', 'n', 'mT'}
    if warm:
        st.assume(ile(I1, c))
        counts = {p: c for p in NM}
    else:
        c = I0
        m = ivar('mT')
        st.assume(ile(I0, m))
        counts = {'last_real_in': I0, 'last_real_out': I0, 'transfer': m, 'misalign': m, 'misalign_inv': m}
    e = new_obj(ctx, ex, st, cls, 'E', tu=tu, counts=counts)
    ex.store(st, e.ptr, vt, PTR)
    if warm:
        # last_ref_in: consistent; last_ref_out = last_ref_in; last_real_out[k] = last_real_in[k] (consistent)
        fr = {f: e.get(st, 'last_ref_in.' + f) for f in INDEP}
        q = recalc_spec(fr)
        for f in PF:
            e.set(st, 'last_ref_in.' + f, q[f])
            e.set(st, 'last_ref_out.' + f, q[f])
        kv = ivar('$w')
        fam = 'E.last_real_in'
        for p in ('last_real_in', 'last_real_out'):
            b = ex.load(st, e.p(p), PTR)
            st.rw(b.r).log = (('map', kv, I0, c, consistent_cells(fam, kv)),)
        b = ex.load(st, e.p('transfer'), PTR)
        Tm = T_opaque(fr, {f: relem(fam, kv, PO[f]) for f in INDEP})
        st.rw(b.r).log = (('map', kv, I0, c, {24 + 8 * (7 * r + cc): (8, Tm[r][cc]) for r in range(7) for cc in range(7)}),)
    return e, c


def make_recompute_hook(ctx, P, S, e, can_throw):
    """contract of recompute_matrix at its call in advance"""
    def h(ex, st, a, n):
        i = ivar('irq')
        pc = st.pc + [ile(I0, i), ilt(i, S.n)]
        s = st.clone()
        s.pc = list(pc)
        # requires: consistent state, caches sized to the number of charge states, last_*_in = the state
        q = recalc_spec(S.ref(st, INDEP))
        P.eqs('requires(recompute_matrix): reference consistent', st.pc, [(f, S.o.get(st, 'ref.' + f), q[f]) for f in PF])
        q = recalc_spec(S.real(s, i, INDEP))
        P.eqs('requires(recompute_matrix): charge states consistent', pc, [(f, S.o.velem(s, 'real', i, PO[f]), q[f]) for f in PF])
        for p, w in (('last_real_in', 96), ('transfer', 416), ('misalign', 416), ('misalign_inv', 416)):
            P.eq('requires(recompute_matrix): |%s| = number of charge states' % p, st.pc, e.vsize(st, p, w), S.n)
        P.eqs('requires(recompute_matrix): last_ref_in is the input', st.pc,
              [(f, e.get(st, 'last_ref_in.' + f), S.o.get(st, 'ref.' + f)) for f in INDEP])
        P.eqs('requires(recompute_matrix): last_real_in is the input', pc,
              [(f, e.velem(s, 'last_real_in', i, PO[f]), S.o.velem(s, 'real', i, PO[f])) for f in INDEP])
        s2 = None
        if can_throw:
            s2 = st.clone()
        # ensures: transfer[k] = T(ref, real[k]); everything else of the state unchanged; misalign, scratch arbitrary
        kv = ivar(fresh('$t'))
        b = ex.load(st, e.p('transfer'), PTR)
        reg = st.rw(b.r)
        s3 = st.clone()
        s3.pc = st.pc + [ile(I0, kv), ilt(kv, S.n)]
        Tm = T_opaque(S.ref(st, INDEP), S.real(s3, kv, INDEP))
        reg = st.rw(b.r)
        reg.log = (('map', kv, I0, S.n, {24 + 8 * (7 * r + c): (8, Tm[r][c]) for r in range(7) for c in range(7)}),)
        for p in ('misalign', 'misalign_inv'):
            b = ex.load(st, e.p(p), PTR)
            reg = st.rw(b.r)
            reg.log = ()
            reg.base = 'sym'
            reg.fam = fresh(p)
        st.trace.append(('recompute',))
        if s2 is not None:
            s2.trace.append(('recompute-throw',))
            return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])
        return None
    return h


def h_rms(ex, st, a, n):
    st.trace.append(('rms', st.clone()))


def advance_task(ctx, cls, mcls, warm, tu='moment', sbend=False):
    """cls: record name, mcls: mangled class name (for the vtable)"""
    label = '%s::advance (%s cache)' % (cls.split('::')[-1], 'valid' if warm else 'empty')

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n'}
        S = MState(ctx, ex, st, n, tu=tu)
        vt = vtable_ptr(ctx, ex, st, mcls, tu)
        e, c = setup_element(ctx, ex, st, cls, vt, warm, n, tu)
        base_n = len(rec.obls)
        # virtual targets
        adv = vslot(ctx, ex, st, vt, r'.*::advance\(StateBase&\)')
        rcm = vslot(ctx, ex, st, vt, r'.*::recompute_matrix\(MomentState&\)')
        C = {rcm: make_recompute_hook(ctx, P, S, e, True), ctx.sym('MomentState::calc_rms()'): h_rms, CT.INV: CT.h_inverse, RECALC: h_recalc}
        ex.contracts.update(C)
        s0 = st.clone()
        outs = ex.call(st, adv, [e.ptr, S.ptr], ctx.prog.mods[tu])
        rec.functions.extend([adv] + [f for f in ex.stats['functions'] if not build.is_library(f)])
        i = ivar('i')
        L = e.get(s0, 'length')
        rets = 0
        for o in outs:
            s1 = o.state
            pc = s1.pc + [ile(I0, i), ilt(i, n)]
            if not feasible(pc):
                continue
            sI = s1.clone()
            sI.pc = list(pc)
            sZ = s0.clone()
            sZ.pc = list(pc)
            tags = [t[0] for t in s1.trace if t[0] != 'inverse' and t[0] != 'loop']
            if o.kind == 'throw':
                # exception safety: nothing is left in the cache which a later call could reuse
                P.holds('on exception: cached input is forgotten', s1.pc, ieq(e.vsize(s1, 'last_real_in', 96), I0))
                continue
            if o.kind != 'ret':
                P.unknown('termination', o.kind)
                continue
            rets += 1
            ref0, real0 = S.ref(s0, INDEP), S.real(sZ, i, INDEP)
            qr, qi = recalc_spec(ref0), recalc_spec(real0)
            back = ex.tobool(S.o.get(s0, 'retreat', ('i', 8)))
            dback = ex.decide(sI, back)
            if dback is None:
                P.unknown('direction', 'path does not decide the direction of propagation')
                continue
            sg = -1.0 if dback else 1.0
            Tm = T_opaque(ref0, real0)
            if dback:
                Tm = CT.inv_opaque(Tm)
            d = 'backward' if dback else 'forward'
            m0, m1 = S.m0(sZ, i), S.mat(sZ, 'moment1', i)
            w0, w1 = mv(Tm, m0), chain(Tm, m1, tr(Tm))
            ph = {}
            for k, q in (('ref', qr), ('real', qi)):
                ph[k] = q['phis'] + sg * q['SampleIonK'] * L * MtoMM
            if sbend:
                ph['real'] = ph['real'] + (w0[4] - m0[4])
            P.eq(d + ': path length advances by the element length', pc, S.o.get(s1, 'pos'), S.o.get(s0, 'pos') + sg * L)
            P.eqs(d + ': reference', pc, [(f, S.o.get(s1, 'ref.' + f), ph['ref'] if f == 'phis' else qr[f]) for f in PF])
            P.eqs(d + ': charge state', pc, [(f, S.o.velem(sI, 'real', i, PO[f]), ph['real'] if f == 'phis' else qi[f]) for f in PF])
            P.eqs(d + ': centroid = T m0', pc, [('[%d]' % r, g, w) for r, (g, w) in enumerate(zip(S.m0(sI, i), w0))])
            g1 = S.mat(sI, 'moment1', i)
            P.eqs(d + ': covariance = T M T^t', pc, [('[%d,%d]' % (r, k), g1[r][k], w1[r][k]) for r in range(7) for k in range(7)])
            gt_ = S.mat(sI, 'transmat', i)
            P.eqs(d + ': reported transfer matrix', pc, [('[%d,%d]' % (r, k), gt_[r][k], Tm[r][k]) for r in range(7) for k in range(7)])
            for p, v in S.sizes(s1).items():
                P.eq(d + ': number of charge states (%s)' % p, s1.pc, v, n)
            # rms recomputed last, from the final values
            rms = [t for t in s1.trace if t[0] == 'rms']
            if not rms:
                P.fact(d + ': statistics updated', False, 'calc_rms() not called')
            else:
                sn = rms[-1][1]
                sn.pc = list(pc)
                pairs = [('IonQ', S.o.velem(sn, 'real', i, 8), S.o.velem(sI, 'real', i, 8))]
                pairs += [('m0[%d]' % r, a, b) for r, (a, b) in enumerate(zip(S.m0(sn, i), S.m0(sI, i)))]
                x, y = S.mat(sn, 'moment1', i), S.mat(sI, 'moment1', i)
                pairs += [('m1[%d,%d]' % (r, k), x[r][k], y[r][k]) for r in range(7) for k in range(7)]
                P.eqs(d + ': statistics computed from the final moments', pc, pairs)
            # cache invariant re-established
            for p, w in (('last_real_in', 96), ('last_real_out', 96), ('transfer', 416), ('misalign', 416), ('misalign_inv', 416)):
                P.eq(d + ': cache |%s|' % p, s1.pc, e.vsize(s1, p, w), n)
            P.eqs(d + ': cache last_ref_in', pc, [(f, e.get(s1, 'last_ref_in.' + f), qr[f]) for f in INDEP])
            P.eqs(d + ': cache last_ref_out', pc, [(f, e.get(s1, 'last_ref_out.' + f), qr[f]) for f in PF])
            P.eqs(d + ': cache last_real_in', pc, [(f, e.velem(sI, 'last_real_in', i, PO[f]), qi[f]) for f in INDEP])
            P.eqs(d + ': cache last_real_out', pc, [(f, e.velem(sI, 'last_real_out', i, PO[f]), qi[f]) for f in PF])
            Tc = T_opaque(ref0, real0)
            P.eqs(d + ': cache transfer', pc, [('[%d,%d]' % (r, k), e.velem(sI, 'transfer', i, 24 + 8 * (7 * r + k)), Tc[r][k]) for r in range(7) for k in range(7)])
            # frame
            al = [(e.off(p), e.off(p) + w) for p, w in (('last_ref_in', 96), ('last_ref_out', 96), ('last_real_in', 24), ('last_real_out', 24),
                                                         ('transfer', 24), ('misalign', 24), ('misalign_inv', 24), ('scratch', 416))]
            frame_unchanged(P, d + ': element configuration unchanged', ex, s0, s1, e.reg.id, al)
            al = [(S.o.off('ref'), S.o.off('ref') + 96), (S.o.off('pos'), S.o.off('pos') + 8)] + \
                 [(S.o.off(p), S.o.off(p) + 24) for p in ('real', 'moment0', 'moment1', 'transmat')]
            frame_unchanged(P, d + ': rest of the state unchanged', ex, s0, s1, S.o.reg.id, al)
        P.fact('normal return reachable', rets > 0)
    return Task(label, run)


def vslot(ctx, ex, st, vt, rx):
    """the function in the vtable vt whose demangled name matches rx -> qualified mangled name"""
    reg = st.mem[vt.r]
    r = re.compile(rx)
    for k, c in sorted((k, c) for k, c in reg.cells.items() if isinstance(k, int)):
        v = c[1]
        if isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith('fn:'):
            n = v.r[3:]
            if r.fullmatch(ctx.lib.dm.get(n.split(':')[-1], n)):
                return n
    raise Unknown("no virtual function " + rx)


CLASSES = [('MomentElementBase', '17MomentElementBase'),
           ('(anonymous namespace)::ElementSBend', 'N12_GLOBAL__N_112ElementSBendE')]


def tasks(ctx):
    out = []
    for warm in (False, True):
        out.append(advance_task(ctx, 'MomentElementBase', '17MomentElementBase', warm))
        out.append(advance_task(ctx, '(anonymous namespace)::ElementSBend', 'N12_GLOBAL__N_112ElementSBendE', warm, sbend=True))
    return out
