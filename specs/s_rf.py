"""RF cavity: advance() of the element - transport of every charge state, caching, going backward - over the contract of
recompute_matrix (energy gain, phases, matrices), and recompute_matrix over the contracts of the field integration and of the
matrix construction."""
from verify import *
import ir
import optics as O
from s_base import run_to
from loopcut import RCut
from s_advance import vslot, h_rms, T_opaque, consistent_cells, NM

TU = 'rf_cavity'
TUS = ['rf_cavity', 'moment', 'moment_sup', 'base']
CLS = 'ElementRFCavity'
MC = '15ElementRFCavity'
ADDR = 24


def vals(d):
    return [d[f] for f in INDEP]


def ref_after(ref):
    """ghost: reference particle behind the cavity (a function of the configuration and of the incoming reference)"""
    q = dict(ref)
    for f in ('IonEk', 'phis'):
        q[f] = fn('cavref_' + f, *vals(ref))
    return q


def real_after(ref, real):
    q = dict(real)
    for f in ('IonEk', 'phis'):
        q[f] = fn('cavreal_' + f, *(vals(ref) + vals(real)))
    return q


def phi_of(ref):
    return fn('cavphi', *vals(ref))


def tcells(Tm, skip=()):
    return {24 + 8 * (7 * r + c): (8, Tm[r][c]) for r in range(7) for c in range(7) if (r, c) not in skip}


X46 = ((4, 6), (5, 6))


def frames_of(e, st, ref, real):
    """entrance and exit frame of a cavity for this charge state: wave number at the entrance, velocity at the exit"""
    i, o = recalc_spec(real), recalc_spec(real_after(ref, real))
    a = [e.get(st, q) for q in ('dx', 'dy', 'pitch', 'yaw', 'roll', 'length')] + [i['SampleIonK'], o['beta'], o['gamma'], ref['IonEs']]
    return CT.mis_opaque(a)


def frames_exit(e, st, ref, real):
    o = recalc_spec(real_after(ref, real))
    a = [e.get(st, q) for q in ('dx', 'dy', 'pitch', 'yaw', 'roll', 'length')] + [o['SampleIonK'], o['beta'], o['gamma'], ref['IonEs']]
    return CT.mis_opaque(a)


def setup(ctx, ex, st, vt, warm):
    c = ivar('c')
    ex.nonneg = ex.nonneg | {'c', 'n', 'mT'}
    if warm:
        st.assume(ile(I1, c))
        counts = {p: c for p in NM}
    else:
        c = I0
        m = ivar('mT')
        st.assume(ile(I0, m))
        counts = {'last_real_in': I0, 'last_real_out': I0, 'transfer': m, 'misalign': m, 'misalign_inv': m}
    ex.nonneg = ex.nonneg | {'nSyn'}
    e = new_obj(ctx, ex, st, CLS, 'E', tu=TU, counts=dict(counts, SynAccTab=ivar('nSyn')))
    ex.store(st, e.ptr, vt, PTR)
    for q in range(3):    # class invariant: scratch is 7x7
        ex.store(st, Ptr(e.reg.id, ic(e.off('scratch') + 8 * q)), ic(49 if q == 2 else 7), ('i', 64))
    if warm:
        fr = {f: e.get(st, 'last_ref_in.' + f) for f in INDEP}
        q, qo = recalc_spec(fr), recalc_spec(ref_after(fr))
        for f in PF:
            e.set(st, 'last_ref_in.' + f, q[f])
            e.set(st, 'last_ref_out.' + f, qo[f])
        kv = ivar('$w')
        fam = 'E.last_real_in'
        rl = {f: relem(fam, kv, PO[f]) for f in INDEP}
        put = lambda p, cells: setattr(st.rw(ex.load(st, e.p(p), PTR).r), 'log', (('map', kv, I0, c, cells),))
        put('last_real_in', consistent_cells(fam, kv))
        ro = recalc_spec(real_after(fr, rl))
        put('last_real_out', {PO[f]: (8, ro[f]) for f in PF})
        put('transfer', tcells(T_opaque(fr, rl), X46))
        M, IM = frames_of(e, st, fr, rl)
        put('misalign', tcells(M))
        put('misalign_inv', tcells(IM))
        e.set(st, 'phi_ref', phi_of(fr))
    return e, c


def h_recompute(P, S, e):
    def h(ex, st, a, n):
        i = ivar('irq')
        pc = st.pc + [ile(I0, i), ilt(i, S.n)]
        s = st.clone()
        s.pc = list(pc)
        q = recalc_spec(S.ref(st, INDEP))
        P.eqs('requires(recompute_matrix): reference consistent', st.pc, [(f, S.o.get(st, 'ref.' + f), q[f]) for f in PF])
        q = recalc_spec(S.real(s, i, INDEP))
        P.eqs('requires(recompute_matrix): charge states consistent', pc, [(f, S.o.velem(s, 'real', i, PO[f]), q[f]) for f in PF])
        for p, w in (('last_real_in', 96), ('transfer', 416), ('misalign', 416), ('misalign_inv', 416)):
            P.eq('requires(recompute_matrix): |%s| = number of charge states' % p, st.pc, e.vsize(st, p, w), S.n)
        s2 = st.clone()
        ref = S.ref(st, INDEP)
        kv = ivar(fresh('$t'))
        s3 = st.clone()
        s3.pc = st.pc + [ile(I0, kv), ilt(kv, S.n)]
        rl = S.real(s3, kv, INDEP)
        st.rw(ex.load(st, e.p('transfer'), PTR).r).log = (('map', kv, I0, S.n, tcells(T_opaque(ref, rl))),)
        qi, qo = recalc_spec(rl), recalc_spec(real_after(ref, rl))
        rb = ex.load(st, S.o.p('real'), PTR)
        st.rw(rb.r).log = st.mem[rb.r].log + (('map', kv, I0, S.n, {PO[f]: (8, qi[f] if f == 'SampleIonK' else qo[f]) for f in PF}),)
        qo = recalc_spec(ref_after(ref))
        for f in PF:
            S.o.set(st, 'ref.' + f, qo[f])
        e.set(st, 'phi_ref', phi_of(ref))
        st.trace.append(('recompute',))
        s2.trace.append(('recompute-throw',))
        return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])
    return h


def growth(i, j, args):
    return fn('growth%d%d' % (i, j), *args)


def h_growth(ex, st, a, n):
    this, pin, pst, idx, *rest, pout = a
    m = CT.rdmat(ex, st, pin)
    args = [i2r(idx)] + [m[r][c] for r in range(7) for c in range(7)] + [ex.load(st, CT.at(pst, PO[f]), ('d',)) for f in PF] + list(rest)
    CT.wrmat(ex, st, pout, [[growth(i, j, args) for j in range(7)] for i in range(7)])


BKEYS = [f for f in INDEP if f != 'phis']


def biff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


def h_check_backward(S, e):
    """true: same number of charge states, and reference and every charge state agree with those that left the cavity in every
    independent value except the phase (made known to the prover by writing these equal values)"""
    def h(ex, st, a, n):
        s2 = st.clone()
        m = e.vsize(st, 'last_real_out', 96)
        s2.trace.append(('mismatch',))
        if not feasible(st.pc + [ieq(m, S.n)]):
            return Fork([(s2, FALSE)])
        st.assume(ieq(m, S.n))
        for f in BKEYS:
            st.assume(req(S.o.get(st, 'ref.' + f), e.get(st, 'last_ref_out.' + f)))
            S.o.set(st, 'ref.' + f, e.get(st, 'last_ref_out.' + f))
        kv = ivar(fresh('$b'))
        s3 = st.clone()
        s3.pc = st.pc + [ile(I0, kv), ilt(kv, S.n)]
        rb = ex.load(st, S.o.p('real'), PTR)
        cells = {PO[f]: (8, e.velem(s3, 'last_real_out', kv, PO[f])) for f in BKEYS}
        st.assume(ball(kv, I0, S.n, AND([req(S.o.velem(s3, 'real', kv, PO[f]), cells[PO[f]][1]) for f in BKEYS])))
        st.rw(rb.r).log = st.mem[rb.r].log + (('map', kv, I0, S.n, cells),)
        st.trace.append(('match',))
        return Fork([(st, TRUE), (s2, FALSE)])
    return h


def check_task(ctx, name, which, keys, skip):
    """check_cache / check_backward: true exactly if (results may be cached,) there are as many charge states as in the last
    result and the reference and every charge state agree with it in the independent values `keys`"""
    label = 'MomentElementBase::' + name
    REF, REAL = 'last_ref_%s.' % which, 'last_real_' + which

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        n, c = ivar('n'), ivar('c')
        ex.nonneg = ex.nonneg | {'n', 'c', 'k'}
        st.assume(ile(I0, n))
        st.assume(ile(I0, c))
        S = MState(ctx, ex, st, n, tu='moment')
        e = new_obj(ctx, ex, st, 'MomentElementBase', 'E', tu='moment', counts={p: c for p in NM})
        mod = ctx.prog.mods['moment']
        f = ctx.find(r'MomentElementBase::%s\(MomentState const&\) const' % name, 'moment')
        rec.functions.append(f)
        fn_ = ctx.prog.find(f, mod)
        if len(fn_.loops) != 1:
            raise Unknown("expected one loop over the charge states")
        h, = fn_.loops
        sZ = st.clone()
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, S.ptr])
        eqp = lambda s, k: AND([req(e.velem(s, REAL, k, PO[f]), S.o.velem(s, 'real', k, PO[f])) for f in keys])
        refeq = AND([req(e.get(sZ, REF + f), S.o.get(sZ, 'ref.' + f)) for f in keys])
        if skip:
            refeq = band(refeq, bnot(ex.tobool(e.get(sZ, 'skipcache', ('i', 8)))))
        seen = set()
        for o in run_to(ex, st, base, {h}):
            s = o.state
            if not feasible(s.pc):
                continue
            if o.kind == 'stop' and o.info[1] == h:
                cu = RCut(ex, s, base, fn_, h)
                acc = [l for l, v in cu.real.items()]
                if len(acc) > 1 or acc and cu.real[acc[0]].sort != 'B':
                    raise Unknown("loop state")
                A = cu.real[acc[0]] if acc else TRUE
                P.holds('entry: same number of charge states', s.pc, ieq(n, c))
                P.holds('entry: reference compared', s.pc, biff(cu.val(s, acc[0]), refeq) if acc else refeq)
                k = ivar('k')
                sk = cu.at(k)
                sk.assume(ile(I0, k))
                sk.assume(ile(k, n))
                for o2 in cu.run(sk):
                    s2 = o2.state
                    if not feasible(s2.pc):
                        continue
                    z = sZ.clone()
                    z.pc = list(s2.pc)
                    kind = o2.info[0] if o2.kind == 'stop' else o2.kind
                    if kind == 'back':
                        seen.add('back')
                        P.holds('step: one more charge state', s2.pc, ilt(k, n))
                        A2 = cu.val(s2, acc[0]) if acc else TRUE
                        P.holds('step: result so far', s2.pc, biff(A2, band(A, eqp(z, k))))
                        continue
                    if kind == 'exit':
                        s2.frames[-1].loops = {}
                        outs = [x for x in ex.run([s2], base) if feasible(x.state.pc)]
                    else:
                        outs = [o2]
                    for o3 in outs:
                        if (o3.info[0] if o3.kind == 'stop' else o3.kind) != 'ret':
                            raise Unknown("control flow")
                        seen.add('ret')
                        v = ex.tobool(o3.value)
                        pc = o3.state.pc
                        if entails(pc, ile(n, k)):
                            P.holds('result: all agree', pc, biff(v, A))
                        else:
                            P.holds('early result', pc, band(bnot(v), bor(bnot(A), bnot(eqp(z, k)))))
            else:
                if (o.info[0] if o.kind == 'stop' else o.kind) != 'ret':
                    raise Unknown("control flow")
                seen.add('no')
                v = ex.tobool(o.value)
                P.holds('refused only without cache, for another number of charge states or another reference', s.pc, band(bnot(v), bor(bnot(ieq(n, c)), bnot(refeq))))
        P.fact('steps and results reachable', {'back', 'ret', 'no'} <= seen, repr(seen))
    return Task(label, run)


def h_check_cache(S, e):
    """true: as many charge states, and reference and every charge state agree in every independent value with the input of the
    last pass (made known to the prover by writing these equal values); false: nothing is known"""
    def h(ex, st, a, n):
        s2 = st.clone()
        m = e.vsize(st, 'last_real_in', 96)
        s2.trace.append(('cache', False))
        if not feasible(st.pc + [ieq(m, S.n)]):
            return Fork([(s2, FALSE)])
        st.assume(ieq(m, S.n))
        for f in INDEP:
            v = e.get(st, 'last_ref_in.' + f)
            st.assume(req(S.o.get(st, 'ref.' + f), v))
            S.o.set(st, 'ref.' + f, v)
        kv = ivar(fresh('$h'))
        s3 = st.clone()
        s3.pc = st.pc + [ile(I0, kv), ilt(kv, S.n)]
        rb = ex.load(st, S.o.p('real'), PTR)
        cells = {PO[f]: (8, e.velem(s3, 'last_real_in', kv, PO[f])) for f in INDEP}
        st.assume(ball(kv, I0, S.n, AND([req(S.o.velem(s3, 'real', kv, PO[f]), cells[PO[f]][1]) for f in INDEP])))
        st.rw(rb.r).log = st.mem[rb.r].log + (('map', kv, I0, S.n, cells),)
        st.trace.append(('cache', True))
        return Fork([(st, TRUE), (s2, FALSE)])
    return h


def AND(xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def emat(e, st, path, i):
    return [[e.velem(st, path, i, 24 + 8 * (7 * r + k)) for k in range(7)] for r in range(7)]


def meq(P, name, pc, G, W):
    P.eqs(name, pc, [('[%d,%d]' % (r, k), G[r][k], R(W[r][k])) for r in range(len(G)) for k in range(len(G[0]))])


def h_get_str_or(ex, st, a, n):
    """string parameter or its default: one value"""
    c, k = CT.confname(st, a[0]), CT.keyname(LIB.strval(st, a[1]))
    r = ex.alloc(st, 'confstr')
    r.cells[('g', 0)] = ('sym', '%s[%s]|default' % (c, k))
    return Ptr(r.id, I0)


def innermost(fn_, rx):
    r = re.compile(rx)
    hs = [h for h, b in fn_.loops.items() if any(r.search(str(i.a[0])) for x in b for i in fn_.blocks[x].instrs if i.op in ('call', 'invoke'))]
    hs.sort(key=lambda h: len(fn_.loops[h]))
    if not hs:
        raise Unknown("loop over the charge states not found")
    return hs[0]


def kd(o):
    return o.info[0] if o.kind == 'stop' else o.kind


class Adv:
    """one case of ElementRFCavity::advance: state, element, pre-state"""


def advance_task(ctx, warm, back, grow):
    label = 'ElementRFCavity::advance (%s cache, %s%s)' % ('valid' if warm else 'empty', 'backward' if back else 'forward',
                                                          '' if grow is None else ', growth ' + ('on' if grow else 'off'))

    def run(rec):
        terms.nfcut(60)
        P = Prover(rec, label)
        C = CT.config_contracts(ctx)
        C[RECALC] = h_recalc
        ex = ctx.executor(C)
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n', 'k'}
        S = MState(ctx, ex, st, n, tu=TU)
        vt = vtable_ptr(ctx, ex, st, MC, TU)
        e, c = setup(ctx, ex, st, vt, warm)
        adv = vslot(ctx, ex, st, vt, r'.*::advance\(StateBase&\)')
        rcm = vslot(ctx, ex, st, vt, r'.*::recompute_matrix\(MomentState&\)')
        off = CT.offsets_for(ctx)
        short = lambda rx, tu=TU: ctx.find(rx, tu).split(':')[-1]
        gr = short(r'ElementRFCavity::calRFcaviEmitGrowth\(.*')
        ex.contracts.update({rcm: h_recompute(P, S, e), ctx.sym('MomentState::calc_rms()'): h_rms, CT.INV: CT.h_inverse,
                             short(r'MomentElementBase::get_misalign\(.*\) const', 'moment'): CT.make_h_misalign(off),
                             gr: h_growth,
                             short(r'MomentElementBase::check_cache\(.*\) const', 'moment'): h_check_cache(S, e),
                             short(r'MomentElementBase::check_backward\(.*\) const', 'moment'): h_check_backward(S, e)})
        for k in list(ex.contracts):
            if ex.contracts[k] is CT.h_get_string_def:
                ex.contracts[k] = h_get_str_or
        # class invariant (constructor, assign): cavity type and data file are those of the configuration
        cf = 'E.p_conf'
        LIB.gset(st, e.p('CavType'), ('sym', cf + '[cavtype]'))
        LIB.gset(st, e.p('DataFile'), ('cat', ('sym', cf + '[Eng_Data_Dir]|default'), ('cat', ('lit', '/'), ('sym', cf + '[datafile]'))))
        st.assume(CT.has(cf, 'cavtype', 'string'))
        st.assume(CT.has(cf, 'datafile', 'string'))
        rt = ex.tobool(S.o.get(st, 'retreat', ('i', 8)))
        st.assume(rt if back else bnot(rt))
        if grow is not None:
            e.set(st, 'EmitGrowth', ic(1 if grow else 0), ('i', 32))
        mod = ctx.prog.mods[TU]
        fn_ = ctx.prog.find(adv, mod)
        H = innermost(fn_, re.escape(CT.INV) if back else re.escape(gr))
        A = Adv()
        A.P, A.ex, A.S, A.e, A.n, A.grow, A.warm, A.c, A.ctx = P, ex, S, e, n, grow, warm, c, ctx
        A.z = st.clone()
        A.own = {ex.load(st, S.o.p(p), PTR).r for p in ('moment0', 'moment1', 'transmat')}
        A.L = e.get(st, 'length')
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, S.ptr])
        starts, throws = [], 0
        for o in run_to(ex, st, base, {H}):
            s = o.state
            if not feasible(s.pc):
                continue
            if kd(o) == 'throw':
                throws += 1
                if back:
                    bad_back(P, ex, e, S, A.z, s, n, c, warm)
                else:
                    P.holds('on exception: cached input is forgotten', s.pc, ieq(e.vsize(s, 'last_real_in', 96), I0))
                    P.holds('on exception: going backward is refused afterwards', s.pc, ieq(e.vsize(s, 'last_real_out', 96), I0))
            elif o.kind == 'stop' and o.info[1] == H:
                starts.append(s)
            elif kd(o) == 'ret':
                P.holds('every charge state is transported', s.pc, FALSE)
            else:
                raise Unknown("control flow: %s" % (o.info,))
        if back and not warm:
            P.fact('backward without an earlier forward pass is refused', throws > 0 and not starts)
            rec.functions.extend([adv])
            return
        def in_range(s, hv):
            for v in hv.values():
                if isinstance(v, T) and v.sort == 'I':
                    s.assume(ile(I0, v))
                    s.assume(ilt(v, n))
        P.fact('transport and errors reachable', bool(starts) and throws > 0)
        for s0 in starts:
            (entry_back if back else entry_fwd)(A, s0)
            cu = RCut(ex, s0, base, fn_, H, pre=in_range)
            own = A.own | ({ex.load(s0, e.p('transfer'), PTR).r} if not back else set())
            if cu.arr or not set(cu.own) <= own:
                raise Unknown("the loop writes %r" % ([s0.mem[r].name for r in cu.own],))
            k = ivar('k')
            s = cu.at(k)
            s.assume(ile(I0, k))
            s.assume(ile(k, n))
            steps = 0
            for o in cu.run(s):
                s1 = o.state
                if not feasible(s1.pc):
                    continue
                if kd(o) == 'back':
                    steps += 1
                    P.holds('only existing charge states', s1.pc, ilt(k, n))
                    (step_back if back else step_fwd)(A, s0, s1, k)
                elif kd(o) in ('exit', 'ret'):
                    P.holds('all charge states are transported', s1.pc, ieq(k, n))
                else:
                    P.fact('no other outcome', False, repr((o.kind, o.info)))
            P.fact('a charge state is transported', steps > 0)
            # behind the loop: arbitrary values in what the loop wrote
            s = cu.at(n)
            for rid in cu.own:
                reg = s.rw(rid)
                reg.log, reg.base = (), 'sym'
                reg.fam = fresh('post.' + reg.name)
            sp = s.clone()
            fin = 0
            for o in cu.run(s):
                outs = [o]
                if kd(o) == 'exit':
                    o.state.frames[-1].loops = {}
                    outs = ex.run([o.state], base)
                elif kd(o) == 'back':
                    if feasible(o.state.pc):
                        P.fact('the loop ends', False)
                    continue
                for o2 in outs:
                    if not feasible(o2.state.pc):
                        continue
                    if o2.kind != 'ret' and kd(o2) != 'ret':
                        P.fact('no exception behind the transport', False, repr((o2.kind, o2.info)))
                        continue
                    fin += 1
                    final(A, s0, sp, o2.state, back)
            P.fact('normal return reachable', fin > 0)
        rec.functions.extend([adv] + [f for f in ex.stats['functions'] if not build.is_library(f)])
    return Task(label, run, cost=10)


def deg(x):
    return fn('fmod', x * 180.0 / PI, R(360.0))


def final(A, s0, sp, s1, back):
    """s0: at the entry of the loop, sp: at its exit, s1: return"""
    P, S, e, n = A.P, A.S, A.e, A.n
    i = ivar('i')
    pc = s1.pc + [ile(I0, i), ilt(i, n)]
    I = lambda s: at_pc(s, pc)
    ref0 = {f: e.get(A.z, 'last_ref_in.' + f) for f in INDEP} if back else S.ref(A.z, INDEP)
    P.eq('driven phase reported', pc, S.o.get(s1, 'last_caviphi0'), deg(phi_of(ref0)))
    for p, v in S.sizes(s1).items():
        P.eq('number of charge states (%s)' % p, s1.pc, v, n)
    a, b = I(sp), I(s1)
    meq(P, 'covariances final behind the loop', pc, S.mat(b, 'moment1', i), S.mat(a, 'moment1', i))
    meq(P, 'matrices final behind the loop', pc, S.mat(b, 'transmat', i), S.mat(a, 'transmat', i))
    P.eqs('centroids final behind the loop', pc, [('[%d]' % r, g, w) for r, (g, w) in enumerate(zip(S.m0(b, i), S.m0(a, i)))])
    a = I(s0)
    P.eqs('particles final', pc, [(f, S.o.velem(b, 'real', i, PO[f]), S.o.velem(a, 'real', i, PO[f])) for f in PF] +
          [('ref.' + f, S.o.get(s1, 'ref.' + f), S.o.get(s0, 'ref.' + f)) for f in PF] + [('pos', S.o.get(s1, 'pos'), S.o.get(s0, 'pos'))])
    for p in ('last_real_in', 'last_real_out'):
        P.eqs('cache %s final' % p, pc, [(f, e.velem(b, p, i, PO[f]), e.velem(a, p, i, PO[f])) for f in PF])
    for p in ('misalign', 'misalign_inv') + (('transfer',) if back else ()):
        meq(P, 'cache %s final' % p, pc, emat(e, b, p, i), emat(e, a, p, i))
    if not back:
        meq(P, 'cache transfer final', pc, emat(e, b, 'transfer', i), emat(e, I(sp), 'transfer', i))
    for q in ('last_ref_in.', 'last_ref_out.'):
        P.eqs('cache %s final' % q, pc, [(f, e.get(s1, q + f), e.get(s0, q + f)) for f in PF])
    P.eq('cache phi_ref final', pc, e.get(s1, 'phi_ref'), e.get(s0, 'phi_ref'))
    for p, w in (('last_real_in', 96), ('last_real_out', 96), ('transfer', 416), ('misalign', 416), ('misalign_inv', 416)):
        P.eq('cache |%s|' % p, s1.pc, e.vsize(s1, p, w), n)
    rms = [t for t in s1.trace if t[0] == 'rms']
    if not rms:
        P.fact('statistics updated', False, 'calc_rms() not called')
    else:
        sn = I(rms[-1][1])
        pairs = [('IonQ', S.o.velem(sn, 'real', i, 8), S.o.velem(b, 'real', i, 8))]
        pairs += [('m0[%d]' % r, x, y) for r, (x, y) in enumerate(zip(S.m0(sn, i), S.m0(b, i)))]
        x, y = S.mat(sn, 'moment1', i), S.mat(b, 'moment1', i)
        pairs += [('m1[%d,%d]' % (r, k), x[r][k], y[r][k]) for r in range(7) for k in range(7)]
        P.eqs('statistics computed from the final moments', pc, pairs)
    al = [(e.off(p), e.off(p) + w) for p, w in (('last_ref_in', 96), ('last_ref_out', 96), ('last_real_in', 24), ('last_real_out', 24), ('phi_ref', 8),
                                                 ('transfer', 24), ('misalign', 24), ('misalign_inv', 24), ('scratch', 416), ('CavTLMLineTab', 24))]
    frame_unchanged(P, 'element configuration unchanged', A.ex, A.z, s1, e.reg.id, al)
    al = [(S.o.off('ref'), S.o.off('ref') + 96), (S.o.off('pos'), S.o.off('pos') + 8), (S.o.off('last_caviphi0'), S.o.off('last_caviphi0') + 8)] + \
         [(S.o.off(p), S.o.off(p) + 24) for p in ('real', 'moment0', 'moment1', 'transmat')]
    frame_unchanged(P, 'rest of the state unchanged', A.ex, A.z, s1, S.o.reg.id, al)


def at_pc(s, pc):
    s = s.clone()
    s.pc = list(pc)
    return s


def entry_fwd(A, s0):
    P, S, e, n = A.P, A.S, A.e, A.n
    i = ivar('i')
    pc = s0.pc + [ile(I0, i), ilt(i, n)]
    sI, sZ = at_pc(s0, pc), at_pc(A.z, pc)
    ref0, real0 = S.ref(A.z, INDEP), S.real(sZ, i, INDEP)
    qr, qi = recalc_spec(ref_after(ref0)), recalc_spec(real_after(ref0, real0))
    P.eq('path length advances by the element length', pc, S.o.get(s0, 'pos'), S.o.get(A.z, 'pos') + A.L)
    P.eqs('reference', pc, [(f, S.o.get(s0, 'ref.' + f), qr[f]) for f in PF])
    P.eqs('charge state', pc, [(f, S.o.velem(sI, 'real', i, PO[f]), qi[f]) for f in PF])
    T = T_opaque(ref0, real0)
    M, IM = frames_of(e, A.z, ref0, real0)
    for p, w in (('last_real_in', 96), ('last_real_out', 96), ('transfer', 416), ('misalign', 416), ('misalign_inv', 416)):
        P.eq('cache |%s|' % p, s0.pc, e.vsize(s0, p, w), n)
    ri, ii = recalc_spec(ref0), recalc_spec(real0)
    P.eqs('cache last_ref_in', pc, [(f, e.get(s0, 'last_ref_in.' + f), ri[f]) for f in INDEP])
    P.eqs('cache last_ref_out', pc, [(f, e.get(s0, 'last_ref_out.' + f), qr[f]) for f in PF])
    P.eqs('cache last_real_in', pc, [(f, e.velem(sI, 'last_real_in', i, PO[f]), ii[f]) for f in INDEP])
    P.eqs('cache last_real_out', pc, [(f, e.velem(sI, 'last_real_out', i, PO[f]), qi[f]) for f in PF])
    G = emat(e, sI, 'transfer', i)
    for r, c in X46:
        T[r][c] = G[r][c]
    meq(P, 'transfer matrix of this input', pc, G, T)
    meq(P, 'cache misalign', pc, emat(e, sI, 'misalign', i), M)
    meq(P, 'cache misalign_inv', pc, emat(e, sI, 'misalign_inv', i), IM)
    P.eq('cache phi_ref', pc, e.get(s0, 'phi_ref'), phi_of(ref0))


def step_fwd(A, s0, s1, k):
    """charge state k; the values at the entry of the loop (s0) are those established by entry_fwd"""
    P, S, e, n = A.P, A.S, A.e, A.n
    pc = s1.pc
    sI, sZ, sE = at_pc(s1, pc), at_pc(A.z, pc), at_pc(s0, pc)
    T = emat(e, sE, 'transfer', k)
    T[4][6] = T[5][6] = R0
    M, IM = emat(e, sE, 'misalign', k), emat(e, sE, 'misalign_inv', k)
    qr = {f: S.o.get(s0, 'ref.' + f) for f in PF}
    qi = {f: S.o.velem(sE, 'real', k, PO[f]) for f in PF}
    m0, m1 = S.m0(sZ, k), S.mat(sZ, 'moment1', k)
    a0 = mv(M, m0)
    b0 = mv(T, a0)
    X = [list(r) for r in T]
    new = (qi['phis'] - qr['phis'], (qi['IonEk'] - qr['IonEk']) / MeVtoeV)
    X[4][6], X[5][6] = new[0] - b0[4], new[1] - b0[5]
    c0 = b0[:4] + [new[0], new[1]] + b0[6:]
    P.eqs('centroid: transported in the cavity frame, phase and energy are the differences from the reference', pc,
          [('[%d]' % r, g, w) for r, (g, w) in enumerate(zip(S.m0(sI, k), mv(IM, c0)))])
    a1 = chain(M, m1, tr(M))
    b1 = mm(mm(X, a1), tr(X))
    if A.grow:
        args = [i2r(k)] + [b1[r][c] for r in range(7) for c in range(7)] + [qr[f] for f in PF] + [qi['beta'], qi['gamma'], m1[0][0], a0[0], m1[2][2], a0[2]]
        b1 = [[growth(r, c, args) for c in range(7)] for r in range(7)]
    meq(P, 'covariance: transported in the cavity frame' + (', with growth' if A.grow else ''), pc, S.mat(sI, 'moment1', k), mm(mm(IM, b1), tr(IM)))
    meq(P, 'reported transfer matrix', pc, S.mat(sI, 'transmat', k), mm(IM, mm(X, M)))
    meq(P, 'cache transfer (with the centroid offsets of this pass)', pc, emat(e, sI, 'transfer', k), X)


def bad_back(P, ex, e, S, s0, s1, n, c, warm):
    """an exception going backward: only if the state is not the one that left the cavity last time, and nothing is changed"""
    P.fact('backward error only if the state is not the one that left the cavity', any(t[0] == 'mismatch' for t in s1.trace))
    al = [(S.o.off('ref'), S.o.off('ref') + 96)]
    frame_unchanged(P, 'backward error leaves the element as it was', ex, s0, s1, e.reg.id, [])
    frame_unchanged(P, 'backward error leaves the state as it was', ex, s0, s1, S.o.reg.id, al)


def entry_back(A, s0):
    P, S, e, n = A.P, A.S, A.e, A.n
    i = ivar('i')
    pc = s0.pc + [ile(I0, i), ilt(i, n)]
    sI, sZ = at_pc(s0, pc), at_pc(A.z, pc)
    ref0, real0 = S.ref(A.z, INDEP), S.real(sZ, i, INDEP)
    # the state is the one that left the cavity (except for phases)
    ref_in = {f: e.get(A.z, 'last_ref_in.' + f) for f in INDEP}
    rl = {f: e.velem(sZ, 'last_real_in', i, PO[f]) for f in INDEP}
    qr, qi = recalc_spec(ref_after(ref_in)), recalc_spec(real_after(ref_in, rl))
    P.fact('backward: only from the state that left the cavity', any(t[0] == 'match' for t in s0.trace))
    P.eq('backward: as many charge states', s0.pc, e.vsize(A.z, 'last_real_in', 96), n)
    wr = dict(ref_in)
    wr['phis'] = ref0['phis'] - (qr['phis'] - ref_in['phis'])
    wi = dict(rl)
    wi['phis'] = real0['phis'] - (qi['phis'] - rl['phis'])
    wr, wi = recalc_spec(wr), recalc_spec(wi)
    P.eq('backward: path length', pc, S.o.get(s0, 'pos'), S.o.get(A.z, 'pos') - A.L)
    P.eqs('backward: reference restored', pc, [(f, S.o.get(s0, 'ref.' + f), wr[f]) for f in PF])
    P.eqs('backward: charge state restored', pc, [(f, S.o.velem(sI, 'real', i, PO[f]), wi[f]) for f in PF])
    for p in ('last_real_in', 'last_real_out'):
        P.eqs('backward: cache %s kept' % p, pc, [(f, e.velem(sI, p, i, PO[f]), e.velem(sZ, p, i, PO[f])) for f in PF])
    for p in ('transfer', 'misalign', 'misalign_inv'):
        meq(P, 'backward: cache %s kept' % p, pc, emat(e, sI, p, i), emat(e, sZ, p, i))
    for q in ('last_ref_in.', 'last_ref_out.'):
        P.eqs('backward: cache kept', pc, [(q + f, e.get(s0, q + f), e.get(A.z, q + f)) for f in PF])


def same_val(pc, a, b):
    a, b = unify_calls(pc, with_eqs(pc, [a, b]))
    return prove_eq(list(pc), a, b)[0] == 'proved'


def step_back(A, s0, s1, k):
    P, S, e, n = A.P, A.S, A.e, A.n
    pc = s1.pc
    sI, sZ = at_pc(s1, pc), at_pc(A.z, pc)
    ref_in = {f: e.get(A.z, 'last_ref_in.' + f) for f in INDEP}
    rl = {f: e.velem(sZ, 'last_real_in', k, PO[f]) for f in INDEP}
    X = emat(e, sZ, 'transfer', k)
    m0, m1 = S.m0(sZ, k), S.mat(sZ, 'moment1', k)
    gt_ = S.mat(sI, 'transmat', k)
    res = None
    for nm, fr in (('forward', frames_of), ('exit', frames_exit)):
        M, IM = fr(e, A.z, ref_in, rl)
        W = CT.inv_opaque(mm(IM, mm(X, M)))
        if all(same_val(pc, gt_[r][c], W[r][c]) for r in (0, 4) for c in (0, 5)):
            res = nm
            break
    if res is None:
        M, IM = frames_of(e, A.z, ref_in, rl)
        W = CT.inv_opaque(mm(IM, mm(X, M)))
    elif res == 'exit':
        P.rec.notes.append(('KF', 'back-misalign'))
    meq(P, 'backward: reported matrix is the inverse of the forward one', pc, gt_, W)
    P.eqs('backward: centroid', pc, [('[%d]' % r, g, w) for r, (g, w) in enumerate(zip(S.m0(sI, k), mv(W, m0)))])
    meq(P, 'backward: covariance', pc, S.mat(sI, 'moment1', k), mm(mm(W, m1), tr(W)))


def roundtrip_lemma(ctx):
    """the matrix kept for going backward maps the centroid in front of the cavity to the one behind it"""
    label = 'lemma: forward matrix with offsets reproduces the centroid'

    def run(rec):
        P = Prover(rec, label)
        T = [[rvar('T%d%d' % (r, c)) for c in range(7)] for r in range(7)]
        for r in range(7):
            T[6][r] = R1 if r == 6 else R0
        T[4][6] = T[5][6] = R0
        a = [rvar('a%d' % r) for r in range(6)] + [R1]
        n4, n5 = rvar('n4'), rvar('n5')
        b = mv(T, a)
        X = [list(r) for r in T]
        X[4][6], X[5][6] = n4 - b[4], n5 - b[5]
        P.eqs('X a = T a with phase and energy replaced', [], [('[%d]' % r, g, w) for r, (g, w) in enumerate(zip(mv(X, a), b[:4] + [n4, n5, R1]))])
    return Task(label, run)


def recompute_task(ctx):
    """recompute_matrix over the contracts of PropagateLongRFCav (reference, driven phase) and InitRFCav (one charge state and its
    matrix as functions of the driven phase and of this charge state)"""
    label = 'ElementRFCavity::recompute_matrix'

    def run(rec):
        P = Prover(rec, label)
        C = CT.config_contracts(ctx)
        ex = ctx.executor(C)
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n', 'k', 'mL'}
        S = MState(ctx, ex, st, n, tu=TU)
        vt = vtable_ptr(ctx, ex, st, MC, TU)
        e = new_obj(ctx, ex, st, CLS, 'E', tu=TU, counts=dict({p: n for p in NM}, SynAccTab=ivar('nSyn')))
        ex.store(st, e.ptr, vt, PTR)
        rcm = vslot(ctx, ex, st, vt, r'.*::recompute_matrix\(MomentState&\)')
        short = lambda rx, tu=TU: ctx.find(rx, tu).split(':')[-1]
        ini = short(r'ElementRFCavity::InitRFCav\(.*')
        SZ = ir.sizeof(ctx.prog.mods[TU].named('%class.CavTLMLineType'))
        ref0 = S.ref(st, INDEP)
        refcons = recalc_spec(ref0)
        for f in PF:    # precondition (advance): derived values consistent
            S.o.set(st, 'ref.' + f, refcons[f])
        kv = ivar('$w')
        rid = ex.load(st, S.o.p('real'), PTR).r
        st.rw(rid).log = (('map', kv, I0, n, consistent_cells('S.real', kv)),)
        sZ = st.clone()

        def h_resize(ex, s, a, nm):
            """std::vector::resize: that many tables"""
            if a[0] != e.p('CavTLMLineTab'):
                raise Unknown("resize of another vector")
            LIB.vec_new(ex, s, a[0], a[1], SZ, {}, name='lines')
            s.trace.append(('resize', a[1]))

        def h_long(ex, s, a, nm):
            this, p, out = a
            if this != e.ptr:
                raise Unknown("another element")
            P.fact('reference is propagated', p == S.o.p('ref'), repr(p))
            P.eqs('requires(PropagateLongRFCav): the incoming reference', s.pc, [(f, S.o.get(s, 'ref.' + f), refcons[f]) for f in PF])
            s2 = s.clone()
            q = recalc_spec(ref_after(ref0))
            for f in PF:
                S.o.set(s, 'ref.' + f, q[f])
            ex.store(s, out, phi_of(ref0), ('d',))
            s.trace.append(('long',))
            return Fork([(s, None), (s2, Throw('_ZTISt13runtime_error'))])

        def one(phi, d):
            q = dict(d)
            for f in ('IonEk', 'phis'):
                q[f] = fn('init_' + f, phi, *vals(d))
            return recalc_spec(q), [[fn('initT%d%d' % (r, c), phi, *vals(d)) for c in range(7)] for r in range(7)]

        def h_init(ex, s, a, nm):
            this, p, pm, line = a
            if this != e.ptr:
                raise Unknown("another element")
            d = {f: ex.load(s, CT.at(p, PO[f]), ('d',)) for f in PF}
            rq = recalc_spec(d)
            P.eqs('requires(InitRFCav): charge state consistent', s.pc, [(f, d[f], rq[f]) for f in PF])
            phi = e.get(s, 'phi_ref')
            q, M = one(phi, d)
            s2 = s.clone()
            for f in PF:
                ex.store(s, CT.at(p, PO[f]), q[f], ('d',))
            CT.wrmat(ex, s, pm, M)
            s.trace.append(('init', p, pm, line))
            return Fork([(s, None), (s2, Throw('_ZTISt13runtime_error'))])
        res = [g for g in ctx.prog.mods[TU].fn_src if g.startswith('_ZNSt6vectorI14CavTLMLineTypeSaIS0_EE6resizeEm')]
        if len(res) != 1:
            raise Unknown("resize of the line tables")
        ex.contracts.update({res[0]: h_resize, short(r'ElementRFCavity::PropagateLongRFCav\(.*'): h_long, ini: h_init})
        fn_ = ctx.prog.find(rcm, ctx.prog.mods[TU])
        H = innermost(fn_, re.escape(ini))
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, S.ptr])
        starts = 0
        for o in run_to(ex, st, base, {H}):
            s0 = o.state
            if not feasible(s0.pc):
                continue
            if kd(o) == 'throw':
                P.fact('error only from the reference', ('long',) not in s0.trace)
                continue
            if not (o.kind == 'stop' and o.info[1] == H):
                P.holds('every charge state is computed', s0.pc, FALSE)
                continue
            starts += 1
            P.fact('reference propagated once, before the charge states', s0.trace.count(('long',)) == 1)
            P.eq('driven phase is kept', s0.pc, e.get(s0, 'phi_ref'), phi_of(ref0))
            P.eq('a line table for each charge state', s0.pc, e.vsize(s0, 'CavTLMLineTab', SZ), n)
            lb = ex.load(s0, e.p('CavTLMLineTab'), PTR)
            rb, tb = (ex.load(sZ, x, PTR) for x in (S.o.p('real'), e.p('transfer')))
            cu = RCut(ex, s0, base, fn_, H, pre=lambda s, hv: [s.assume(x) for v in hv.values() if isinstance(v, T) and v.sort == 'I' for x in (ile(I0, v), ilt(v, n))])
            if cu.arr or cu.real or not set(cu.own) <= {rb.r, tb.r}:
                raise Unknown("the loop writes %r %r" % ([s0.mem[r].name for r in cu.own], cu.real))
            k = ivar('k')
            s = cu.at(k)
            s.assume(ile(I0, k))
            s.assume(ile(k, n))
            seen = set()
            for o2 in cu.run(s):
                s1 = o2.state
                if not feasible(s1.pc):
                    continue
                seen.add(kd(o2))
                tr = [t for t in s1.trace if t[0] == 'init']
                if kd(o2) == 'back':
                    z = at_pc(sZ, s1.pc)
                    d = S.real(z, k, INDEP)
                    q, M = one(phi_of(ref0), d)
                    q['SampleIonK'] = recalc_spec(d)['SampleIonK']    # stays that of the entrance
                    z1 = at_pc(s1, s1.pc)
                    P.holds('only existing charge states', s1.pc, ilt(k, n))
                    P.eqs('charge state', s1.pc, [(f, S.o.velem(z1, 'real', k, PO[f]), q[f]) for f in PF])
                    meq(P, 'matrix', s1.pc, emat(e, z1, 'transfer', k), M)
                    ok = len(tr) == 1 and tr[0][3].r == lb.r
                    P.fact('line table of this cavity', ok, repr(tr))
                    if ok:
                        P.eq('line table of this charge state', s1.pc, i2r(tr[0][3].o), i2r(iadd(lb.o, imul(k, ic(SZ)))))
                elif kd(o2) in ('exit', 'ret'):
                    P.holds('all charge states', s1.pc, ieq(k, n))
                    if kd(o2) == 'exit':
                        s1.frames[-1].loops = {}
                        outs = ex.run([s1], base)
                    else:
                        outs = [o2]
                    for o3 in outs:
                        P.fact('returns', o3.kind == 'ret' or kd(o3) == 'ret', repr(o3.kind))
                        z = o3.state
                        qr = recalc_spec(ref_after(ref0))
                        P.eqs('reference behind the cavity', z.pc, [(f, S.o.get(z, 'ref.' + f), qr[f]) for f in PF])
                        P.eq('driven phase behind the loop', z.pc, e.get(z, 'phi_ref'), phi_of(ref0))
                        frame_unchanged(P, 'nothing else of the element', ex, sZ, z, e.reg.id, [(e.off('phi_ref'), e.off('phi_ref') + 8), (e.off('CavTLMLineTab'), e.off('CavTLMLineTab') + 24)])
                        frame_unchanged(P, 'nothing else of the state', ex, sZ, z, S.o.reg.id, [(S.o.off('ref'), S.o.off('ref') + 96)])
                elif kd(o2) == 'throw':
                    P.fact('error only from the charge state', not tr)
                else:
                    raise Unknown("control flow")
            P.fact('steps, end and error reachable', {'back', 'throw'} <= seen and ('exit' in seen or 'ret' in seen), repr(seen))
        P.fact('reachable', starts > 0)
        rec.functions.append(rcm)
    return Task(label, run, cost=5)


def tasks(ctx):
    return [advance_task(ctx, w, False, g) for w in (False, True) for g in (False, True)] + [advance_task(ctx, w, True, None) for w in (False, True)] + [recompute_task(ctx), roundtrip_lemma(ctx), check_task(ctx, 'check_backward', 'out', BKEYS, False), check_task(ctx, 'check_cache', 'in', INDEP, True)]
