"""ElementSext::advance: slice-by-slice transport of every charge state.  The loop over the charge states and the loop over the
slices are cut at their headers: entry values, one slice, and the exit are obligations for an arbitrary charge state and slice."""
from verify import *
import optics as O
from s_advance import vslot, setup_element, h_rms
from s_base import run_to
from s_optics import Conf, mangled
from loopcut import RCut

IDENT = lambda i, j: R1 if i == j else R0
TRANS = [(i, j) for i in range(4) for j in range(4)] + [(1, 6), (3, 6), (4, 5)]


def sx(i, j, args, thin, kick):
    b = lambda c: rite(c, R1, R0)
    v = fn('sx%d%d' % (i, j), *args, b(thin), b(kick))
    return rite(kick, v, R0) if j == 6 else v


def innermost(fn_, rx):
    r = re.compile(rx)
    hs = [h for h, b in fn_.loops.items() if any(r.search(str(i.a[0])) for x in b for i in fn_.blocks[x].instrs if i.op in ('call', 'invoke'))]
    hs.sort(key=lambda h: len(fn_.loops[h]))
    return hs


def kd(o):
    return o.info[0] if o.kind == 'stop' else o.kind


def advance_task(ctx, warm):
    label = 'ElementSext::advance (%s cache)' % ('valid' if warm else 'empty')
    cls = '(anonymous namespace)::ElementSext'

    def run(rec):
        P = Prover(rec, label)
        Q = [P]
        C = CT.config_contracts(ctx)
        off = CT.offsets_for(ctx)
        C[ctx.find(r'MomentElementBase::get_misalign\(.*\) const', 'moment')] = CT.make_h_misalign(off)
        gs = ctx.find(r'GetSextMatrix\(.*\)', 'moment_sup').split(':')[-1]

        def h_sext(ex, st, a, n):
            *args, thin, kick, pM = a
            thin, kick = ex.tobool(thin), ex.tobool(kick)
            old = CT.rdmat(ex, st, pM)
            if Q[0] and not st.ghost.get('nobounds'):
                Q[0].eqs('requires(GetSextMatrix): identity outside the transverse part', st.pc,
                         [('[%d,%d]' % (i, j), old[i][j], IDENT(i, j)) for i in range(7) for j in range(7) if (i, j) not in TRANS])
                Q[0].eqs('requires(GetSextMatrix): no kick left over', st.pc, [('[%d,6]' % i, rite(kick, R0, old[i][6]), R0) for i in (1, 3)])
            for i, j in TRANS:
                ex.store(st, CT.at(pM, 24 + 8 * (7 * i + j)), sx(i, j, args, thin, kick), ('d',))
            st.trace.append(('sext', args, thin, kick))
        C[gs] = h_sext
        C[ctx.sym('MomentState::calc_rms()')] = h_rms
        C[RECALC] = h_recalc
        ex = ctx.executor(C)
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n', 'k', 'j'}
        S = MState(ctx, ex, st, n)
        vt = vtable_ptr(ctx, ex, st, mangled('ElementSext'), 'moment')
        e, c0 = setup_element(ctx, ex, st, cls, vt, warm, n)
        f = vslot(ctx, ex, st, vt, r'.*::advance\(StateBase&\)')
        mod = ctx.prog.mods['moment']
        fn_ = ctx.prog.find(f, mod)
        hs = innermost(fn_, gs)
        if len(hs) < 2:
            raise Unknown("loops over charge states and slices not found")
        inner, outer = hs[0], hs[1]
        for q in range(3):    # class invariant: scratch is 7x7
            ex.store(st, Ptr(e.reg.id, ic(e.off('scratch') + 8 * q)), ic(49 if q == 2 else 7), ('i', 64))
        c = Conf('E.p_conf')
        stepr = c('step', 1.0)
        step = iatom('f2i', stepr)
        st.assume(ile(I1, step))
        thin, kick = req(c('thinlens', 0.0), R1), req(c('dstkick', 1.0), R1)
        L, B3 = c('L') * MtoMM, c('B3')
        sZ = st.clone()
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, S.ptr])
        depth = len(st.frames)
        need = band(c.has('B3'), c.has('L'))
        starts = []
        back = ex.tobool(S.o.get(sZ, 'retreat', ('i', 8)))
        i = ivar('i')
        seen = set()
        for o in run_to(ex, st, base, {inner, outer}):
            s = o.state
            if not feasible(s.pc):
                continue
            if kd(o) == 'throw':
                P.holds('exception: backward, or a missing required parameter', s.pc, bor(back, bnot(need)))
                seen.add('throw')
            elif o.kind == 'stop' and o.info[1] == outer:
                starts.append(s)
            else:
                raise Unknown("unexpected control flow: %s" % (o.info,))
        P.fact('loop reached and errors reachable', bool(starts) and 'throw' in seen)

        def nested(lc):
            def body(s):
                out = []
                for o in run_to(ex, s, base, {inner, outer}):
                    if o.kind == 'stop' and o.info[1] == inner:
                        cu = RCut(ex, o.state, base, fn_, inner)
                        s2 = cu.at(ivar('jn'))
                        if s.ghost.get('nobounds'):
                            s2.ghost['nobounds'] = True
                        for o2 in cu.run(s2):
                            if o2.kind == 'stop' and o2.info[0] == 'exit':
                                o2.state.frames[-1].loops = {}
                                out += ex.run([o2.state], base, lc)
                    else:
                        out.append(o)
                return out
            return body
        for s0 in starts:
            P.holds('forward with all required parameters', s0.pc, band(bnot(back), need))
            save = Q[0]
            Q[0] = None
            oc = RCut(ex, s0, base, fn_, outer, nested((depth, outer, fn_.loops[outer])))
            Q[0] = save
            k = ivar('k')
            s = oc.at(k)
            s.assume(ile(I0, k))
            s.assume(ile(k, n))
            own = {ex.load(s, S.o.p(p), PTR).r for p in ('moment0', 'moment1', 'transmat')} | {ex.load(s, e.p(p), PTR).r for p in ('transfer', 'misalign', 'misalign_inv')}
            P.fact('an iteration writes only its own charge state', not oc.arr and set(oc.own) <= own, repr([s.mem[r].name for r in oc.own]))
            exits = 0
            for o in run_to(ex, s, base, {inner, outer}):
                s1 = o.state
                if not feasible(s1.pc):
                    continue
                if o.kind == 'stop' and o.info[1] == inner:
                    one_state(P, ctx, ex, S, e, fn_, base, inner, outer, s1, k, n, L, B3, step, stepr, thin, kick, sZ)
                elif kd(o) == 'ret':
                    exits += 1
                elif o.kind == 'stop' and o.info[1] == outer:
                    P.holds('slices are executed', s1.pc, FALSE)
                else:
                    P.fact('no other outcome', False, repr((o.kind, o.info)))
            # after the last charge state: arbitrary moments, the rest of the function
            s = oc.at(n)
            s.assume(ile(I0, n))
            fam = {}
            for rid in oc.own:
                reg = s.rw(rid)
                reg.log, reg.base = (), 'sym'
                reg.fam = fam[rid] = fresh('post.' + reg.name)
            s.ghost['post'] = s.clone()
            sp = s.clone()
            k_ = 0
            for o in oc.run(s):
                if o.kind == 'stop' and o.info[0] == 'exit':
                    o.state.frames[-1].loops = {}
                    for o2 in ex.run([o.state], base):
                        if feasible(o2.state.pc):
                            k_ += final(P, ctx, ex, S, e, o2, sp, sZ, n)
                elif kd(o) == 'ret':
                    if feasible(o.state.pc):
                        k_ += final(P, ctx, ex, S, e, o, sp, sZ, n)
            P.fact('normal return reachable', k_ > 0)
        rec.functions.extend([f] + [g for g in ex.stats['functions'] if not build.is_library(g)])
    return Task(label, run, cost=10)


def emat(e, st, path, i):
    return [[e.velem(st, path, i, 24 + 8 * (7 * r + k)) for k in range(7)] for r in range(7)]


def meq(P, name, pc, G, W):
    P.eqs(name, pc, [('[%d,%d]' % (r, k), G[r][k], R(W[r][k])) for r in range(len(G)) for k in range(len(G[0]))])


def one_state(P, ctx, ex, S, e, fn_, base, inner, outer, s1, k, n, L, B3, step, stepr, thin, kick, sZ):
    P.holds('every charge state is visited', s1.pc, band(ile(I0, k), ilt(k, n)))
    z = sZ.clone()
    z.pc = list(s1.pc)
    p = NS(recalc_spec(S.real(z, k, INDEP)))
    r = NS(recalc_spec(S.ref(z, INDEP)))
    a = [e.get(sZ, q) for q in ('dx', 'dy', 'pitch', 'yaw', 'roll', 'length')] + [p.SampleIonK, p.beta, p.gamma, r.IonEs]
    M, IM = CT.mis_opaque(a)
    m0, m1 = S.m0(z, k), S.mat(z, 'moment1', k)
    P.eqs('entry: centroid in the element frame', s1.pc, [('[%d]' % q, x, y) for q, (x, y) in enumerate(zip(S.m0(s1, k), mv(M, m0)))])
    meq(P, 'entry: covariance in the element frame', s1.pc, S.mat(s1, 'moment1', k), chain(M, m1, tr(M)))
    meq(P, 'entry: transfer matrix starts as the identity', s1.pc, S.mat(s1, 'transmat', k), O.ident())
    meq(P, 'entry: slice matrix starts as the identity', s1.pc, emat(e, s1, 'transfer', k), O.ident())
    cu = RCut(ex, s1, base, fn_, inner)
    P.fact('a slice carries no state beyond the charge state', not cu.own, repr(cu.own))
    j = ivar('j')
    s = cu.at(j)
    s.assume(ile(I0, j))
    s.assume(ile(j, step))
    tb = ex.load(s, e.p('transfer'), PTR)
    for q in (1, 3):
        pp = Ptr(tb.r, iadd(imul(k, ic(416)), ic(24 + 8 * (7 * q + 6))))
        ex.store(s, pp, rite(kick, ex.load(s, pp, ('d',)), R0), ('d',))
    x0, x1, tm = S.m0(s, k), S.mat(s, 'moment1', k), S.mat(s, 'transmat', k)
    Brho = O.brho(p)
    K = B3 / Brho / (MtoMM * MtoMM * MtoMM)
    got = set()
    for o in cu.run(s):
        s2 = o.state
        if not feasible(s2.pc):
            continue
        kind = kd(o)
        got.add(kind)
        ev = [t for t in s2.trace if t[0] == 'sext']
        if kind == 'back':
            if len(ev) != 1:
                raise Unknown("slice structure")
            _, args, th, ki = ev[0]
            dl = args[0]
            P.eq('slice: length is L/step', s2.pc, dl * fn_i2f(step), L)
            P.eqs('slice: matrix about the current beam', s2.pc, list(zip(('K', 'Dx', 'Dy', 'D2x', 'D2y', 'D2xy'), args[1:],
                  (K, x0[0], x0[2], x1[0][0], x1[2][2], x1[0][2]))))
            P.holds('slice: lens model', s2.pc, biff(th, thin))
            P.holds('slice: second-moment kick', s2.pc, biff(ki, kick))
            T = [[sx(a_, b_, args, th, ki) if (a_, b_) in TRANS else IDENT(a_, b_) for b_ in range(7)] for a_ in range(7)]
            T[4][5] = O.drift_s(p, dl)
            P.eqs('slice: centroid', s2.pc, [('[%d]' % q, x, R(y)) for q, (x, y) in enumerate(zip(S.m0(s2, k), mv(T, x0)))])
            meq(P, 'slice: covariance', s2.pc, S.mat(s2, 'moment1', k), chain(T, x1, tr(T)))
            meq(P, 'slice: transfer matrix', s2.pc, S.mat(s2, 'transmat', k), mm(T, tm))
            t2 = emat(e, s2, 'transfer', k)
            P.eqs('slice: no kick left over', s2.pc, [('[%d,6]' % q, rite(kick, R0, t2[q][6]), R0) for q in (1, 3)])
            P.holds('slice: one of `step` slices', s2.pc, ilt(j, step))
        elif kind == 'exit':
            P.holds('slices: all are done', s2.pc, ile(step, iadd(j, I0) if not ev else iadd(j, I1)))
            y0, y1, ym = x0, x1, tm
            if ev:
                args, th, ki = ev[0][1:]
                T = [[sx(a_, b_, args, th, ki) if (a_, b_) in TRANS else IDENT(a_, b_) for b_ in range(7)] for a_ in range(7)]
                T[4][5] = O.drift_s(p, args[0])
                y0, y1, ym = mv(T, x0), chain(T, x1, tr(T)), mm(T, tm)
            s2.frames[-1].loops = {}
            for o2 in run_to(ex, s2, base, {inner, outer}):
                s3 = o2.state
                if not feasible(s3.pc):
                    continue
                if not (o2.kind == 'stop' and o2.info[1] == outer or kd(o2) == 'ret'):
                    raise Unknown("unexpected control flow after the slices")
                got.add('done')
                if kd(o2) == 'ret':
                    raise Unknown("loop over the charge states left early")
                P.eqs('exit: centroid in the laboratory frame', s3.pc, [('[%d]' % q, x, R(y)) for q, (x, y) in enumerate(zip(S.m0(s3, k), mv(IM, y0)))])
                meq(P, 'exit: covariance in the laboratory frame', s3.pc, S.mat(s3, 'moment1', k), chain(IM, y1, tr(IM)))
                meq(P, 'exit: reported transfer matrix', s3.pc, S.mat(s3, 'transmat', k), chain(IM, ym, M))
                q_ = recalc_spec(S.real(z, k, INDEP))
                P.eqs('particles not changed by the slices', s3.pc, [(w, S.o.velem(s3, 'real', k, PO[w]), q_[w]) for w in PF])
    P.fact('slices and exit reachable', {'back', 'done'} <= got, repr(got))


def fn_i2f(i):
    return i2r(i)


def biff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


def final(P, ctx, ex, S, e, o, sp, sZ, n):
    s = o.state
    if kd(o) != 'ret':
        P.fact('after the loop: returns', False, o.kind)
        return 0
    i = ivar('i')
    pc = s.pc + [ile(I0, i), ilt(i, n)]
    L = e.get(sZ, 'length')
    a, z, b = s.clone(), sZ.clone(), sp.clone()
    a.pc = z.pc = b.pc = list(pc)
    qr, qi = recalc_spec(S.ref(sZ, INDEP)), recalc_spec(S.real(z, i, INDEP))
    fin = {}
    for w, q in (('ref', qr), ('real', qi)):
        fin[w] = dict(q)
        fin[w]['phis'] = q['phis'] + q['SampleIonK'] * L * MtoMM
    P.eq('path length advances by the element length', pc, S.o.get(s, 'pos'), S.o.get(sZ, 'pos') + L)
    P.eqs('reference', pc, [(f, S.o.get(s, 'ref.' + f), fin['ref'][f]) for f in PF])
    P.eqs('charge state', pc, [(f, S.o.velem(a, 'real', i, PO[f]), fin['real'][f]) for f in PF])
    P.eqs('centroid is the one of the last slice', pc, [('[%d]' % q, x, y) for q, (x, y) in enumerate(zip(S.m0(a, i), S.m0(b, i)))])
    meq(P, 'covariance is the one of the last slice', pc, S.mat(a, 'moment1', i), S.mat(b, 'moment1', i))
    meq(P, 'transfer matrix is the one of the slices', pc, S.mat(a, 'transmat', i), S.mat(b, 'transmat', i))
    for p, v in S.sizes(s).items():
        P.eq('number of charge states (%s)' % p, s.pc, v, n)
    rms = [t for t in s.trace if t[0] == 'rms']
    if not rms:
        P.fact('statistics updated', False, 'calc_rms() not called')
    else:
        sn = rms[-1][1]
        sn.pc = list(pc)
        pairs = [('IonQ', S.o.velem(sn, 'real', i, 8), S.o.velem(a, 'real', i, 8))]
        pairs += [('m0[%d]' % q, x, y) for q, (x, y) in enumerate(zip(S.m0(sn, i), S.m0(a, i)))]
        x, y = S.mat(sn, 'moment1', i), S.mat(a, 'moment1', i)
        pairs += [('m1[%d,%d]' % (u, v), x[u][v], y[u][v]) for u in range(7) for v in range(7)]
        P.eqs('statistics computed from the final moments', pc, pairs)
    al = [(e.off(p), e.off(p) + w) for p, w in (('last_ref_in', 96), ('last_ref_out', 96), ('last_real_in', 24), ('last_real_out', 24),
                                                 ('transfer', 24), ('misalign', 24), ('misalign_inv', 24), ('scratch', 416))]
    frame_unchanged(P, 'element configuration unchanged', ex, sZ, s, e.reg.id, al)
    al = [(S.o.off('ref'), S.o.off('ref') + 96), (S.o.off('pos'), S.o.off('pos') + 8)] + \
         [(S.o.off(p), S.o.off(p) + 24) for p in ('real', 'moment0', 'moment1', 'transmat')]
    frame_unchanged(P, 'rest of the state unchanged', ex, sZ, s, S.o.reg.id, al)
    return 1


def tasks(ctx):
    return [advance_task(ctx, False), advance_task(ctx, True)]
