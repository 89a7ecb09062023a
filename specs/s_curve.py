"""recompute_matrix() of quadrupole, electrostatic quadrupole and solenoid with field curves: for every charge state the product
of one matrix per slice, each with the strength given by the sum of the scaled curves, between the misalignment frames.  The loops
over the charge states and over the slices are cut at their headers; the sum over the curves is summarised."""
from verify import *
import optics as O
import s_matrices as SM
from s_advance import vslot
from s_base import run_to
from s_optics import Conf, mangled, base_contracts, S_mat
from s_sext import kd, innermost
from loopcut import RCut
import refsim

TUS = ['moment', 'base', 'moment_sup']
BODY = {'ElementQuad': (refsim.quadbody, lambda b, p: b / O.brho(p) / (MtoMM * MtoMM)),
        'ElementEQuad': (refsim.quadbody, lambda b, p: 2 * b / (C0 * p.beta) / O.brho(p) / (MtoMM * MtoMM)),
        'ElementSolenoid': (refsim.solbody, lambda b, p: b / (2 * O.brho(p)) / MtoMM)}


def curve_task(ctx, cls):
    label = '%s::recompute_matrix (field curves)' % cls
    body, kfun = BODY[cls]

    def run(rec):
        P = Prover(rec, label)
        C = base_contracts(ctx)
        want = []

        def canonical(h):
            def g(ex, s, a, n_):
                """a strength equal to the expected one is written as the expected one"""
                for w in want:
                    for t in (w, rneg(w)):
                        try:
                            if req_proved(a[1], t):
                                return h(ex, s, [a[0], t] + list(a[2:]), n_)
                        except Unknown:
                            pass
                return h(ex, s, a, n_)
            return g
        for k_ in ('quad', 'sol'):
            g_ = ctx.find(SM.SPECS[k_][0], 'moment_sup')
            C[g_] = canonical(C[g_])
        ex = ctx.executor(C)
        st = State()
        n, m = ivar('n'), ivar('m')
        nc = ivar('flag.E.p_conf[ncurve]')
        st.assume(ile(I1, n))
        st.assume(ile(I1, m))
        st.assume(ile(I1, nc))
        st.assume(pred('hasflag', 'E.p_conf', 'ncurve'))
        ex.nonneg = ex.nonneg | {'n', 'm', 'k', 'j'}
        S = MState(ctx, ex, st, n, consistent=True)
        vt = vtable_ptr(ctx, ex, st, mangled(cls), 'moment')
        e = new_obj(ctx, ex, st, '(anonymous namespace)::' + cls, 'E', tu='moment', counts={p: n for p in ('last_real_in', 'last_real_out', 'transfer', 'misalign', 'misalign_inv')})
        ex.store(st, e.ptr, vt, PTR)
        c = Conf('E.p_conf')
        ex.contracts[ctx.find(r'MomentElementBase::get_flag\(.*\)', 'moment')] = CT.h_get_flag
        data = ex.alloc(st, 'curves', base='sym', stride=8, layout={0: (8, 'R')}, fam='curve')
        base_of = lambda i: iatom('curve', i)

        def fam(ex, s, reg, i, off):
            if off == 0:
                return Ptr(data.id, iscale(base_of(i), 8))
            return Ptr(data.id, iscale(iadd(base_of(i), m), 8))

        def curves(ex, s, a, n_):
            """ncurve scale factors and as many curves of one length (an exception otherwise)"""
            P.fact('requires(GetCurveData): configuration of the element', CT.confname(s, a[0]) == 'E.p_conf')
            P.holds('requires(GetCurveData): number of curves', s.pc, ieq(a[1], nc))
            s2 = s.clone()
            s2.trace.append(('bad curves',))
            LIB.vec_new(ex, s, a[2], nc, 8, {0: (8, 'R')}, base='sym', name='scale', fam='scale')
            LIB.vec_new(ex, s, a[3], nc, 24, {o: (8, 'P') for o in (0, 8, 16)}, base='sym', name='curve list', fam=fam)
            return Fork([(s, None), (s2, Throw('_ZTISt13runtime_error'))])
        for g, d in ctx.lib.dm.items():
            if d.startswith('GetCurveData('):
                ex.contracts[g] = curves
        f = vslot(ctx, ex, st, vt, r'.*::recompute_matrix\(MomentState&\)')
        mod = ctx.prog.mods['moment']
        fn_ = ctx.prog.find(f, mod)
        hs = innermost(fn_, r'Get(Quad|Sol)Matrix')
        pairs = [(a, b) for a in hs for b in hs if a != b and a in fn_.loops[b]]
        if len(pairs) != 1:
            raise Unknown("loops over charge states and slices not found")
        inner, outer = pairs[0]
        sZ = st.clone()
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, S.ptr])
        depth = len(st.frames)
        need = c.has('L')
        starts, seen = [], set()
        for o in run_to(ex, st, base, {inner, outer}):
            s = o.state
            if not feasible(s.pc):
                continue
            if kd(o) == 'throw':
                seen.add('throw')
                if ('bad curves',) not in s.trace:
                    P.holds('exception only when a required parameter is missing', s.pc, bnot(need))
            elif kd(o) == 'back' and o.info[1] == outer:
                starts.append(s)
            else:
                raise Unknown("unexpected control flow: %s" % (o.info,))
        P.fact('loop reached and errors reachable', bool(starts) and 'throw' in seen)

        def nested(s):
            out = []
            for o in run_to(ex, s, base, {inner, outer}):
                if o.kind == 'stop' and o.info[1] == inner:
                    cu = RCut(ex, o.state, base, fn_, inner)
                    s2 = cu.at(ivar('jn'))
                    s2.assume(ile(I0, ivar('jn')))
                    if s.ghost.get('nobounds'):
                        s2.ghost['nobounds'] = True
                    for o2 in cu.run(s2):
                        if o2.kind == 'stop' and o2.info[0] == 'exit':
                            o2.state.frames[-1].loops = {}
                            out += ex.run([o2.state], base, (depth, outer, fn_.loops[outer]))
                else:
                    out.append(o)
            return out
        k, j, kk = ivar('k'), ivar('j'), ivar('nn')
        for s0 in starts:
            P.holds('a missing required parameter is reported', s0.pc, need)
            oc = RCut(ex, s0, base, fn_, outer, nested)
            own = {ex.load(s0, e.p(p), PTR).r for p in ('transfer', 'misalign', 'misalign_inv')}
            P.fact('an iteration writes only its own charge state', not oc.arr and set(oc.own) <= own, repr([s0.mem[r].name for r in oc.own]))
            s = oc.at(k)
            s.assume(ile(I0, k))
            s.assume(ile(k, n))
            for o in run_to(ex, s, base, {inner, outer}):
                s1 = o.state
                if not feasible(s1.pc):
                    continue
                if kd(o) == 'ret':
                    P.holds('all charge states', s1.pc, ieq(k, n))
                    seen.add('ret')
                    continue
                if not (kd(o) == 'back' and o.info[1] == inner):
                    if kd(o) == 'back':
                        P.holds('slices are executed', s1.pc, FALSE)
                        continue
                    raise Unknown("control flow: %r" % (o.info,))
                P.holds('within the charge states', s1.pc, ilt(k, n))
                z = sZ.clone()
                z.pc = list(s1.pc)
                ref, p = NS(S.ref(z)), NS(S.real(z, k))
                args = [e.get(sZ, q) for q in ('dx', 'dy', 'pitch', 'yaw', 'roll', 'length')] + [p.SampleIonK, p.beta, p.gamma, ref.IonEs]
                M, IM = CT.mis_opaque(args)
                SM.mats_eq(P, 'starts as the identity', s1.pc, S_mat(e, s1, 'transfer', k), O.ident())
                cu = RCut(ex, s1, base, fn_, inner)
                P.fact('a slice carries no state beyond the charge state', not cu.own, repr(cu.own))
                s = cu.at(j)
                s.assume(ile(I0, j))
                s.assume(ile(j, m))
                X = S_mat(e, s, 'transfer', k)
                dl = c('L') * MtoMM / i2r(m)
                b = rsum(kk, I0, nc, rmul(relem('scale', kk, 0), relem('curve', iadd(base_of(kk), j), 0)))
                K = kfun(b, p)
                want[:] = [K]
                W = mm(O.with_entries(body(dl, K), {(4, 5): O.drift_s(p, dl)}), X)
                for o2 in cu.run(s):
                    s2 = o2.state
                    if not feasible(s2.pc):
                        continue
                    if kd(o2) == 'back':
                        seen.add('slice')
                        P.holds('within the slices', s2.pc, ilt(j, m))
                        SM.mats_eq(P, 'slice', s2.pc, S_mat(e, s2, 'transfer', k), W)
                    elif kd(o2) == 'exit':
                        P.holds('all slices', s2.pc, ieq(j, m))
                        s2.frames[-1].loops = {}
                        for o3 in ex.run([s2], base, (depth, outer, fn_.loops[outer])):
                            s3 = o3.state
                            if not feasible(s3.pc):
                                continue
                            P.fact('next charge state', kd(o3) == 'back', kd(o3))
                            seen.add('state')
                            SM.mats_eq(P, 'result', s3.pc, S_mat(e, s3, 'transfer', k), chain(IM, X, M))
                            P.eqs('input energies/charges unchanged', s3.pc, [('ref.' + q, S.o.get(s3, 'ref.' + q), S.o.get(z, 'ref.' + q)) for q in INDEP] +
                                  [('real.' + q, S.o.velem(s3, 'real', k, PO[q]), S.o.velem(z, 'real', k, PO[q])) for q in INDEP])
                            P.eqs('moments unchanged', s3.pc, [('m0[%d]' % r, a, b_) for r, (a, b_) in enumerate(zip(S.m0(s3, k), S.m0(z, k)))])
                    else:
                        P.fact('no other outcome', False, repr((o2.kind, o2.info)))
        P.fact('outcomes reachable', seen == {'throw', 'ret', 'slice', 'state'}, repr(seen))
        rec.functions.extend([f] + [g for g in ex.stats['functions'] if not build.is_library(g)])
    return Task(label, run, cost=10)


def tasks(ctx):
    return [curve_task(ctx, c) for c in BODY]
