"""Particle kinematics, ensemble statistics, copying and introspection of MomentState."""
from verify import *
from s_advance import vslot

TUS = ['moment', 'base', 'moment_sup', 'inst']
VECS = (('real', 96), ('moment0', 64), ('moment1', 416), ('transmat', 416))


def newp(ctx, ex, st, name):
    return new_obj(ctx, ex, st, 'Particle', name, tu='moment')


def recalc_task(ctx):
    label = 'Particle::recalc'

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'Particle::recalc\(\)', 'moment')
        rec.functions.append(f)
        ex = ctx.executor()
        st = State()
        p = newp(ctx, ex, st, 'P')
        w = recalc_spec({k: p.get(st, k) for k in INDEP})
        n = 0
        for o in ex.call(st, f, [p.ptr], ctx.prog.mods['moment']):
            if o.kind != 'ret':
                P.fact('returns normally', False, o.kind)
                continue
            n += 1
            P.eqs('dependent values follow from the independent ones:', o.state.pc, [(k, p.get(o.state, k), w[k]) for k in PF])
        P.fact('normal return reachable', n > 0)
    return Task(label, run)


def state_recalc_task(ctx):
    label = 'MomentState::recalc'

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'MomentState::recalc\(\)', 'moment')
        rec.functions.append(f)
        ex = ctx.executor()
        st = State()
        n = ivar('n')
        st.assume(ile(I0, n))
        ex.nonneg = ex.nonneg | {'n'}
        S = MState(ctx, ex, st, n)
        s0 = st.clone()
        i = ivar('i')
        k = 0
        for o in ex.call(st, f, [S.ptr], ctx.prog.mods['moment']):
            s1 = o.state
            if not feasible(s1.pc):
                continue
            if o.kind != 'ret':
                P.fact('returns normally', False, o.kind)
                continue
            k += 1
            w = recalc_spec(S.ref(s0, INDEP))
            P.eqs('reference', s1.pc, [(q, S.o.get(s1, 'ref.' + q), w[q]) for q in PF])
            pc = s1.pc + [ile(I0, i), ilt(i, n)]
            if feasible(pc):
                sI, sZ = s1.clone(), s0.clone()
                sI.pc, sZ.pc = list(pc), list(pc)
                w = recalc_spec(S.real(sZ, i, INDEP))
                P.eqs('every charge state', pc, [(q, S.o.velem(sI, 'real', i, PO[q]), w[q]) for q in PF])
                P.eqs('moments unchanged', pc, [('m0[%d]' % r, a, b) for r, (a, b) in enumerate(zip(S.m0(sI, i), S.m0(sZ, i)))])
            for p_, v in S.sizes(s1).items():
                P.eq('number of charge states (%s)' % p_, s1.pc, v, n)
            frame_unchanged(P, 'rest of the state unchanged', ex, s0, s1, S.o.reg.id, [(S.o.off('ref'), S.o.off('ref') + 96)])
        P.fact('normal return reachable', k > 0)
    return Task(label, run)


def brho_task(ctx):
    label = 'Particle::Brho'

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'Particle::Brho\(\) const', 'moment')
        rec.functions.append(f)
        ex = ctx.executor()
        st = State()
        p = newp(ctx, ex, st, 'P')
        n = 0
        for o in ex.call(st, f, [p.ptr], ctx.prog.mods['moment']):
            if o.kind != 'ret':
                P.fact('returns normally', False, o.kind)
                continue
            n += 1
            P.eq('rigidity = beta W / (c Z)', o.state.pc, o.value, p.get(st, 'beta') * p.get(st, 'IonW') / (C0 * p.get(st, 'IonZ')))
        P.fact('normal return reachable', n > 0)
    return Task(label, run)


CMP = {'==': (INDEP, False), '!=': (INDEP, True), '<=': ([k for k in INDEP if k != 'phis'], False)}


def cmp_task(ctx, op):
    label = 'Particle operator' + op

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'operator%s\(Particle const&, Particle const&\)' % re.escape(op))
        rec.functions.append(f)
        ex = ctx.executor()
        st = State()
        p, q = newp(ctx, ex, st, 'P'), newp(ctx, ex, st, 'Q')
        fs, neg = CMP[op]
        w = band(*[req(p.get(st, k), q.get(st, k)) for k in fs])
        if neg:
            w = bnot(w)
        n = 0
        for o in ex.call(st, f, [p.ptr, q.ptr], ctx.prog.mods['moment']):
            if o.kind != 'ret':
                P.fact('returns normally', False, o.kind)
                continue
            if not feasible(o.state.pc):
                continue
            n += 1
            v = ex.tobool(o.value)
            P.holds('true iff the independent values agree (=>)', o.state.pc + [v], w)
            P.holds('true iff the independent values agree (<=)', o.state.pc + [w], v)
            frame_unchanged(P, 'operands unchanged', ex, st, o.state, p.reg.id)
        P.fact('normal return reachable', n > 0)
    return Task(label, run)


def rms_task(ctx):
    label = 'MomentState::calc_rms'

    def run(rec):
        P = Prover(rec, label)
        f = ctx.sym('MomentState::calc_rms()')
        rec.functions.append(f)
        ex = ctx.executor()
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n'}
        S = MState(ctx, ex, st, n)
        env_sizes(S, ex, st)
        s0 = st.clone()
        k = ivar('$q')
        sK = s0.clone()
        sK.pc = s0.pc + [ile(I0, k), ilt(k, n)]
        Q = S.o.velem(sK, 'real', k, PO['IonQ'])
        m0, m1 = S.m0(sK, k), S.mat(sK, 'moment1', k)
        tot = rsum(k, I0, n, Q)
        cnt = 0
        for o in ex.call(st, f, [S.ptr], ctx.prog.mods['moment']):
            s1 = o.state
            if not feasible(s1.pc):
                continue
            if o.kind != 'ret':
                P.fact('returns normally', False, o.kind)
                continue
            cnt += 1
            mean = [rsum(k, I0, n, rmul(Q, m0[j])) / tot for j in range(7)]
            g = S.env_vec(s1, 'moment0_env')
            P.eqs('mean centroid is the charge-weighted mean', s1.pc, [('[%d]' % j, g[j], mean[j]) for j in range(7)])
            G = S.env_mat(s1, 'moment1_env')
            W = [[rsum(k, I0, n, rmul(Q, radd(m1[i][j], rmul(rsub(m0[i], mean[i]), rsub(m0[j], mean[j]))))) / tot if i < 6 and j < 6 else R0
                  for j in range(7)] for i in range(7)]
            P.eqs('ensemble covariance', s1.pc, [('[%d,%d]' % (i, j), G[i][j], W[i][j]) for i in range(7) for j in range(7)])
            r = S.env_vec(s1, 'moment0_rms')
            P.eqs('rms = sqrt of the diagonal', s1.pc, [('[%d]' % j, r[j], fn('sqrt', W[j][j])) for j in range(7)])
            al = [(S.o.off(p), S.o.off(p) + w) for p, w in (('moment0_env', 64), ('moment0_rms', 64), ('moment1_env', 416))]
            frame_unchanged(P, 'rest of the state unchanged', ex, s0, s1, S.o.reg.id, al)
            i = ivar('i')
            pc = s1.pc + [ile(I0, i), ilt(i, n)]
            sI, sZ = s1.clone(), s0.clone()
            sI.pc, sZ.pc = list(pc), list(pc)
            P.eqs('charge states unchanged', pc, [(q, S.o.velem(sI, 'real', i, PO[q]), S.o.velem(sZ, 'real', i, PO[q])) for q in PF] +
                  [('m0[%d]' % j, x, y) for j, (x, y) in enumerate(zip(S.m0(sI, i), S.m0(sZ, i)))])
        P.fact('normal return reachable', cnt > 0)
    return Task(label, run)


def env_sizes(S, ex, st):
    """class invariant: the ensemble vectors and matrices have their fixed sizes"""
    for p in ('moment0_env', 'moment0_rms'):
        ex.store(st, S.o.p(p), ic(7), ('i', 64))
    for a, v in ((0, 7), (8, 7), (16, 49)):
        ex.store(st, at(S.o.p('moment1_env'), a), ic(v), ('i', 64))


SC = [('pos', ('d',)), ('last_caviphi0', ('d',))]


def same_state(P, what, ex, pc, A, sA, B, sB, n, copied=True):
    """all beam data of A (in sA) equal that of B (in sB)"""
    i = ivar('i')
    for p, w in VECS:
        P.eq('%s: |%s|' % (what, p), pc, A.o.vsize(sA, p, w), n)
    P.eqs('%s: reference' % what, pc, [(q, A.o.get(sA, 'ref.' + q), B.o.get(sB, 'ref.' + q)) for q in PF])
    P.eqs('%s:' % what, pc, [(q, A.o.get(sA, q), B.o.get(sB, q)) for q, _ in SC])
    pi = pc + [ile(I0, i), ilt(i, n)]
    if feasible(pi):
        a, b = sA.clone(), sB.clone()
        a.pc, b.pc = list(pi), list(pi)
        P.eqs('%s: charge state' % what, pi, [(q, A.o.velem(a, 'real', i, PO[q]), B.o.velem(b, 'real', i, PO[q])) for q in PF])
        P.eqs('%s: centroid' % what, pi, [('[%d]' % j, x, y) for j, (x, y) in enumerate(zip(A.m0(a, i), B.m0(b, i)))])
        for p in ('moment1', 'transmat'):
            X, Y = A.mat(a, p, i), B.mat(b, p, i)
            P.eqs('%s: %s' % (what, p), pi, [('[%d,%d]' % (r, c), X[r][c], Y[r][c]) for r in range(7) for c in range(7)])
    for p in ('moment0_env', 'moment0_rms'):
        P.eqs('%s: %s' % (what, p), pc, [('[%d]' % j, x, y) for j, (x, y) in enumerate(zip(A.env_vec(sA, p), B.env_vec(sB, p)))])
    X, Y = A.env_mat(sA, 'moment1_env'), B.env_mat(sB, 'moment1_env')
    P.eqs('%s: moment1_env' % what, pc, [('[%d,%d]' % (r, c), X[r][c], Y[r][c]) for r in range(7) for c in range(7)])


def separate(P, what, ex, A, sA, B, sB):
    """no storage is shared"""
    for p, _ in VECS:
        a, b = ex.load(sA, A.o.p(p), PTR), ex.load(sB, B.o.p(p), PTR)
        P.fact('%s: own storage for %s' % (what, p), a.r != b.r, '%s / %s' % (a.r, b.r))


def clone_task(ctx):
    label = 'MomentState::clone'

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n'}
        S = MState(ctx, ex, st, n)
        env_sizes(S, ex, st)
        vt = vtable_ptr(ctx, ex, st, '11MomentState', 'moment')
        f = vslot(ctx, ex, st, vt, r'MomentState::clone\(\) const')
        rec.functions.append(f)
        s0 = st.clone()
        cnt = 0
        for o in ex.call(st, f, [S.ptr], ctx.prog.mods['moment']):
            s1 = o.state
            if not feasible(s1.pc):
                continue
            if o.kind != 'ret':
                P.fact('returns normally', False, o.kind)
                continue
            cnt += 1
            r = o.value
            C = MState.__new__(MState)
            C.ctx, C.ex, C.n, C.name, C.tu = ctx, ex, n, 'C', 'moment'
            C.o = Obj(ctx, ex, s1.mem[r.r], 0, 'MomentState', 'moment')
            P.fact('a new object', r.r != S.o.reg.id)
            v = ex.load(s1, r, PTR)
            P.fact('dynamic type', isinstance(v, Ptr) and v == ex.load(s1, S.ptr, PTR), repr(v))
            same_state(P, 'clone', ex, s1.pc, C, s1, S, s0, n)
            separate(P, 'clone', ex, C, s1, S, s1)
            P.eq('clone starts at the first element', s1.pc, C.o.get(s1, 'next_elem', ('i', 64)), I0)
            b = ex.tobool(C.o.get(s1, 'retreat', ('i', 8)))
            P.holds('clone starts forward', s1.pc, bnot(b))
            p_ = ex.load(s1, C.o.p('pyptr'), PTR)
            P.fact('clone has no interpreter wrapper', isinstance(p_, Ptr) and p_.r is None or p_ == NULL or (isinstance(p_, T) and p_ is I0), repr(p_))
            same_state(P, 'original', ex, s1.pc, S, s1, S, s0, n)
        P.fact('normal return reachable', cnt > 0)
    return Task(label, run)


def assign_task(ctx):
    label = 'MomentState::assign'

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        n, m = ivar('n'), ivar('m')
        st.assume(ile(I1, n))
        st.assume(ile(I1, m))
        ex.nonneg = ex.nonneg | {'n', 'm'}
        S = MState(ctx, ex, st, n)
        D = MState(ctx, ex, st, m, name='D')
        env_sizes(S, ex, st)
        env_sizes(D, ex, st)
        vt = vtable_ptr(ctx, ex, st, '11MomentState', 'moment')
        f = vslot(ctx, ex, st, vt, r'MomentState::assign\(StateBase const&\)')
        rec.functions.append(f)
        s0 = st.clone()
        cnt = 0
        for o in ex.call(st, f, [D.ptr, S.ptr], ctx.prog.mods['moment']):
            s1 = o.state
            if not feasible(s1.pc):
                continue
            if o.kind != 'ret':
                P.fact('returns normally', False, o.kind)
                continue
            cnt += 1
            same_state(P, 'assigned', ex, s1.pc, D, s1, S, s0, n)
            separate(P, 'assigned', ex, D, s1, S, s1)
            same_state(P, 'source', ex, s1.pc, S, s1, S, s0, n)
            P.eq('position in the machine is kept', s1.pc, D.o.get(s1, 'next_elem', ('i', 64)), D.o.get(s0, 'next_elem', ('i', 64)))
            P.eq('direction is kept', s1.pc, D.o.get(s1, 'retreat', ('i', 8)), D.o.get(s0, 'retreat', ('i', 8)))
        P.fact('normal return reachable', cnt > 0)
    return Task(label, run)


def assign_other_task(ctx):
    label = 'MomentState::assign (different simulation type)'

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n'}
        D = MState(ctx, ex, st, n, name='D')
        vt = vtable_ptr(ctx, ex, st, '11MomentState', 'moment')
        f = vslot(ctx, ex, st, vt, r'MomentState::assign\(StateBase const&\)')
        o2 = ex.alloc(st, 'other', size=64)
        o2.tag = ('obj', '_ZTI11VectorState')
        s0 = st.clone()
        for o in ex.call(st, f, [D.ptr, Ptr(o2.id, I0)], ctx.prog.mods['moment']):
            if not feasible(o.state.pc):
                continue
            P.fact('rejected with an exception', o.kind == 'throw', o.kind)
            frame_unchanged(P, 'state unchanged', ex, s0, o.state, D.o.reg.id)
    return Task(label, run)


# ------------------------------------------------------------------ introspection
def array_spec(S, ex, st, n):
    o = S.o
    b = {p: ex.load(st, o.p(p), PTR) for p, _ in VECS}
    D = {}

    def own(path, x=0):
        return Ptr(o.reg.id, ic(o.off(path) + x))
    D['moment1_env'] = (own('moment1_env', 24), 0, [7, 7], [56, 8])
    D['moment0_env'] = (own('moment0_env', 8), 0, [7], [8])
    D['moment0_rms'] = (own('moment0_rms', 8), 0, [7], [8])
    D['moment1'] = (at(b['moment1'], 24), 0, [7, 7, n], [56, 8, 416])
    D['transmat'] = (at(b['transmat'], 24), 0, [7, 7, n], [56, 8, 416])
    D['moment0'] = (at(b['moment0'], 8), 0, [7, n], [8, 64])
    for f in PF:
        if f == 'SampleLambda':
            continue
        D['ref_' + f] = (own('ref.' + f), 0, [], [])
        D[f] = (at(b['real'], PO[f]), 0, [n], [96])
    D['last_caviphi0'] = (own('last_caviphi0'), 0, [], [])
    D['next_elem'] = (own('next_elem'), 1, [], [])
    D['pos'] = (own('pos'), 0, [], [])
    return D


def vec_elems_sized(ex, st, S):
    """class invariant: every centroid is a 7-vector, every covariance a 7x7 matrix"""
    for p, cells in (('moment0', {0: (8, ic(7))}), ('moment1', {0: (8, ic(7)), 8: (8, ic(7)), 16: (8, ic(49))}),
                     ('transmat', {0: (8, ic(7)), 8: (8, ic(7)), 16: (8, ic(49))})):
        b = ex.load(st, S.o.p(p), PTR)
        reg = st.rw(b.r)
        kv = ivar('$sz')
        reg.log = tuple(reg.log) + (('map', kv, I0, S.n, cells),)


def introspect_task(ctx, cls='MomentState', spec=array_spec, maxidx=48):
    label = cls + '::getArray'

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        n = ivar('n')
        st.assume(ile(I1, n))
        ex.nonneg = ex.nonneg | {'n'}
        S = MState(ctx, ex, st, n)
        env_sizes(S, ex, st)
        vec_elems_sized(ex, st, S)
        vt = vtable_ptr(ctx, ex, st, '11MomentState', 'moment')
        f = vslot(ctx, ex, st, vt, cls + r'::getArray\(.*\)')
        rec.functions.append(f)
        W = spec(S, ex, st, n)
        introspect(ctx, ex, st, P, f, S.ptr, W, 'moment', maxidx)
        s1 = st
    return Task(label, run)


def introspect(ctx, ex, st, P, f, ptr, W, tu, maxidx):
    L = ctx.lay
    rec_ = 'StateBase::ArrayInfo'
    oI = {k: L.off(rec_, k, tu) for k in ('name', 'type', 'ptr', 'ndim', 'dim', 'stride')}
    seen = {}
    ended = None
    for idx in range(maxidx):
        s = st.clone()
        inf = ex.alloc(s, 'info', size=L.get(rec_, tu)[0])
        outs = [o for o in ex.call(s, f, [ptr, ic(idx), Ptr(inf.id, I0)], ctx.prog.mods[tu]) if feasible(o.state.pc)]
        if any(o.kind != 'ret' for o in outs) or not outs:
            P.fact('[%d] returns' % idx, False, str([o.kind for o in outs]))
            continue
        for o in outs:
            s1 = o.state
            ok = ex.tobool(o.value)
            d = ex.decide(s1, ok)
            if d is None:
                P.unknown('[%d] decided' % idx, 'result depends on the state')
                continue
            if not d:
                ended = idx if ended is None else ended
                continue
            if ended is not None:
                P.fact('indices are contiguous', False, 'index %d valid after %d invalid' % (idx, ended))
            g = lambda k, ty, x=0: ex.load(s1, Ptr(inf.id, ic(oI[k] + x)), ty)
            nm = LIB.cstr_at(s1, g('name', PTR))
            nm = nm if isinstance(nm, str) else nm[1]
            if nm in seen and len(outs) == 1:
                P.fact('names are unique', False, nm)
                continue
            seen[nm] = idx
            if nm not in W:
                P.fact('parameter %s is documented' % nm, True, 'additional parameter, not specified')
                continue
            wp, wt, wd, ws = W[nm]
            p = g('ptr', PTR)
            P.fact('%s: storage of the parameter' % nm, p.r == wp.r and entails(s1.pc, ieq(p.o, wp.o)), '%r / %r' % (p, wp))
            P.eq('%s: element type' % nm, s1.pc, g('type', ('i', 32)), ic(wt))
            P.eq('%s: number of dimensions' % nm, s1.pc, g('ndim', ('i', 32)), ic(len(wd)))
            for k, (d_, t_) in enumerate(zip(wd, ws)):
                P.eq('%s: dim[%d]' % (nm, k), s1.pc, g('dim', ('i', 64), 8 * k), d_ if isinstance(d_, T) else ic(d_))
                P.eq('%s: stride[%d]' % (nm, k), s1.pc, g('stride', ('i', 64), 8 * k), ic(t_))
    for nm in W:
        P.fact('%s is available' % nm, nm in seen)
    P.fact('indices end', ended is not None and ended >= len(W), str(ended))


def tasks(ctx):
    ts = [recalc_task(ctx), state_recalc_task(ctx), brho_task(ctx)]
    ts += [cmp_task(ctx, k) for k in CMP]
    ts += [rms_task(ctx), clone_task(ctx), assign_task(ctx), assign_other_task(ctx), introspect_task(ctx)]
    return ts
