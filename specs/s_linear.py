"""Vector and TransferMatrix simulations (src/linear.cpp, flame/linear.h): element matrices, step, states."""
from verify import *
import optics as O
from s_optics import Conf
from s_advance import vslot
import s_state as SS

TUS = ['linear', 'base']
STATES = ('VectorState', 'MatrixState')
N6 = 6


def I6():
    return [[R1 if i == j else R0 for j in range(6)] for i in range(6)]


def put(M, i, B):
    for a in range(2):
        for b in range(2):
            M[i + a][i + b] = B[a][b]
    return M


def T_marker(c, l):
    return I6()


def T_drift(c, l):
    M = I6()
    M[0][1] = M[2][3] = l * MtoMM
    return M


def T_quad(c, l):
    K = c('K', 0.0) / (MtoMM * MtoMM)
    L = l * MtoMM
    return put(put(I6(), 0, O.quad2(L, K)), 2, O.quad2(L, -K))


def T_sbend(c, l):
    L = l * MtoMM
    K = c('K', 0.0) / (MtoMM * MtoMM)
    rho = L / c('phi')
    return put(put(I6(), 0, O.quad2(L, K + 1 / (rho * rho))), 2, O.quad2(L, -K))


def T_sol(c, l):
    L = l * MtoMM
    K = c('K', 0.0) / MtoMM
    C, S = cos(K * L), sin(K * L)
    z = eq(K, 0)
    o = lambda v, w: where(z, w, v)
    a, b, d = o(lambda: S * C / K, L), o(lambda: S * S / K, 0.0), S * C
    M = I6()
    B = [[C * C, a, S * C, b], [-K * S * C, C * C, -K * S * S, S * C], [-S * C, o(lambda: -(S * S) / K, 0.0), C * C, a], [K * S * S, -S * C, -K * S * C, C * C]]
    for i in range(4):
        for j in range(4):
            M[i][j] = B[i][j]
    return M


ELEMS = {'ElementMark': (T_marker, ()), 'ElementDrift': (T_drift, ()), 'ElementSBend': (T_sbend, ('phi',)), 'ElementQuad': (T_quad, ()),
         'ElementSolenoid': (T_sol, ()), 'ElementGeneric': (None, ('transfer',))}


def base_rec(s):
    return 'LinearElementBase<struct %s>' % s


def elem_rec(e, s):
    return '(anonymous namespace)::%s<struct LinearElementBase<struct %s> >' % (e, s)


def toff(ctx, s):
    L = ctx.lay
    return L.off(base_rec(s), 'transfer', 'linear'), {k: L.off(base_rec(s), 'transfer.' + k, 'linear') for k in ('size1_', 'size2_', 'data_.size_', 'data_.data_')}


def ctor_task(ctx, el, sname):
    label = '%s<%s> constructor' % (el, sname)

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'\(anonymous namespace\)::%s<LinearElementBase<%s>>::%s\(Config const&\)' % (el, sname, el), 'linear')
        rec.functions.append(f)
        for size in (list(range(38)) + ['more'] if el == 'ElementGeneric' else [None]):
            one(rec, P, f, size)

    def one(rec, P, f, size):
        ex = ctx.executor(CT.config_contracts(ctx))
        st = State()
        conf = ex.alloc(st, 'conf')
        conf.cells[('g', 0)] = ('config', 'C')
        this = ex.alloc(st, 'E', size=ctx.lay.get(base_rec(sname), 'linear')[0])
        st.assume(CT.has('C', 'name', 'string'))
        c = Conf('C')
        _, o = toff(ctx, sname)
        spec, needs = ELEMS[el]
        if el == 'ElementSBend':
            # a bend of zero length or angle has no curvature radius
            st.assume(bnot(req(c('phi'), R0)))
            st.assume(bnot(req(c('L', 0.0), R0)))
        sz = ivar('n.C[transfer]')
        if size == 'more':
            st.assume(ile(ic(37), sz))
        elif size is not None:
            st.ghost[('size', 'C[transfer]')] = ic(size)
        rets = 0
        outs = ex.call(st, f, [Ptr(this.id, I0), Ptr(conf.id, I0)], ctx.prog.mods['linear'])
        rec.functions.extend(g for g in ex.stats['functions'] if not build.is_library(g))
        need = band(*[CT.has('C', k, 'vector' if k == 'transfer' else 'double') for k in needs]) if needs else TRUE
        if size == 'more' or size is not None and size > 36:
            need = FALSE
        for r in outs:
            s1 = r.state
            if not feasible(s1.pc):
                continue
            if r.kind == 'throw':
                P.holds('exception only when a required parameter is missing or too long', s1.pc, bnot(need))
                continue
            if r.kind != 'ret':
                P.unknown('termination', r.kind)
                continue
            rets += 1
            P.holds('a missing required parameter is reported', s1.pc, need)
            g = lambda k, ty=('i', 64): ex.load(s1, Ptr(this.id, ic(o[k])), ty)
            for k, v in (('size1_', 6), ('size2_', 6), ('data_.size_', 36)):
                P.eq('transfer.%s' % k, s1.pc, g(k), ic(v))
            d = g('data_.data_', PTR)
            cell = lambda i, j: ex.load(s1, at(d, 8 * (6 * i + j)), ('d',))
            l = c('L', 0.0)
            if el == 'ElementGeneric':
                Id = I6()
                W = [[relem('C[transfer]', ic(6 * i + j), 0) if 6 * i + j < size else Id[i][j] for j in range(6)] for i in range(6)]
            else:
                W = spec(c, l)
            P.eqs('transfer', s1.pc, [('[%d,%d]' % (i, j), cell(i, j), W[i][j] if isinstance(W[i][j], T) else R(W[i][j])) for i in range(6) for j in range(6)])
            P.eq('length = L', s1.pc, ex.load(s1, Ptr(this.id, ic(ctx.lay.off('ElementVoid', 'length', 'linear'))), ('d',)), l)
            g_ = LIB.gget(s1, Ptr(this.id, ic(ctx.lay.off('ElementVoid', 'p_conf', 'linear'))))
            P.fact('the configuration is kept', g_ == ('config', 'C'), repr(g_))
        P.fact('normal return reachable', rets > 0 or need is FALSE)
    return Task(label, run)


def lin_state(ctx, ex, st, sname, name='S', tu='linear'):
    """symbolic VectorState / MatrixState satisfying its size invariant"""
    o = new_obj(ctx, ex, st, sname, name, tu=tu)
    vt = vtable_ptr(ctx, ex, st, '11' + sname, tu)
    ex.store(st, o.ptr, vt, PTR)
    st.mem[o.reg.id].tag = ('obj', '_ZTI11' + sname)
    if sname == 'VectorState':
        o.set(st, 'state.data_.size_', ic(6), ('i', 64))
    else:
        for k, v in (('state.size1_', 6), ('state.size2_', 6), ('state.data_.size_', 36)):
            o.set(st, k, ic(v), ('i', 64))
    return o, vt


def vals(ex, st, o, sname):
    b = o.off('state.data_.data_')
    n = 6 if sname == 'VectorState' else 36
    return [ex.load(st, Ptr(o.reg.id, ic(b + 8 * k)), ('d',)) for k in range(n)]


def sizes_ok(P, ex, s1, o, sname, what):
    if sname == 'VectorState':
        P.eq('%s: size' % what, s1.pc, o.get(s1, 'state.data_.size_', ('i', 64)), ic(6))
    else:
        for k, v in (('state.size1_', 6), ('state.size2_', 6), ('state.data_.size_', 36)):
            P.eq('%s: %s' % (what, k), s1.pc, o.get(s1, k, ('i', 64)), ic(v))


def advance_task(ctx, sname):
    label = 'LinearElementBase<%s>::advance' % sname

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        S, _ = lin_state(ctx, ex, st, sname)
        size = ctx.lay.get(base_rec(sname), 'linear')[0]
        this = ex.alloc(st, 'E', size=size, base='sym')
        vt = vtable_ptr(ctx, ex, st, '17LinearElementBaseI11%sE' % sname, 'linear')
        ex.store(st, Ptr(this.id, I0), vt, PTR)
        _, o = toff(ctx, sname)
        D = ex.alloc(st, 'T', size=288)
        Tm = [[rvar('T%d%d' % (i, j)) for j in range(6)] for i in range(6)]
        for i in range(6):
            for j in range(6):
                ex.store(st, Ptr(D.id, ic(8 * (6 * i + j))), Tm[i][j], ('d',))
        for k, v in (('size1_', 6), ('size2_', 6), ('data_.size_', 36)):
            ex.store(st, Ptr(this.id, ic(o[k])), ic(v), ('i', 64))
        ex.store(st, Ptr(this.id, ic(o['data_.data_'])), Ptr(D.id, I0), PTR)
        lo = ctx.lay.off('ElementVoid', 'length', 'linear')
        l = rvar('E.length')
        ex.store(st, Ptr(this.id, ic(lo)), l, ('d',))
        f = vslot(ctx, ex, st, vt, r'.*::advance\(StateBase&\)')
        s0 = st.clone()
        v = vals(ex, s0, S, sname)
        outs = ex.call(st, f, [Ptr(this.id, I0), S.ptr], ctx.prog.mods['linear'])
        rec.functions.extend([f] + [g for g in ex.stats['functions'] if not build.is_library(g)])
        rets = 0
        for r in outs:
            s1 = r.state
            if not feasible(s1.pc):
                continue
            if r.kind != 'ret':
                P.fact('returns normally', False, r.kind)
                continue
            rets += 1
            w = vals(ex, s1, S, sname)
            k = 1 if sname == 'VectorState' else 6
            want = [sum((Tm[i][q] * v[q * k + j] for q in range(1, 6)), Tm[i][0] * v[j]) for i in range(6) for j in range(k)]
            P.eqs('state = T state', s1.pc, [('[%d]' % i, a, b) for i, (a, b) in enumerate(zip(w, want))])
            P.eq('path length advances by the element length', s1.pc, S.get(s1, 'pos'), S.get(s0, 'pos') + l)
            sizes_ok(P, ex, s1, S, sname, 'state')
            frame_unchanged(P, 'rest of the state unchanged', ex, s0, s1, S.reg.id,
                            [(S.off('pos'), S.off('pos') + 8), (S.off('state'), ctx.lay.get(sname, 'linear')[0])])
            frame_unchanged(P, 'element unchanged', ex, s0, s1, this.id)
            frame_unchanged(P, 'transfer matrix unchanged', ex, s0, s1, D.id)
        P.fact('normal return reachable', rets > 0)
    return Task(label, run)


def state_ctor_task(ctx, sname):
    label = '%s constructor' % sname

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'%s::%s\(Config const&\)' % (sname, sname), 'linear')
        rec.functions.append(f)
        n = 6 if sname == 'VectorState' else 36
        for size in [None] + list(range(0, n + 2)):
            ex = ctx.executor(CT.config_contracts(ctx))
            st = State()
            conf = ex.alloc(st, 'conf')
            conf.cells[('g', 0)] = ('config', 'C')
            this = ex.alloc(st, 'S', size=ctx.lay.get(sname, 'linear')[0])
            h = CT.has('C', 'initial', 'vector')
            if size is None:
                st.assume(bnot(h))
                tag = "no 'initial'"
            else:
                st.assume(h)
                st.ghost[('size', 'C[initial]')] = ic(size)
                tag = "'initial' of %d values" % size
            rets = 0
            for r in ex.call(st, f, [Ptr(this.id, I0), Ptr(conf.id, I0)], ctx.prog.mods['linear']):
                s1 = r.state
                if not feasible(s1.pc):
                    continue
                if r.kind == 'throw':
                    P.fact('%s: accepted' % tag, size is not None and size > n, r.kind)
                    rets += 1
                    continue
                if r.kind != 'ret':
                    P.unknown('termination', r.kind)
                    continue
                rets += 1
                P.fact('%s: too long is rejected' % tag, size is None or size <= n)
                o = Obj(ctx, ex, s1.mem[this.id], 0, sname, 'linear')
                w = vals(ex, s1, o, sname)
                dflt = [R0] * 6 if sname == 'VectorState' else [R1 if k % 7 == 0 else R0 for k in range(36)]
                want = [relem('C[initial]', ic(k), 0) if size is not None and k < size else dflt[k] for k in range(n)]
                P.eqs('%s: initial values' % tag, s1.pc, [('[%d]' % k, a, b) for k, (a, b) in enumerate(zip(w, want))])
                sizes_ok(P, ex, s1, o, sname, tag)
                P.eq('%s: pos' % tag, s1.pc, o.get(s1, 'pos'), R0)
                P.eq('%s: next_elem' % tag, s1.pc, o.get(s1, 'next_elem', ('i', 64)), I0)
                P.holds('%s: forward' % tag, s1.pc, bnot(ex.tobool(o.get(s1, 'retreat', ('i', 8)))))
            P.fact('%s: outcome reachable' % tag, rets > 0)
        rec.functions.extend(g for g in ex.stats['functions'] if not build.is_library(g))
    return Task(label, run)


def copy_task(ctx, sname, what):
    label = '%s::%s' % (sname, what)

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        S, vt = lin_state(ctx, ex, st, sname)
        if what == 'clone':
            f = vslot(ctx, ex, st, vt, sname + r'::clone\(\) const')
            a = [S.ptr]
        else:
            D, _ = lin_state(ctx, ex, st, sname, 'D')
            f = vslot(ctx, ex, st, vt, sname + r'::assign\(StateBase const&\)')
            a = [D.ptr, S.ptr]
        rec.functions.append(f)
        s0 = st.clone()
        rets = 0
        for r in ex.call(st, f, a, ctx.prog.mods['linear']):
            s1 = r.state
            if not feasible(s1.pc):
                continue
            if r.kind != 'ret':
                P.fact('returns normally', False, r.kind)
                continue
            rets += 1
            if what == 'clone':
                C = Obj(ctx, ex, s1.mem[r.value.r], 0, sname, 'linear')
                P.fact('a new object', r.value.r != S.reg.id)
                P.fact('dynamic type', ex.load(s1, r.value, PTR) == ex.load(s1, S.ptr, PTR))
                P.eq('clone starts at the first element', s1.pc, C.get(s1, 'next_elem', ('i', 64)), I0)
                P.holds('clone starts forward', s1.pc, bnot(ex.tobool(C.get(s1, 'retreat', ('i', 8)))))
                p_ = ex.load(s1, C.p('pyptr'), PTR)
                P.fact('clone has no interpreter wrapper', isinstance(p_, Ptr) and p_.r is None or p_ == NULL or (isinstance(p_, T) and p_ is I0), repr(p_))
            else:
                C = D
                frame_unchanged(P, 'direction and position in the machine are kept', ex, s0, s1, D.reg.id,
                                [(D.off('pos'), D.off('pos') + 8), (D.off('state'), ctx.lay.get(sname, 'linear')[0])])
            P.eqs(what + ': state', s1.pc, [('[%d]' % k, x, y) for k, (x, y) in enumerate(zip(vals(ex, s1, C, sname), vals(ex, s0, S, sname)))])
            P.eq(what + ': pos', s1.pc, C.get(s1, 'pos'), S.get(s0, 'pos'))
            sizes_ok(P, ex, s1, C, sname, what)
            frame_unchanged(P, 'source unchanged', ex, s0, s1, S.reg.id)
        P.fact('normal return reachable', rets > 0)
        if what == 'assign':
            st = s0.clone()
            o2 = ex.alloc(st, 'other', size=64)
            o2.tag = ('obj', '_ZTI11' + [x for x in STATES if x != sname][0])
            for r in ex.call(st, f, [D.ptr, Ptr(o2.id, I0)], ctx.prog.mods['linear']):
                if feasible(r.state.pc):
                    P.fact('a state of another type is rejected', r.kind == 'throw', r.kind)
                    frame_unchanged(P, 'unchanged when rejected', ex, s0, r.state, D.reg.id)
    return Task(label, run)


def array_task(ctx, sname):
    label = sname + '::getArray'

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        S, vt = lin_state(ctx, ex, st, sname)
        f = vslot(ctx, ex, st, vt, sname + r'::getArray\(.*\)')
        rec.functions.append(f)
        own = lambda p: Ptr(S.reg.id, ic(S.off(p)))
        W = {'next_elem': (own('next_elem'), 1, [], []), 'pos': (own('pos'), 0, [], []),
             'state': (own('state.data_.data_'), 0, [6] if sname == 'VectorState' else [6, 6], [8] if sname == 'VectorState' else [48, 8])}
        SS.introspect(ctx, ex, st, P, f, S.ptr, W, 'linear', 8)
    return Task(label, run)


def source_task(ctx, sname):
    label = 'ElementSource<%s>::advance' % sname

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        st = State()
        S, _ = lin_state(ctx, ex, st, sname)
        er = elem_rec('ElementSource', sname)
        e = ex.alloc(st, 'E', size=ctx.lay.get(er, 'linear')[0], base='sym')
        off = ctx.lay.off(er, 'istate', 'linear')
        I, _ = lin_state(ctx, ex, st, sname, 'I')
        # the embedded initial state: same cells at offset `istate`
        for k, cell in I.reg.cells.items():
            if isinstance(k, int):
                st.rw(e.id).cells[k + off] = cell
        vt = vtable_ptr(ctx, ex, st, 'N12_GLOBAL__N_113ElementSourceI17LinearElementBaseI11%sEEE' % sname, 'linear')
        ex.store(st, Ptr(e.id, I0), vt, PTR)
        st.rw(e.id).cells[('tag', off)] = ('obj', '_ZTI11' + sname)
        f = vslot(ctx, ex, st, vt, r'.*::advance\(StateBase&\)')
        rec.functions.append(f)
        O_ = Obj(ctx, ex, st.mem[e.id], off, sname, 'linear')
        s0 = st.clone()
        rets = 0
        for r in ex.call(st, f, [Ptr(e.id, I0), S.ptr], ctx.prog.mods['linear']):
            s1 = r.state
            if not feasible(s1.pc):
                continue
            if r.kind != 'ret':
                P.fact('returns normally', False, r.kind)
                continue
            rets += 1
            b = off + S.off('state.data_.data_')
            init = [ex.load(s0, Ptr(e.id, ic(b + 8 * k)), ('d',)) for k in range(6 if sname == 'VectorState' else 36)]
            P.eqs('state = initial state', s1.pc, [('[%d]' % k, x, y) for k, (x, y) in enumerate(zip(vals(ex, s1, S, sname), init))])
            P.eq('position reset', s1.pc, S.get(s1, 'pos'), ex.load(s0, Ptr(e.id, ic(off + S.off('pos'))), ('d',)))
            frame_unchanged(P, 'element unchanged', ex, s0, s1, e.id)
        P.fact('normal return reachable', rets > 0)
    return Task(label, run)


def tasks(ctx):
    ts = []
    for s in STATES:
        ts += [ctor_task(ctx, e, s) for e in ELEMS]
        ts += [advance_task(ctx, s), state_ctor_task(ctx, s), copy_task(ctx, s, 'clone'), copy_task(ctx, s, 'assign'), array_task(ctx, s), source_task(ctx, s)]
    return ts
