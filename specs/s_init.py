"""Construction of a MomentState from a configuration: charge states, particles, initial moments."""
from verify import *
from loopcut import Cut
from s_base import run_to
from s_advance import h_rms, vslot

TUS = ['moment', 'base', 'moment_sup', 'inst']
LS = r'bool \(anonymous namespace\)::load_storage<boost::numeric::ublas::bounded_array<double, %dul, std::allocator<double>>>\(.*'


def cell(ex, s, p, k):
    return ex.load(s, Ptr(p.r, iadd(p.o, ic(8 + 8 * k))), ('d',))


def load_task(ctx, size):
    label = 'load_storage<%d>' % size

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(LS % size, 'moment')
        rec.functions.append(f)
        for T in (1, 0):
            for n in ('exact', 'other', 'absent'):
                tag = '%s, vector %s' % ('required' if T else 'optional', n)
                ex = ctx.executor(CT.config_contracts(ctx))
                st = State()
                conf = ex.alloc(st, 'conf')
                conf.cells[('g', 0)] = ('config', 'C')
                nm = ex.alloc(st, 'name')
                nm.cells[('g', 0)] = ('lit', 'NAME')
                to = ex.alloc(st, 'to', size=8 + 8 * size)
                to.cells[0] = (8, ic(size))
                for k in range(size):
                    to.cells[8 + 8 * k] = (8, rvar('old%d' % k))
                h = CT.has('C', 'NAME', 'vector')
                st.assume(bnot(h) if n == 'absent' else h)
                if n == 'exact':
                    st.ghost[('size', 'C[NAME]')] = ic(size)
                elif n == 'other':
                    st.assume(bnot(ieq(ivar('n.C[NAME]'), ic(size))))
                outs = [o for o in ex.call(st, f, [Ptr(to.id, I0), Ptr(conf.id, I0), Ptr(nm.id, I0), ic(T)], ctx.prog.mods['moment']) if feasible(o.state.pc)]
                P.fact(tag + ': an outcome', bool(outs))
                for o in outs:
                    good = n == 'exact'
                    if o.kind == 'throw':
                        P.fact(tag + ': rejected', T == 1 and not good and o.exc[0] == '_ZTISt16invalid_argument', repr(o.exc))
                    else:
                        P.fact(tag + ': accepted', o.kind == 'ret' and (good or not T), o.kind)
                        if o.kind == 'ret':
                            b = ex.tobool(o.value)
                            P.holds(tag + ': result', o.state.pc, b if good else bnot(b))
                    if o.kind == 'ret':
                        P.eqs(tag + ': storage', o.state.pc, [('[%d]' % k, cell(ex, o.state, Ptr(to.id, I0), k), relem('C[NAME]', ic(k), 0) if good else rvar('old%d' % k)) for k in range(size)])
                        P.eq(tag + ': size', o.state.pc, ex.load(o.state, Ptr(to.id, I0), ('i', 64)), ic(size))
    return Task(label, run)


def good(nm, size):
    """the configuration has the vector nm of that many values"""
    return pred('vecof', repr(nm), size)


def val(nm, k):
    return rvar('%r[%d]' % (nm, k))


def h_load(size):
    def h(ex, st, a, n):
        if CT.confname(st, a[1]) != 'C':
            raise Unknown("load_storage from another configuration")
        nm = strval_(st, a[2])
        g = good(nm, size)
        T = ex.tobool(a[3])
        s2 = st.clone()
        st.assume(g)
        s2.assume(bnot(g))
        for k in range(size):
            ex.store(st, Ptr(a[0].r, iadd(a[0].o, ic(8 + 8 * k))), val(nm, k), ('d',))
        alts = [(st, TRUE)]
        d = ex.decide(s2, T)
        if d is None:
            raise Unknown("load_storage flag")
        alts.append((s2, Throw('_ZTISt16invalid_argument') if d else FALSE))
        return Fork(alts)
    return h


def strval_(st, p):
    return LIB.strval(st, p)


def h_lexcast(ex, st, a, n):
    """string of an unsigned integer"""
    LIB.gset(st, a[0], ('num', ex.load(st, a[1], ('i', 64))))


def setup(ctx, ics, cs):
    C = CT.config_contracts(ctx)
    for z in (7, 49):
        C[ctx.find(LS % z, 'moment').split(':')[-1]] = h_load(z)
    for n, d in ctx.lib.dm.items():
        if 'boost::lexical_cast<std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>, unsigned long>' in d.replace('> >', '>>'):
            C[n] = h_lexcast
    C[ctx.sym('MomentState::calc_rms()')] = h_rms
    C[RECALC] = h_recalc
    ex = ctx.executor(C)
    st = State()
    conf = ex.alloc(st, 'conf')
    conf.cells[('g', 0)] = ('config', 'C')
    for key, ty, b in (('IonChargeStates', 'vector', ics), ('cstate', 'double', cs)):
        h = CT.has('C', key, ty)
        st.assume(h if b else bnot(h))
    if cs:
        st.assume(ile(I0, idx_of(st)))       # an unsigned conversion
    S = ex.alloc(st, 'S', size=ctx.lay.get('MomentState', 'moment')[0])
    return ex, st, Ptr(conf.id, I0), S


def c_(k, d, ty='double'):
    h = CT.has('C', k, ty)
    return rite(h, CT.cval('C', k), d) if isinstance(d, T) else rite(h, CT.cval('C', k), R(d))


def names(pc):
    """the two name prefixes (symbolic or default)"""
    out = []
    for k, d in (('vector_variable', 'moment0'), ('matrix_variable', 'initial')):
        h = CT.has('C', k, 'string')
        if entails(pc, h):
            out.append(('sym', 'C[%s]' % k))
        elif entails(pc, bnot(h)):
            out.append(('lit', d))
        else:
            raise Unknown("name prefix undecided")
    return out


def ref_spec(Z, Q):
    return recalc_spec({'IonZ': Z, 'IonQ': Q, 'IonEs': c_('IonEs', 0.0), 'IonEk': c_('IonEk', 0.0), 'SampleFreq': c_('SampleFreq', 80.5e6), 'phis': R0})


def commons(P, tag, ex, s1, o, n):
    for k, v in o.sizes(s1).items():
        P.eq('%s: number of charge states (%s)' % (tag, k), s1.pc, v, n)
    P.eq(tag + ': path length', s1.pc, o.o.get(s1, 'pos'), R0)
    P.eq(tag + ': last_caviphi0', s1.pc, o.o.get(s1, 'last_caviphi0'), R0)
    P.eq(tag + ': positioned at the first element', s1.pc, o.o.get(s1, 'next_elem', ('i', 64)), I0)
    P.holds(tag + ': forward', s1.pc, bnot(ex.tobool(o.o.get(s1, 'retreat', ('i', 8)))))
    rms = [t for t in s1.trace if t[0] == 'rms']
    P.fact(tag + ': statistics computed once at the end', len(rms) == 1, str(len(rms)))
    for nm, sz in (('moment0_env', 7), ('moment0_rms', 7), ('moment1_env', 49)):
        P.eq('%s: size of %s' % (tag, nm), s1.pc, ex.load(s1, Ptr(o.o.reg.id, ic(o.o.off(nm) + (0 if sz == 7 else 16))), ('i', 64)), ic(sz))


class View(MState):
    def __init__(self, ctx, ex, s, reg):
        self.ctx, self.ex, self.tu = ctx, ex, 'moment'
        self.o = Obj(ctx, ex, s.mem[reg], 0, 'MomentState', 'moment')


def particle_eqs(P, name, pc, got, want):
    P.eqs(name, pc, [(q, got[q], want[q]) for q in PF])


def slot(P, tag, V, s, i, pc, m0, m1, pt):
    sI = s.clone()
    sI.pc = list(pc)
    P.eqs(tag + ': centroid', pc, [('[%d]' % k, a, b) for k, (a, b) in enumerate(zip(V.m0(sI, i), m0))])
    P.eqs(tag + ': covariance', pc, [('[%d,%d]' % (r, c), V.mat(sI, 'moment1', i)[r][c], m1[r][c]) for r in range(7) for c in range(7)])
    P.eqs(tag + ': transfer matrix', pc, [('[%d,%d]' % (r, c), V.mat(sI, 'transmat', i)[r][c], R1 if r == c else R0) for r in range(7) for c in range(7)])
    for nm, o, v in (('moment0', 0, 7), ('moment1', 0, 7), ('moment1', 8, 7), ('moment1', 16, 49), ('transmat', 0, 7), ('transmat', 8, 7), ('transmat', 16, 49)):
        P.eq('%s: dimensions of %s' % (tag, nm), pc, V.o.velem(sI, nm, i, o, ('i', 64)), ic(v))
    particle_eqs(P, tag + ': particle', pc, V.real(sI, i), pt)


def ctor_task(ctx, ics, cs):
    label = 'MomentState::MomentState, %s, %s' % ('IonChargeStates' if ics else 'no IonChargeStates', 'cstate' if cs else 'no cstate')

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'MomentState::MomentState\(Config const&\)', 'moment')
        rec.functions.append(f)
        ex, st, conf, S = setup(ctx, ics, cs)
        I7 = [[R1 if r == c else R0 for c in range(7)] for r in range(7)]
        mod = ctx.prog.mods['moment']
        if not ics:
            n = 0
            for o in ex.call(st, f, [Ptr(S.id, I0), conf], mod):
                s = o.state
                if not feasible(s.pc):
                    continue
                n += 1
                if cs:
                    P.fact('cstate without IonChargeStates is rejected', o.kind == 'throw' and o.exc[0] == '_ZTISt16invalid_argument', o.kind)
                    continue
                P.fact('accepted', o.kind == 'ret', repr(o.exc))
                if o.kind != 'ret':
                    continue
                vn, mn = names(s.pc)
                V = View(ctx, ex, s, S.id)
                w = ref_spec(c_('IonZ', 0.0), c_('IonQ', 1.0))
                particle_eqs(P, 'reference', s.pc, V.ref(s), w)
                m0 = [val(vn, k) for k in range(7)] if entails(s.pc, good(vn, 7)) else [R0] * 7
                m1 = [[val(mn, 7 * r + c) for c in range(7)] for r in range(7)] if entails(s.pc, good(mn, 49)) else I7
                slot(P, 'single state', V, s, I0, s.pc, m0, m1, w)
                commons(P, 'single state', ex, s, V, I1)
            P.fact('outcomes reachable', n > 0)
            return
        fn_ = ctx.prog.find(f, mod)
        heads = {h for h, b in fn_.loops.items() if any('load_storage' in str(i.a[0]) for x in b for i in fn_.blocks[x].instrs if i.op in ('call', 'invoke'))}
        if not heads:
            raise Unknown("loop over the charge states not found")
        heads = {h for h in heads if not any(h in fn_.loops[g] and g != h for g in heads)}
        base = len(st.frames)
        ex.push(st, fn_, [Ptr(S.id, I0), conf])
        nI, nN = ivar('n.C[IonChargeStates]'), ivar('n.C[NCharge]')
        icd = CT.cval('C', 'cstate')
        starts = []
        hasN = CT.has('C', 'NCharge', 'vector')
        for o in run_to(ex, st, base, heads):
            s = o.state
            if not feasible(s.pc):
                continue
            k = o.info[0] if o.kind == 'stop' else o.kind
            if k == 'throw':
                P.fact('rejected with invalid_argument or key_error', o.exc[0] in ('_ZTISt16invalid_argument', '_ZTI9key_error'), repr(o.exc))
                bad = bor(ieq(nI, I0), bnot(hasN), bnot(ieq(nI, nN)))
                if cs:
                    bad = bor(bad, ile(nI, idx_of(s)))
                P.holds('rejected only for missing or inconsistent charge states', s.pc, bad)
            elif k == 'back':
                starts.append((o.info[1], s))
            else:
                P.fact('no other outcome', False, k)
        P.fact('loop reached', bool(starts))
        for h, s0 in starts:
            one(P, ctx, ex, fn_, base, h, s0, S, cs, nI, nN, hasN)

    return Task(label, run, cost=20)


def idx_of(s):
    return iatom('f2i', CT.cval('C', 'cstate'))


def one(P, ctx, ex, fn_, base, h, s0, S, cs, nI, nN, hasN):
    P.holds('charge states accepted only when consistent', s0.pc, band(ilt(I0, nI), hasN, ieq(nI, nN)))
    m = I1 if cs else nI
    off = idx_of(s0) if cs else I0
    if cs:
        P.holds('selected charge state exists', s0.pc, ilt(off, nI))
    vn, mn = names(s0.pc)
    cut = Cut(ex, s0, base, fn_, h)
    k = ivar('k')
    ex.nonneg = ex.nonneg | {'k'}
    s = cut.at(k)
    s.assume(ile(I0, k))
    s.assume(ile(k, m))
    sk = s.clone()
    Z, Q = relem('C[IonChargeStates]', iadd(off, k), 0), relem('C[NCharge]', iadd(off, k), 0)
    refZ, refQ = c_('IonZ', relem('C[IonChargeStates]', I0, 0)), c_('IonQ', relem('C[NCharge]', I0, 0))
    wr = ref_spec(refZ, refQ)
    kinds = set()
    num = ('num', iadd(off, k))
    kv, km = ('cat', vn, num), ('cat', mn, num)
    ok = band(good(kv, 7), good(km, 49))
    for o in cut.run(s):
        s1 = o.state
        if not feasible(s1.pc):
            continue
        kind = o.info[0] if o.kind == 'stop' else o.kind
        if kind == 'back':
            kinds.add(kind)
            P.holds('every charge state needs its centroid and covariance', s1.pc, band(ilt(k, m), ok))
            V = View(ctx, ex, s1, S.id)
            m0 = [val(kv, j) for j in range(7)]
            m1 = [[val(km, 7 * r + c) for c in range(7)] for r in range(7)]
            pt = dict(wr)
            pt.update(IonZ=Z, IonQ=Q, phis=m0[4], IonEk=radd(wr['IonEk'], rmul(m0[5], R(1e6))))
            pt = recalc_spec({q: pt[q] for q in INDEP})
            slot(P, 'charge state k', V, s1, k, s1.pc, m0, m1, pt)
            particle_eqs(P, 'reference', s1.pc, V.ref(s1), wr)
            j = ivar('j')
            pc = s1.pc + [ile(I0, j), ilt(j, m), bnot(ieq(j, k))]
            if feasible(pc):
                a, b = s1.clone(), sk.clone()
                a.pc = b.pc = list(pc)
                fr = []
                for nm, w in (('moment0', range(8, 64, 8)), ('moment1', range(24, 416, 8)), ('transmat', range(24, 416, 8)), ('real', [PO[q] for q in PF])):
                    fr += [('%s+%d' % (nm, w_), V.o.velem(a, nm, j, w_), V.o.velem(b, nm, j, w_)) for w_ in w]
                P.eqs('other charge states unchanged', pc, fr)
        elif kind == 'exit':
            s1.frames[-1].loops = {}
            for o2 in ex.run([s1], base):
                s2 = o2.state
                if not feasible(s2.pc):
                    continue
                kinds.add(o2.kind)
                if o2.kind == 'throw':
                    P.fact('rejected with invalid_argument', o2.exc[0] == '_ZTISt16invalid_argument', repr(o2.exc))
                    P.holds('rejected only without centroid or covariance of a charge state', s2.pc, bnot(ok))
                    continue
                P.holds('ends after the last charge state', s2.pc, ieq(k, m))
                V = View(ctx, ex, s2, S.id)
                particle_eqs(P, 'reference', s2.pc, V.ref(s2), wr)
                commons(P, 'charge states', ex, s2, V, m)
        elif kind == 'throw':
            kinds.add('throw')
            P.fact('rejected with invalid_argument', o.exc[0] == '_ZTISt16invalid_argument', repr(o.exc))
            P.holds('rejected only without centroid or covariance of a charge state', s1.pc, bnot(ok))
        else:
            P.fact('no other outcome', False, kind)
    P.fact('all outcomes reachable', {'back', 'ret', 'throw'} <= kinds, repr(kinds))


def tasks(ctx):
    return [load_task(ctx, 7), load_task(ctx, 49)] + [ctor_task(ctx, a, b) for a in (0, 1) for b in (0, 1)]


def source_task(ctx):
    label = 'ElementSource::advance'

    def run(rec):
        P = Prover(rec, label)
        ex0 = ctx.executor()
        cls = '(anonymous namespace)::ElementSource'
        asg = ctx.find(r'MomentState::assign\(StateBase const&\)', 'moment').split(':')[-1]

        def h_assign(ex, st, a, n):
            st.trace.append(('assign', a[0], a[1]))
        ex = ctx.executor({asg: h_assign})
        for rt in (0, 1):
            st = State()
            n = ivar('n')
            st.assume(ile(I0, n))
            S = MState(ctx, ex, st, n)
            e = new_obj(ctx, ex, st, cls, 'E', tu='moment')
            vt = vtable_ptr(ctx, ex, st, 'N12_GLOBAL__N_113ElementSourceE', 'moment')
            ex.store(st, e.ptr, vt, PTR)
            S.o.set(st, 'retreat', ic(rt), ('i', 8))
            f = vslot(ctx, ex, st, vt, re.escape(cls) + r'::advance\(StateBase&\)')
            if f not in rec.functions:
                rec.functions.append(f)
            s0 = st.clone()
            d = 'backward' if rt else 'forward'
            k = 0
            for o in ex.call(st, f, [e.ptr, S.ptr], ctx.prog.mods['moment']):
                s = o.state
                if not feasible(s.pc):
                    continue
                k += 1
                P.fact(d + ': returns', o.kind == 'ret', o.kind)
                a = [t for t in s.trace if t[0] == 'assign']
                if rt:
                    P.fact('backward: the state is not touched', not a)
                else:
                    ok = len(a) == 1 and a[0][1].r == S.ptr.r and icst(a[0][1].o) == 0 and a[0][2].r == e.reg.id and icst(a[0][2].o) == e.off('istate')
                    P.fact('forward: the state becomes the initial state of the source', ok, repr(a))
                frame_unchanged(P, d + ': nothing else of the state changes', ex, s0, s, S.o.reg.id)
                frame_unchanged(P, d + ': the source does not change', ex, s0, s, e.reg.id)
            P.fact(d + ': outcome reachable', k > 0)
    return Task(label, run)


_tasks = tasks


def tasks(ctx):
    return _tasks(ctx) + [source_task(ctx)]
