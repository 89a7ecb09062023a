"""Machine::propagate: contract of one propagation over the line, for every line, start, count and direction.

The loop is cut at its header.  Initiation: the first arrival at the header has the start element selected, the
direction set from the sign of max, and nothing executed.  Consecution: in a generic iteration k the body executes exactly
element start+-k (the element sees the already moved next_elem and the direction), then the observer of that element if it
has one, and moves on by one in the requested direction.  Exit: only when max elements were executed or the line is left."""
from verify import *

TUS = ['base', 'inst']
NE, RT = 8, 24


class World:
    def __init__(self, ctx, P, ex, st, back):
        self.ctx, self.P, self.ex, self.back = ctx, P, ex, back
        L = ctx.lay
        self.obs_off = L.off('ElementVoid', 'p_observe', 'base')
        n = ivar('n')
        ex.nonneg = ex.nonneg | {'n', 'start', 'm'}
        st.assume(ile(I0, n))
        st.assume(ile(n, ic(2 ** 40)))
        self.n = n
        self.start = ivar('start')
        st.assume(ile(I0, self.start))
        self.m = ivar('m')                     # |max|
        st.assume(ile(I0, self.m))
        st.assume(ile(self.m, ic(2 ** 31 - 1)))
        if back:
            st.assume(ile(I1, self.m))
        self.S = new_obj(ctx, ex, st, 'StateBase', 'S', tu='base')
        vt = ex.alloc(st, 'vtable')
        vt.names = {}
        for k in range(0, 16):
            vt.cells[8 * k] = (8, Ptr('fn:__v%d' % k, I0))
        self.vt = vt
        ov = ex.alloc(st, 'observer-vtable')
        for k in range(0, 8):
            ov.cells[8 * k] = (8, Ptr('fn:__o%d' % k, I0))
        self.ov = ov
        self.M = ex.alloc(st, 'Machine', base='sym', size=L.size('Machine', 'base') if hasattr(L, 'size') else 512)
        d = ex.alloc(st, 'p_elements', base='sym', stride=8, layout={0: (8, 'P')}, count=n, fam=self.elem)
        o = L.off('Machine', 'p_elements', 'base')
        for a, w in ((0, I0), (8, iscale(n, 8)), (16, iscale(n, 8))):
            ex.store(st, Ptr(self.M.id, ic(o + a)), Ptr(d.id, w), PTR)
        tr = ex.alloc(st, 'trace', base='sym')
        tr.nullcond = pred('notrace')
        self.tr = tr
        ex.store(st, Ptr(self.M.id, ic(L.off('Machine', 'p_trace', 'base'))), Ptr(tr.id, I0), PTR)
        ex.contracts['__v3'] = self.advance
        ex.contracts['__o2'] = self.view
        for k in list(range(0, 3)) + list(range(4, 16)):
            ex.contracts['__v%d' % k] = self.other
        for k in (0, 1, 3, 4, 5, 6, 7):
            ex.contracts['__o%d' % k] = self.other
        for nme in ctx.lib.dm:
            d_ = ctx.lib.dm[nme]
            if d_.startswith('operator<<(std::ostream&, StateBase const&)') or 'operator<<' in d_ and 'StateBase const&' in d_:
                ex.contracts[nme] = lambda ex, st, a, n: a[0]

    def elem(self, ex, st, reg, i, off):
        key = ('elem', i)
        r = st.ghost.get(key)
        if r is None:
            e = new_obj(self.ctx, ex, st, 'ElementVoid', 'E[%s]' % (i,), tu='base')
            ex.store(st, e.ptr, Ptr(self.vt.id, I0), PTR)
            ob = ex.alloc(st, 'observer[%s]' % (i,), base='sym')
            ob.nullcond = pred('noobserver', i)
            ex.store(st, Ptr(ob.id, I0), Ptr(self.ov.id, I0), PTR)
            ex.store(st, Ptr(e.reg.id, ic(self.obs_off)), Ptr(ob.id, I0), PTR)
            st.ghost[key] = e.reg.id
            st.ghost[('elemof', e.reg.id)] = i
            st.ghost[('obsof', ob.id)] = i
            r = e.reg.id
        return Ptr(r, I0)

    def ne(self, st):
        return self.ex.load(st, Ptr(self.S.reg.id, ic(NE)), ('i', 64))

    def rt(self, st):
        return self.ex.load(st, Ptr(self.S.reg.id, ic(RT)), ('i', 8))

    def advance(self, ex, st, a, n):
        st.trace.append(('advance', st.ghost.get(('elemof', a[0].r)), a[1], self.ne(st), self.rt(st)))
        s2 = st.clone()
        s2.trace.append(('raised',))
        return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])

    def view(self, ex, st, a, n):
        st.trace.append(('view', st.ghost.get(('obsof', a[0].r)), st.ghost.get(('elemof', a[1].r)) if isinstance(a[1], Ptr) else None, a[2]))
        s2 = st.clone()
        s2.trace.append(('raised',))
        return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])

    def other(self, ex, st, a, n):
        raise Unknown("unexpected virtual call " + str(n))


def events(st):
    return [t for t in st.trace if t[0] in ('advance', 'view', 'raised')]


def propagate_task(ctx, back):
    label = 'Machine::propagate (%s)' % ('backward' if back else 'forward')

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'Machine::propagate\(StateBase\*, unsigned long, int\) const', 'base')
        rec.functions.append(f)
        ex = ctx.executor()
        st = State()
        W = World(ctx, P, ex, st, back)
        fn_ = ctx.prog.find(f, ctx.prog.mods['base'])
        mx = ineg_(W.m) if back else W.m
        sg = -1 if back else 1
        S0 = st.clone()
        # ---------------- initiation: run to the first loop header (or straight out)
        base = len(st.frames)
        ex.push(st, fn_, [Ptr(W.M.id, I0), W.S.ptr, W.start, mx])
        allb = set(fn_.blocks)
        heads = set(fn_.loops)
        todo = []
        if not heads:
            raise Unknown("no loop at the level of propagate()")
        outs = run_to(ex, st, base, heads)
        want_rt = I1 if back else I0
        cuts = {}
        for o in outs:
            s = o.state
            if not feasible(s.pc):
                continue
            if o.kind == 'stop' and o.info[0] == 'back':
                P.fact('initiation: nothing executed before the loop', not events(s), str(events(s)))
                P.eq('initiation: start element selected', s.pc, W.ne(s), W.start)
                P.eq('initiation: direction = sign of the count', s.pc, W.rt(s), want_rt)
                cuts.setdefault(o.info[1], []).append(s)
            elif o.kind == 'ret':
                P.fact('nothing executed', not events(s), str(events(s)))
                P.eq('start element selected', s.pc, W.ne(s), W.start)
                P.eq('direction = sign of the count', s.pc, W.rt(s), want_rt)
                P.holds('early return only when there is nothing to do', s.pc, bor(ieq(W.m, I0), ile(W.n, W.start)))
            else:
                P.fact('no exception before the first element', False, o.kind)
        P.fact('loop reached', len(cuts) > 0)
        for h, ss in cuts.items():
            for s in ss:
                iteration(ctx, ex, P, W, fn_, base, h, s, sg, want_rt)
    return Task(label, run)


def ineg_(x):
    return iscale(x, -1)


def run_to(ex, st, base, heads):
    """run until a loop header of the top function is reached for the first time"""
    out = []
    depth = len(st.frames)

    class Any:
        def __eq__(self, o):
            return o in heads

        def __hash__(self):
            return 0

    class All:
        def __contains__(self, o):
            return True
    return ex.run([st], base, (depth, Any(), All()))


def header_vals(ex, s, fn_, h, W):
    v = {('reg', ph.res): s.frames[-1].regs[ph.res] for ph in fn_.blocks[h].phis}
    v['ne'] = W.ne(s)
    return v


def put(ex, s, W, vals):
    for l, v in vals.items():
        if l == 'ne':
            ex.store(s, Ptr(W.S.reg.id, ic(NE)), v, ('i', 64))
        else:
            s.frames[-1].regs[l[1]] = v


def iteration(ctx, ex, P, W, fn_, base, h, s0, sg, want_rt):
    depth = len(s0.frames)
    lc = (depth, h, fn_.loops[h])
    init = header_vals(ex, s0, fn_, h, W)
    # pass 1: constant steps
    s = s0.clone()
    s.frames[-1].loops = {}
    hv = {}
    for l, v in init.items():
        if isinstance(v, Ptr):
            hv[l] = Ptr(v.r, ivar(fresh('hp')))
        elif isinstance(v, T) and v.sort == 'I':
            hv[l] = ivar(fresh('hi'))
        else:
            raise Unknown("loop-carried value %r" % (v,))
    hv['ne'] = ivar('cur')
    s.assume(ile(I0, hv['ne']))
    s.ghost['nobounds'] = True
    put(ex, s, W, hv)
    res = ex.run([s], base, lc)
    backs = [r for r in res if r.kind == 'stop' and r.info[0] == 'back' and feasible(r.state.pc)]
    if not backs:
        P.fact('the loop repeats', False)
        return
    st_ = {}
    for l, v in hv.items():
        news = [header_vals(ex, b.state, fn_, h, W)[l] for b in backs]
        d = ex.const_step(v, news)
        if d is None:
            if all(same(x, v) for x in news):
                d = I0
            else:
                raise Unknown("loop-carried value without a constant step")
        st_[l] = d
    P.eq('consecution: moves on by one element in the requested direction', [], st_['ne'], ic(sg))
    if icst(st_['ne']) != sg:
        return
    # pass 2: the generic iteration k
    k = ivar('k')
    ex.nonneg = ex.nonneg | {'k'}
    s = s0.clone()
    s.frames[-1].loops = {}
    s.assume(ile(I0, k))
    s.assume(ile(k, W.m))
    cur = iadd(W.start, iscale(k, sg))
    if sg < 0:
        s.assume(ile(k, iadd(W.start, I1)))
    vals = {l: (Ptr(v.r, iadd(v.o, imul(st_[l], k))) if isinstance(v, Ptr) else iadd(v, imul(st_[l], k))) for l, v in init.items()}
    put(ex, s, W, vals)
    go = band(ile(I0, cur), ilt(cur, W.n), ilt(k, W.m))
    res = ex.run([s], base, lc)
    nb = ne_ = 0
    for o in res:
        s1 = o.state
        if not feasible(s1.pc):
            continue
        ev = events(s1)
        kind = o.info[0] if o.kind == 'stop' else o.kind
        adv = [e for e in ev if e[0] == 'advance']
        view = [e for e in ev if e[0] == 'view']
        if kind == 'back':
            nb += 1
            P.holds('consecution: executes only inside the line and within the count', s1.pc, go)
            P.fact('consecution: exactly one element executed', len(adv) == 1, str(ev))
            if len(adv) != 1:
                continue
            check_adv(P, W, s1, adv[0], cur, sg, want_rt, 'consecution')
            P.eq('consecution: direction kept', s1.pc, W.rt(s1), want_rt)
            P.eq('consecution: next element', s1.pc, W.ne(s1), iadd(cur, ic(sg)))
            check_view(P, W, s1, ev, view, cur)
        elif kind in ('exit', 'ret'):
            ne_ += 1
            P.fact('exit: nothing executed on the way out', not ev, str(ev))
            P.holds('exit: only when the count is exhausted or the line is left', s1.pc, bnot(go))
            P.eq('exit: next element left at the first one not executed', s1.pc, W.ne(s1), cur)
            if kind == 'exit':
                after(ex, P, W, s1, base, cur, want_rt)
        elif kind == 'throw':
            P.fact('exception: raised by an element or observer only', bool(ev) and ev[-1][0] == 'raised', str(ev))
            P.fact('exception: propagation stops at the failing element', len(adv) == 1, str(ev))
            if len(adv) == 1:
                check_adv(P, W, s1, adv[0], cur, sg, want_rt, 'exception')
        else:
            P.unknown('generic iteration', kind)
    P.fact('consecution reachable', nb > 0)
    P.fact('exit reachable', ne_ > 0)


def after(ex, P, W, s, base, cur, want_rt):
    """from the loop exit to the return"""
    s.frames[-1].loops = {}
    for o in ex.run([s], base):
        s1 = o.state
        if not feasible(s1.pc):
            continue
        P.fact('after the loop: returns', o.kind == 'ret', o.kind)
        P.fact('after the loop: nothing executed', not events(s1), str(events(s1)))
        P.eq('after the loop: next element', s1.pc, W.ne(s1), cur)
        P.eq('after the loop: direction', s1.pc, W.rt(s1), want_rt)


def check_adv(P, W, s1, a, cur, sg, want_rt, w):
    _, i, S, ne, rt = a
    P.fact(w + ': executed object is an element of the line', i is not None)
    if i is None:
        return
    P.eq(w + ': executed element is the selected one', s1.pc, i, cur)
    P.fact(w + ': element is given the propagated state', isinstance(S, Ptr) and S.r == W.S.reg.id and S.o is I0)
    P.eq(w + ': element sees the next element already moved', s1.pc, ne, iadd(cur, ic(sg)))
    P.eq(w + ': element sees the direction', s1.pc, rt, want_rt)


def check_view(P, W, s1, ev, view, cur):
    P.fact('observer: at most one notification', len(view) <= 1, str(ev))
    no = pred('noobserver', cur)
    if not view:
        P.holds('observer: notified whenever attached', s1.pc, no)
        return
    P.fact('observer: after the element has executed', [e[0] for e in ev] == ['advance', 'view'], str(ev))
    _, ob, el, S = view[0]
    P.fact('observer: of the executed element, given that element and the state', ob is not None and el is not None and isinstance(S, Ptr) and S.r == W.S.reg.id)
    if ob is not None and el is not None:
        P.eq('observer: belongs to the executed element', s1.pc, ob, cur)
        P.eq('observer: is given the executed element', s1.pc, el, cur)


def tasks(ctx):
    return [propagate_task(ctx, False), propagate_task(ctx, True)]
