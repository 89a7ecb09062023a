"""Machine: construction of the line, lookup by name and type, reconfigure, registration of simulation types.

Registry, lookup tables and the element list are ghost values (finite maps, a list of pushed elements); element builders and
elements are reached through their virtual interface only, whose contracts (discharged per element class by the reconfigure
property) are: build(c) yields a new element constructed from c or raises; rebuild(E, c, i) either raises and leaves E as it
was, or makes E the element built from c with index i."""
from verify import *
import gmap as G
from s_base import run_to
from loopcut import Cut

TUS = ['base', 'inst']
UMAX = ic(-1)          # 2^64-1, as the executor writes unsigned constants


def gname(ctx, w):
    for g in ctx.prog.mods['base'].globals_src:
        if re.match(r'_ZN7Machine\d+%s(B|E)' % w, g):
            return g
    raise Unknown('no global ' + w)


def fnvt(ex, st, name, hs, n=16):
    """a vtable region with handlers per slot"""
    r = ex.alloc(st, 'vtable of ' + name)
    for k in range(n):
        f = '__%s_%d' % (name, k)
        r.cells[8 * k] = (8, Ptr('fn:' + f, I0))
        ex.contracts[f] = hs.get(k, other)
    return r


def other(ex, st, a, n):
    raise Unknown("unexpected virtual call " + str(n))


def confid(st, p):
    reg = st.mem[p.r]
    if reg.tag and reg.tag[0] == 'confvec':
        i = idiv(p.o, 32)
        return 'E', i
    g = G.gget(st, p)
    if g is None or g[0] != 'config':
        raise Unknown("Config object without value")
    return g[1], None


def chas(c, k, t):
    return pred('has', c[0], k, t) if c[1] is None else pred('has', c[0], c[1], k, t)


def cstr_(c, k):
    return ('sym', '%s[%s]' % (c[0] if c[1] is None else '%s(%s)' % (c[0], c[1]), k))


def split(ex, st, h, yes, no):
    d = ex.decide(st, h)
    if d is True:
        return yes(st)
    if d is False:
        return no(st)
    s2 = st.clone()
    st.assume(h)
    s2.assume(bnot(h))
    return Fork([(st, yes(st)), (s2, no(s2))])


def h_gets(ex, st, a, n):
    c, k = confid(st, a[0]), CT.keyname(G.strval(st, a[1]))

    def yes(s):
        r = ex.alloc(s, 'confstr')
        r.cells[('g', 0)] = cstr_(c, k)
        return Ptr(r.id, I0)
    return split(ex, st, chas(c, k, 'string'), yes, (lambda s: a[2]) if len(a) > 2 else (lambda s: s.trace.append(('noconf', c, k)) or Throw('_ZTI9key_error', exc(ex, s, '_ZTI9key_error'))))


def exc(ex, st, ti):
    vt = fnvt(ex, st, 'exc', {2: lambda ex, st, a, n: cs(ex, st, ('sym', 'what'))}, 4)
    m = ex.ctx.prog.mods['base']
    # typeid(e): vtable[-1]
    big = ex.alloc(st, 'exception vtable')
    big.cells[8] = (8, ex.gptr(st, ti, m))
    for k in range(4):
        big.cells[16 + 8 * k] = vt.cells[8 * k]
    r = ex.alloc(st, 'exception object')
    r.cells[0] = (8, Ptr(big.id, ic(16)))
    return Ptr(r.id, I0)


def cs(ex, st, v):
    r = ex.alloc(st, 'cstr')
    r.tag = ('cstr', v)
    return Ptr(r.id, I0)


class MW:
    def __init__(self, ctx, rec, label):
        self.ctx, self.rec = ctx, rec
        self.P = Prover(rec, label)
        ex = self.ex = ctx.executor(G.contracts(ctx))
        st = self.st = State()
        L = ctx.lay
        for n, d in ctx.lib.dm.items():
            if re.match(r'_ZNK6Config3getI' + CT.STRM, n):
                ex.contracts[n] = h_gets
            elif re.match(r'_ZNK6Config3getISt6vectorI(6Config|S_)', n):
                ex.contracts[n] = self.h_elements
            elif re.match(r'_ZN6ConfigC[12]ERKS_$|_ZN6ConfigaSERKS_$', n):
                ex.contracts[n] = self.conf_copy
            elif re.match(r'_ZN6ConfigD[12]Ev$|_ZN7Machine9LogRecordD|_ZN7Machine9LogRecordC', n):
                ex.contracts[n] = CT.h_noop
            elif n.startswith('_ZN7Machine9LogRecordls'):
                ex.contracts[n] = lambda ex, st, a, n: a[0]
            elif n.startswith('_ZN7Machine6detailEi'):
                ex.contracts[n] = lambda ex, st, a, n: pred('logging', fresh('lg'))
            elif d.startswith('std::vector<ElementVoid*'):
                s = build.strip_templates(d)
                for k, h in (('vector()', self.v_new), ('push_back(', self.v_push), ('swap(', self.v_swap), ('reserve(', CT.h_noop), ('~vector()', CT.h_noop)):
                    if s.startswith('std::vector::' + k):
                        ex.contracts[n] = h
            elif d.startswith('std::vector<Config') and '::vector(std::vector' in build.strip_templates(d):
                ex.contracts[n] = self.cv_copy
            elif n == 'pthread_mutex_lock':
                ex.contracts[n] = self.lock
            elif n == 'pthread_mutex_unlock':
                ex.contracts[n] = self.unlock
        for k in '12':
            ex.contracts['_ZN7Machine9LogRecordD%sEv' % k] = CT.h_noop
        ex.map_value = self.map_value
        ex.map_default = lambda vt: ('new',) if vt.startswith('Machine::state_info') else ('ptr', Ptr(None, I0))
        self.evt = fnvt(ex, st, 'element', {2: self.type_name})
        self.bvt = fnvt(ex, st, 'builder', {2: self.build, 3: self.rebuild})
        self.M = ex.alloc(st, 'Machine', base='sym', size=L.get('Machine', 'base')[0])
        self.Mp = Ptr(self.M.id, I0)
        o = lambda m: L.off('Machine', m, 'base')
        self.o_el, self.o_lk, self.o_lt, self.o_inf = o('p_elements'), o('p_lookup'), o('p_lookup_type'), o('p_info')
        self.o_name, self.o_idx = L.off('ElementVoid', 'name', 'base'), L.off('ElementVoid', 'index', 'base')
        self.infoff = L.off('Machine', 'p_info.elements', 'base') - self.o_inf
        self.o_bld = L.off('Machine', 'p_info.builder', 'base') - self.o_inf

    # ---- locks
    def lock(self, ex, st, a, n):
        st.ghost['lock'] = st.ghost.get('lock', 0) + 1
        return I0

    def unlock(self, ex, st, a, n):
        st.ghost['lock'] = st.ghost.get('lock', 0) - 1
        return I0

    def locks(self, s, w):
        self.P.fact('%s: registry lock released' % w, s.ghost.get('lock', 0) == 0, 'held %r times' % s.ghost.get('lock', 0))

    # ---- Config
    def conf(self, name):
        r = self.ex.alloc(self.st, name)
        r.cells[('g', 0)] = ('config', name)
        return Ptr(r.id, I0)

    def conf_copy(self, ex, st, a, n):
        c = confid(st, a[1])
        if c[1] is not None:
            raise Unknown("copy of an element configuration")
        G.gset(st, a[0], ('config', c[0]))
        return a[0]

    def h_elements(self, ex, st, a, n):
        c, k = confid(st, a[0]), CT.keyname(G.strval(st, a[1]))
        st.trace.append(('elements of', c, k))

        def yes(s):
            v = ex.alloc(s, 'elements')
            r = ex.alloc(s, 'elements[]', base='sym')
            r.tag = ('confvec',)
            nE = ivar('nE')
            ex.nonneg = ex.nonneg | {'nE'}
            s.assume(ile(I0, nE))
            for o, x in ((0, I0), (8, iscale(nE, 32)), (16, iscale(nE, 32))):
                ex.store(s, Ptr(v.id, ic(o)), Ptr(r.id, x), PTR)
            return Ptr(v.id, I0)
        return split(ex, st, chas(c, k, 'cvec'), yes, lambda s: Throw('_ZTI9key_error', exc(ex, s, '_ZTI9key_error')))

    def cv_copy(self, ex, st, a, n):
        for o in (0, 8, 16):
            ex.store(st, Ptr(a[0].r, iadd(a[0].o, ic(o))), ex.load(st, Ptr(a[1].r, iadd(a[1].o, ic(o))), PTR), PTR)

    # ---- element list
    def v_new(self, ex, st, a, n):
        G.gset(st, a[0], ('elems', ()))

    def v_push(self, ex, st, a, n):
        g = G.gget(st, a[0])
        if g is None or g[0] != 'elems':
            raise Unknown("push_back on an unknown list")
        G.gset(st, a[0], ('elems', g[1] + (ex.load(st, a[1], PTR),)))

    def v_swap(self, ex, st, a, n):
        x, y = G.gget(st, a[0]), G.gget(st, a[1])
        G.gset(st, a[0], y)
        G.gset(st, a[1], x)

    # ---- map values that are not variants
    def map_value(self, ex, st, p, mp, key, val, vt):
        if vt.startswith('Machine::element_builder_t'):
            if val[0] == 'ptr':
                ex.store(st, p, val[1], PTR)
                return
            b = ex.alloc(st, 'builder of %r' % (key,))
            b.cells[0] = (8, Ptr(self.bvt.id, I0))
            b.tag = ('builder', key, val)
            ex.store(st, p, Ptr(b.id, I0), PTR)
        elif vt.startswith('ElementVoid'):
            if val[0] == 'ptr':
                ex.store(st, p, val[1], PTR)
        elif vt.startswith('Machine::state_info'):
            reg = st.rw(p.r)
            o = icst(p.o)
            if val == ('new',):
                reg.cells[('g', o)] = ('lit', '')
                ex.store(st, Ptr(p.r, ic(o + self.o_bld)), Ptr(None, I0), PTR)
                reg.cells[('g', o + self.infoff)] = ('map', ('empty',))
                return
            reg.cells[('g', o)] = ('sym', 'info.name')
            ex.store(st, Ptr(p.r, ic(o + self.o_bld)), Ptr('fn:__statebuilder', I0), PTR)
            reg.cells[('g', o + self.infoff)] = ('map', ('m', 'builders'))
        else:
            raise Unknown("map of " + vt)

    # ---- virtual interface
    def type_name(self, ex, st, a, n):
        return cs(ex, st, ('sym', 'type_name'))

    def element(self, st, name, index):
        ex = self.ex
        e = new_obj(self.ctx, ex, st, 'ElementVoid', name, tu='base')
        ex.store(st, e.ptr, Ptr(self.evt.id, I0), PTR)
        if index is not None:
            ex.store(st, Ptr(e.reg.id, ic(self.o_idx)), index, ('i', 64))
        return e

    def ename(self, st, p):
        return G.strval(st, Ptr(p.r, iadd(p.o, ic(self.o_name))))

    def eidx(self, st, p):
        return self.ex.load(st, Ptr(p.r, iadd(p.o, ic(self.o_idx))), ('i', 64))

    def build(self, ex, st, a, n):
        tag = st.mem[a[0].r].tag
        st.trace.append(('build', tag[1], confid(st, a[1])))
        out = []
        for ti in ('_ZTI9key_error', '_ZTISt13runtime_error'):
            s = st.clone()
            s.trace.append(('raised', ti))
            out.append((s, Throw(ti, exc(ex, s, ti))))
        e = self.element(st, 'new', None)
        st.ghost[('built', e.reg.id)] = (tag[1], confid(st, a[1]))
        return Fork([(st, e.ptr)] + out)

    def rebuild(self, ex, st, a, n):
        tag = st.mem[a[0].r].tag
        st.trace.append(('rebuild', tag[1], a[1], confid(st, a[2]), a[3]))
        s2 = st.clone()
        s2.trace.append(('raised', '_ZTISt13runtime_error'))
        e = st.rw(a[1].r)
        e.cells[('g', self.o_name)] = ('sym', 'newname')
        ex.store(st, Ptr(a[1].r, ic(self.o_idx)), a[3], ('i', 64))
        return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error', exc(ex, s2, '_ZTISt13runtime_error')))])

    def map_at(self, s, off):
        return G.mapval(s, Ptr(self.M.id, ic(off)))


# ------------------------------------------------------------------ reconfigure
def resub(m, a, b):
    """m with b in place of a"""
    if m == a:
        return b
    return tuple(resub(x, a, b) for x in m) if isinstance(m, tuple) else m


def reconfigure_task(ctx):
    label = 'Machine::reconfigure'

    def run(rec):
        W = MW(ctx, rec, label)
        ex, st, P = W.ex, W.st, W.P
        f = ctx.find(r'Machine::reconfigure\(unsigned long, Config const&\)', 'base')
        n, idx = ivar('n'), ivar('idx')
        ex.nonneg = ex.nonneg | {'n', 'idx'}
        st.assume(ile(I0, n))
        st.assume(ile(I0, idx))
        d = ex.alloc(st, 'p_elements', base='sym', stride=8, layout={0: (8, 'P')}, count=n, fam=lambda ex, s, reg, i, off: elem(s, i))

        def elem(s, i):
            r = s.ghost.get(('elem', i))
            if r is None:
                e = W.element(s, 'E[%s]' % (i,), i)
                r = s.ghost[('elem', i)] = e.reg.id
            return Ptr(r, I0)
        for a, w in ((0, I0), (8, iscale(n, 8)), (16, iscale(n, 8))):
            ex.store(st, Ptr(W.M.id, ic(W.o_el + a)), Ptr(d.id, w), PTR)
        c = W.conf('c')
        for o, nm in ((W.o_lk, 'lookup'), (W.o_lt, 'lookup_type'), (W.o_inf + W.infoff, 'builders')):
            W.M.cells[('g', o)] = ('map', ('m', nm))
        elem(st, idx)
        s0 = st.clone()
        E = elem(st, idx)
        old = W.ename(s0, E)
        etype = cstr_(('c', None), 'type')
        known = pred('in', 'builders', etype)
        hast = chas(('c', None), 'type', 'string')
        outs = [o for o in ex.call(st, f, [W.Mp, idx, c]) if feasible(o.state.pc)]
        rec.functions.append(f)
        kinds = set()
        Lk, Lt = ('m', 'lookup'), ('m', 'lookup_type')
        for o in outs:
            s = o.state
            rb = [t for t in s.trace if t[0] == 'rebuild']
            raised = [t for t in s.trace if t[0] == 'raised']
            P.fact('type table unchanged', W.map_at(s, W.o_lt) == Lt)
            P.fact('builders unchanged', W.map_at(s, W.o_inf + W.infoff) == ('m', 'builders'))
            if o.kind == 'throw':
                kinds.add('raised' if raised else o.exc[0])
                P.fact('rejected: lookup by name unchanged', W.map_at(s, W.o_lk) == Lk)
                if raised:
                    P.fact('rejected by the builder: the error is passed on', o.exc[0] == raised[0][1], repr(o.exc))
                else:
                    P.fact('rejected: no element was touched', not rb)
                    P.fact('rejected: name and index kept', W.ename(s, E) == old)
                    P.holds('rejected only for a bad index, a missing or an unknown type', s.pc, bor(ile(n, idx), bnot(hast), bnot(known)))
                    P.fact('rejected with the documented error', o.exc[0] in ('_ZTISt16invalid_argument', '_ZTI9key_error', '_ZTISt12out_of_range'), repr(o.exc))
                if not rb:
                    continue
            else:
                kinds.add('ret')
                P.holds('accepted only for a valid index and a registered type', s.pc, band(ilt(idx, n), hast, known))
                P.fact('the element is rebuilt exactly once', len(rb) == 1, repr(rb))
            for t in rb[:1]:
                P.fact('rebuilt by the builder registered for the type', t[1] == etype, repr(t[1]))
                P.fact('the addressed element is rebuilt', isinstance(t[2], Ptr) and t[2].r == E.r, repr(t[2]))
                P.fact('rebuilt from the new configuration', t[3] == ('c', None), repr(t[3]))
                P.eq('rebuilt with its index', s.pc, t[4], idx)
            if o.kind == 'ret':
                new = W.ename(s, E)
                same = streq_(new, old)
                got = W.map_at(s, W.o_lk)
                # invariant of the line: the element is listed under its name and number
                base = ('put', Lk, ('key2', old, idx), ('ptr', E))
                got = resub(got, Lk, base)
                if feasible(s.pc + [same]):
                    G.map_eq(P, 'name kept: lookup by name unchanged', s.pc + [same], resub(got, new, old), base, ('key2', ('sym', '$any'), ivar('$anyi')))
                if feasible(s.pc + [bnot(same)]):
                    want = ('put', ('del', base, ('key2', old, idx)), ('key2', new, idx), ('ptr', E))
                    # the entry of the new name does not exist yet (indices are unique)
                    q = s.pc + [bnot(same), bnot(pred('in', 'lookup', ('key2', new, idx)))]
                    G.map_eq(P, 'name changed: old name removed, new name added', q, got, want, ('key2', ('sym', '$any'), ivar('$anyi')))
        P.fact('every outcome reachable', {'ret', 'raised', '_ZTISt16invalid_argument', '_ZTI9key_error'} <= kinds, repr(kinds))
    return Task(label, run)


def streq_(a, b):
    return G.streq(a, b)


# ------------------------------------------------------------------ constructor
def ghosts(s, frames=None):
    """all ghost maps and element lists of a state"""
    return {(rid, k): v for rid, reg in s.mem.items() for k, v in reg.cells.items()
            if isinstance(k, tuple) and k[0] == 'g' and isinstance(v, tuple) and v and v[0] in ('map', 'elems')}


def ctor_task(ctx):
    label = 'Machine::Machine'

    def run(rec):
        W = MW(ctx, rec, label)
        ex, st, P = W.ex, W.st, W.P
        f = ctx.find(r'Machine::Machine\(Config const&\)', 'base')
        rec.functions.append(f)
        c = W.conf('c')
        reg = ex.gptr(st, gname(ctx, 'p_state_infos'), ctx.prog.mods['base'])
        st.rw(reg.r).cells[('g', 0)] = ('map', ('m', 'registry'))
        fn_ = ctx.prog.find(f, ctx.prog.mods['base'])
        base = len(st.frames)
        ex.push(st, fn_, [W.Mp, c])
        outs = run_to(ex, st, base, walks(fn_))
        styp = cstr_(('c', None), 'sim_type')
        hs, he = chas(('c', None), 'sim_type', 'string'), chas(('c', None), 'elements', 'cvec')
        reg_ = pred('in', 'registry', styp)
        heads = []
        kinds = set()
        for o in outs:
            s = o.state
            if not feasible(s.pc):
                continue
            if o.kind == 'throw' or o.kind == 'stop' and o.info[0] == 'throw':
                kinds.add(o.exc[0])
                P.fact('rejected with key_error', o.exc[0] == '_ZTI9key_error', repr(o.exc))
                P.holds('rejected before the first element only for a missing or unregistered simulation type, or without elements', s.pc, bnot(band(hs, reg_, he)))
                W.locks(s, 'rejected')
            elif o.kind == 'stop' and o.info[0] == 'back':
                P.holds('elements are built only for a registered simulation type', s.pc, band(hs, reg_, he))
                heads.append((o.info[1], s))
            elif o.kind == 'ret':
                P.holds('empty line', s.pc, ieq(ivar('nE'), I0))
                final(W, s, None)
        if not heads:
            raise Unknown('element loop not found')
        P.fact('rejection reachable', '_ZTI9key_error' in kinds)
        for h, s in heads:
            loop(W, fn_, base, h, s)

    return Task(label, run, cost=5)


def walks(fn_):
    """loops that carry a value from one iteration to the next in a register or do more than retry one call"""
    return {h for h, b in fn_.loops.items() if len(b) > 1 or fn_.blocks[h].phis}


def loop(W, fn_, base, h, s0):
    ex, P, ctx = W.ex, W.P, W.ctx
    g0 = ghosts(s0)
    cut = Cut(ex, s0, base, fn_, h)
    if not cut.backs:
        raise Unknown('element loop not recognised')
    changed = set()
    for b in cut.backs:
        g1 = ghosts(b)
        changed |= {k for k in g0 if g1.get(k) != g0[k]}
    for k in changed:
        P.fact('tables start empty', g0[k] in (('map', ('empty',)), ('elems', ())), repr(g0[k]))
    # pass 2: generic iteration
    k = ivar('k')
    ex.nonneg = ex.nonneg | {'k'}
    s = cut.at(k)
    s.assume(ile(I0, k))
    s.assume(ile(k, ivar('nE')))
    for i, (rid, key) in enumerate(sorted(changed, key=str)):
        s.rw(rid).cells[key] = ('map', ('m', 'table%d' % i)) if g0[(rid, key)][0] == 'map' else ('elems', ('before',))
    gk = ghosts(s)
    EC = ('E', k)
    etype, ename = cstr_(EC, 'type'), None
    hast, known = chas(EC, 'type', 'string'), pred('in', 'builders', etype)
    role = {}
    kinds = set()
    outs = []
    for o in cut.run(s):
        if not feasible(o.state.pc):
            continue
        kind = o.info[0] if o.kind == 'stop' else o.kind
        if kind == 'exit':
            o.state.frames[-1].loops = {}
            for o2 in ex.run([o.state], base):
                if feasible(o2.state.pc):
                    outs.append((o2.kind, o2))
        else:
            outs.append((kind, o))
    # invariant of the tables: every key entered in iteration j carries the index j, so none carries the index k yet
    inv = [bnot(pred('in', gk[q][1][1], ('key2', nm_, k))) for q in changed if gk[q][0] == 'map' for nm_ in (('sym', 'new.name'), etype)]
    for kind, o in sorted(outs, key=lambda x: x[0] != 'back'):
        s1 = o.state
        if not feasible(s1.pc + inv):
            continue
        bl = [t for t in s1.trace if t[0] == 'build']
        raised = [t for t in s1.trace if t[0] == 'raised']
        if kind == 'back':
            kinds.add('back')
            P.holds('element built only if it exists, has a registered type and is of that type', s1.pc,
                    band(ilt(k, ivar('nE')), hast, known, streq_(('sym', 'type_name'), etype)))
            P.fact('exactly one element built per configuration, by the builder of its type, from it', bl == [('build', etype, EC)], repr(bl))
            if bl != [('build', etype, EC)]:
                continue
            E = [rid for rid in s1.mem if ('built', rid) in s1.ghost]
            Ep = Ptr(E[-1], I0)
            P.eq('element index = position in the line', s1.pc, W.eidx(s1, Ep), k)
            nm = W.ename(s1, Ep)
            P.fact('the name stays the one the builder gave', nm == ('sym', 'new.name'), repr(nm))
            g1 = ghosts(s1)
            seen = set()
            for gk_, v in g1.items():
                if gk_ not in gk or v == gk[gk_]:
                    continue
                if v[0] == 'elems':
                    P.fact('the new element is appended to the line', v[1] == ('before', Ep), repr(v))
                    role[gk_] = 'line'
                else:
                    kn, kt = ('key2', nm, k), ('key2', etype, k)
                    b = gk[gk_][1]
                    if v[1] == ('put', b, kn, ('ptr', Ep)) or samekey(s1.pc, v[1], b, kn, Ep):
                        role[gk_] = 'name'
                    elif v[1] == ('put', b, kt, ('ptr', Ep)) or samekey(s1.pc, v[1], b, kt, Ep):
                        role[gk_] = 'type'
                    else:
                        P.fact('the new element is entered under its name and under its type', False, repr(v))
                        continue
                seen.add(role[gk_])
            P.fact('the new element enters the line and both lookup tables', seen == {'line', 'name', 'type'}, repr(seen))
        elif kind == 'throw':
            x = o.exc[0]
            W.locks(s1, 'element rejected')
            if raised:
                want = '_ZTI9key_error' if raised[0][1] == '_ZTI9key_error' else '_ZTISt13runtime_error'
                kinds.add(want)
                P.fact('error of an element is reported as %s' % want[4:], x == want, repr(o.exc))
            elif x == '_ZTI9key_error':
                P.holds('key_error only for an element without type or with an unregistered type', s1.pc, bnot(band(hast, known)))
                kinds.add('nokey')
            else:
                P.fact('inconsistent type is a logic_error', x == '_ZTISt11logic_error', repr(o.exc))
                P.holds('inconsistent type', s1.pc, bnot(streq_(('sym', 'type_name'), etype)))
        elif kind == 'ret':
            kinds.add('exit')
            P.holds('the loop ends after the last element', s1.pc, ieq(k, ivar('nE')))
            P.fact('nothing built after the last element', not bl)
            final(W, s1, (gk, role))
        else:
            P.fact('no other outcome', False, kind)
    P.fact('all outcomes reachable', {'back', 'exit', 'nokey', '_ZTI9key_error', '_ZTISt13runtime_error'} <= kinds, repr(kinds))


def samekey(pc, v, b, key, Ep):
    return v[0] == 'put' and v[1] == b and v[3] == ('ptr', Ep) and entails(pc, G.keyeq(v[2], key))


def final(W, s, loopinfo):
    P = W.P
    W.locks(s, 'constructed')
    P.fact('simulation type recorded', any(v == cstr_(('c', None), 'sim_type') for k, v in s.mem[W.M.id].cells.items() if isinstance(k, tuple) and k[0] == 'g' and k[1] == W.ctx.lay.off('Machine', 'p_simtype', 'base')))
    P.fact('configuration recorded', s.mem[W.M.id].cells.get(('g', W.ctx.lay.off('Machine', 'p_conf', 'base'))) == ('config', 'c'))
    P.fact('element types of this simulation recorded', W.map_at(s, W.o_inf + W.infoff) == ('m', 'builders'), repr(W.map_at(s, W.o_inf + W.infoff)))
    cells = s.mem[W.M.id].cells
    if loopinfo is None:
        for o in (W.o_lk, W.o_lt):
            P.fact('tables of an empty line are empty', cells.get(('g', o)) == ('map', ('empty',)))
        return
    gk, role = loopinfo
    inv = {r: gk[k] for k, r in role.items()}
    for o, r in ((W.o_el, 'line'), (W.o_lk, 'name'), (W.o_lt, 'type')):
        got = cells.get(('g', o))
        P.fact('the %s table of the machine is the one filled' % r, r in inv and got == inv[r], '%r / %r' % (got, inv.get(r)))
    tr = W.ex.load(s, Ptr(W.M.id, ic(W.ctx.lay.off('Machine', 'p_trace', 'base'))), PTR)
    P.fact('no trace stream', tr.r is None)


# ------------------------------------------------------------------ lookup
NODE = 128


class LW(MW):
    """lookup tables as sorted sequences: iterators are positions"""

    def __init__(self, ctx, rec, label):
        MW.__init__(self, ctx, rec, label)
        ex, st = self.ex, self.st
        self.trees = {}
        for o, nm in ((self.o_lk, 'name'), (self.o_lt, 'type')):
            N = ivar('N.' + nm)
            ex.nonneg = ex.nonneg | {'N.' + nm, 'lb.' + nm, 'ub.' + nm}
            t = ex.alloc(st, 'tree.' + nm, base='sym', stride=NODE, layout={72: (8, 'P')}, count=N, fam=lambda ex, s, reg, i, off: self.at(s, reg.name, i))
            self.trees[o] = (t.id, nm)
            for a, b in ((I0, ivar('lb.' + nm)), (ivar('lb.' + nm), ivar('ub.' + nm)), (ivar('ub.' + nm), N)):
                st.assume(ile(a, b))
        for n, d in ctx.lib.dm.items():
            s = build.strip_templates(d)
            if s.startswith('std::map::lower_bound('):
                ex.contracts[n] = lambda ex, st, a, n: self.bound(st, a, 'lb')
            elif s.startswith('std::map::upper_bound('):
                ex.contracts[n] = lambda ex, st, a, n: self.bound(st, a, 'ub')
            elif s.startswith('std::map::begin('):
                ex.contracts[n] = lambda ex, st, a, n: Ptr(self.tree(a[0])[0], I0)
            elif s.startswith('std::map::end('):
                ex.contracts[n] = lambda ex, st, a, n: Ptr(self.tree(a[0])[0], iscale(ivar('N.' + self.tree(a[0])[1]), NODE))
            elif s.startswith('std::_Rb_tree_increment('):
                ex.contracts[n] = lambda ex, st, a, n: Ptr(a[0].r, iadd(a[0].o, ic(NODE)))
            elif s.startswith('std::_Rb_tree_decrement('):
                ex.contracts[n] = lambda ex, st, a, n: Ptr(a[0].r, iadd(a[0].o, ic(-NODE)))

    def tree(self, p):
        o = icst(p.o)
        if p.r != self.M.id or o not in self.trees:
            raise Unknown("lookup in an unknown table")
        return self.trees[o]

    def bound(self, st, a, w):
        rid, nm = self.tree(a[0])
        k = G.keyval(self.ex, st, a[1], 'Machine::LookupKey')
        st.trace.append((w, nm, k[1], k[2]))
        return Ptr(rid, iscale(ivar('%s.%s' % (w, nm)), NODE))

    def at(self, s, tn, i):
        r = s.ghost.get(('at', tn, i))
        if r is None:
            r = self.ex.alloc(s, '%s[%s]' % (tn, i), base='sym').id
            s.ghost[('at', tn, i)] = r
            s.ghost[('atof', r)] = (tn, i)
        return Ptr(r, I0)

    def string(self, v):
        r = self.ex.alloc(self.st, 'arg')
        r.cells[('g', 0)] = v
        return Ptr(r.id, I0)

    def bounds_ok(self, s, nm):
        P = self.P
        b = [t for t in s.trace if t[0] in ('lb', 'ub')]
        P.fact('searches the %s table between (name, 0) and (name, max)' % nm, sorted(t[0] for t in b) == ['lb', 'ub'] and all(t[1] == nm and t[2] == ('sym', 'arg') for t in b), repr(b))
        for t in b:
            P.eq('%s bound index' % t[0], s.pc, t[3], I0 if t[0] == 'lb' else UMAX)


def range_task(ctx, fn, nm, label):
    def run(rec):
        W = LW(ctx, rec, label)
        f = ctx.find(r'Machine::%s\(.*\)' % fn, 'inst')
        rec.functions.append(f)
        a = W.string(('sym', 'arg'))
        ret = W.ex.alloc(W.st, 'ret')
        outs = [o for o in W.ex.call(W.st, f, [Ptr(ret.id, I0), W.Mp] + ([a] if nm else [])) if feasible(o.state.pc)]
        W.P.fact('returns', bool(outs) and all(o.kind == 'ret' for o in outs))
        for o in outs:
            if o.kind != 'ret':
                continue
            v = [W.ex.load(o.state, Ptr(ret.id, ic(8 * q)), PTR) for q in (0, 1)]
            t, tn = W.trees[W.o_lk if fn != 'equal_range_type' else W.o_lt]
            if nm:
                W.bounds_ok(o.state, tn)
                want = (ivar('lb.' + tn), ivar('ub.' + tn))
            else:
                want = (I0, ivar('N.' + tn))
            W.P.fact('a range of the table', isinstance(v, list) and len(v) == 2 and all(isinstance(x, Ptr) and x.r == t for x in v), repr(v))
            if isinstance(v, list) and len(v) == 2:
                for x, w, q in zip(v, want, ('first', 'past the last')):
                    W.P.eq('%s position' % q, o.state.pc, x.o, iscale(w, NODE))
    return Task(label, run)


def find_task(ctx):
    label = 'Machine::find'

    def run(rec):
        W = LW(ctx, rec, label)
        ex, P = W.ex, W.P
        f = ctx.find(r'Machine::find\(.*\)', 'inst')
        rec.functions.append(f)
        st = W.st
        nth = ivar('nth')
        ex.nonneg = ex.nonneg | {'nth', 'k'}
        st.assume(ile(I0, nth))
        a = W.string(('sym', 'arg'))
        fn_ = ctx.prog.find(f, ctx.prog.mods['inst'])
        base = len(st.frames)
        ex.push(st, fn_, [W.Mp, a, nth])
        lb, ub = ivar('lb.name'), ivar('ub.name')
        cnt = isub(ub, lb)
        n = 0

        def result(s, v, w):
            W.bounds_ok(s, 'name')
            if v.r is None:
                P.holds(w + ': NULL only when there are not that many', s.pc, ile(cnt, nth))
                return
            at_ = s.ghost.get(('atof', v.r))
            P.fact(w + ': an element of the name table', at_ is not None and at_[0] == 'tree.name', repr(v))
            if at_ is not None:
                P.holds(w + ': element returned only when it exists', s.pc, ilt(nth, cnt))
                P.eq(w + ': the nth element of that name', s.pc, at_[1], iadd(lb, nth))
        heads = []
        for o in run_to(ex, st, base, walks(fn_)):
            if not feasible(o.state.pc):
                continue
            if o.kind == 'ret':
                result(o.state, o.value, 'no search')
                n += 1
            elif o.kind == 'stop':
                heads.append((o.info[1], o.state))
            else:
                P.fact('no error', False, o.kind)
        for h, s0 in heads:
            cut = Cut(ex, s0, base, fn_, h)
            k = ivar('k')
            s = cut.at(k)
            s.assume(ile(I0, k))
            s.assume(ile(k, cnt))
            s.assume(ile(k, nth))       # not found among the first k: k <= nth
            for o in cut.run(s):
                s1 = o.state
                if not feasible(s1.pc):
                    continue
                kind = o.info[0] if o.kind == 'stop' else o.kind
                if kind == 'back':
                    P.holds('continues only inside the range, before the nth', s1.pc, band(ilt(k, cnt), ilt(k, nth)))
                elif kind == 'ret':
                    n += 1
                    result(s1, o.value, 'found')
                elif kind == 'exit':
                    s1.frames[-1].loops = {}
                    for o2 in ex.run([s1], base):
                        if feasible(o2.state.pc):
                            n += 1
                            P.fact('no error', o2.kind == 'ret', o2.kind)
                            if o2.kind == 'ret':
                                result(o2.state, o2.value, 'search ended')
                else:
                    P.fact('no error', False, kind)
        P.fact('outcomes reachable', n >= 2, str(n))
    return Task(label, run)


def less_task(ctx):
    label = 'Machine::LookupKey::operator<'

    def run(rec):
        W = MW(ctx, rec, label)
        ex, st, P = W.ex, W.st, W.P
        f = ctx.find(r'Machine::LookupKey::operator<\(Machine::LookupKey const&\) const')
        rec.functions.append(f)
        ks = []
        for q in 'ab':
            r = ex.alloc(st, 'key ' + q, size=40)
            r.cells[('g', 0)] = ('sym', 'n' + q)
            ex.nonneg = ex.nonneg | {'i' + q}
            st.assume(ile(I0, ivar('i' + q)))
            ex.store(st, Ptr(r.id, ic(32)), ivar('i' + q), ('i', 64))
            ks.append(Ptr(r.id, I0))
        e = G.streq(('sym', 'na'), ('sym', 'nb'))
        cmp = iatom('strcmp', ('sym', 'na'), ('sym', 'nb'))
        want = bor(band(bnot(e), ilt(cmp, I0)), band(e, ilt(ivar('ia'), ivar('ib'))))
        outs = [o for o in ex.call(st, f, ks) if feasible(o.state.pc)]
        for o in outs:
            P.fact('returns', o.kind == 'ret')
            b = ex.tobool(o.value)
            P.holds('orders by name, then by index (=>)', o.state.pc + [b, bor(e, bnot(ieq(cmp, I0)))], want)
            P.holds('orders by name, then by index (<=)', o.state.pc + [want], b)
        P.fact('outcomes', len(outs) > 0)
    return Task(label, run)


# ------------------------------------------------------------------ registration
def register_task(ctx, which):
    label = 'Machine::p_register%s' % which

    def run(rec):
        W = MW(ctx, rec, label)
        ex, st, P = W.ex, W.st, W.P
        f = ctx.find(r'Machine::p_register%s\(.*\)' % which, 'base')
        rec.functions.append(f)
        reg = ex.gptr(st, gname(ctx, 'p_state_infos'), ctx.prog.mods['base'])
        R = ('m', 'registry')
        st.rw(reg.r).cells[('g', 0)] = ('map', R)
        name = cs(ex, st, ('sym', 'name'))
        if which == 'State':
            args = [name, Ptr('fn:__newbuilder', I0)]
            ok = bnot(pred('in', 'registry', ('sym', 'name')))
        else:
            r = ex.alloc(st, 'sname')
            r.cells[('g', 0)] = ('sym', 'sname')
            b = ex.alloc(st, 'newbuilder', base='sym')
            args = [Ptr(r.id, I0), name, Ptr(b.id, I0)]
            ok = band(pred('in', 'registry', ('sym', 'sname')), bnot(pred('in', 'builders', ('sym', 'name'))))
        kinds = set()
        for o in ex.call(st, f, args):
            s = o.state
            if not feasible(s.pc):
                continue
            kinds.add(o.kind)
            W.locks(s, o.kind)
            m = G.mapval(s, Ptr(reg.r, I0))
            muts = [t for t in s.trace if t[0] == 'mutate']
            if o.kind == 'throw':
                P.fact('refused with logic_error', o.exc[0] == '_ZTISt11logic_error', repr(o.exc))
                P.holds('refused only when already registered (or of an unknown simulation type)', s.pc, bnot(ok))
                P.fact('refused: registry unchanged', m == R and not muts, repr(muts))
            else:
                P.holds('accepted only when new', s.pc, ok)
                if which == 'State':
                    P.fact('the name is entered', m[0] == 'put' and m[1] == R and m[2] == ('sym', 'name'), repr(m))
                    nodes = [r_ for r_ in s.mem.values() if r_.tag and r_.tag[0] == 'node' and r_.tag[1].r == reg.r and r_.tag[2] == ('sym', 'name')]
                    P.fact('one entry written', len(nodes) == 1, str(len(nodes)))
                    for nd in nodes[:1]:
                        o_ = nd.tag[3]
                        P.fact('entry: its name', nd.cells.get(('g', o_)) == ('sym', 'name'), repr(nd.cells.get(('g', o_))))
                        bp = ex.load(s, Ptr(nd.id, ic(o_ + W.o_bld)), PTR)
                        P.fact('entry: its state builder', isinstance(bp, Ptr) and bp.r == 'fn:__newbuilder', repr(bp))
                        P.fact('entry: no element types yet', nd.cells.get(('g', o_ + W.infoff)) == ('map', ('empty',)), repr(nd.cells.get(('g', o_ + W.infoff))))
                else:
                    P.fact('no other simulation type is touched', m == R, repr(m))
                    nodes = [reg_ for reg_ in s.mem.values() if reg_.tag and reg_.tag[0] == 'node' and reg_.tag[1].r == reg.r]
                    bm = [v for n_ in nodes for kk, v in n_.cells.items() if isinstance(kk, tuple) and kk[0] == 'g' and isinstance(v, tuple) and v[0] == 'map']
                    P.fact('exactly this element type is added', len(bm) == 1 and bm[0][1][:3] == ('put', ('m', 'builders'), ('sym', 'name')), repr(bm))
                    ent = [r_ for r_ in s.mem.values() if r_.tag and r_.tag[0] == 'node' and r_.tag[1].r in [n_.id for n_ in nodes] and r_.tag[2] == ('sym', 'name')]
                    bps = [ex.load(s, Ptr(r_.id, ic(r_.tag[3])), PTR) for r_ in ent]
                    P.fact('with its builder', len(bps) == 1 and isinstance(bps[0], Ptr) and bps[0].r == b.id, repr(bps))
        P.fact('both outcomes reachable', kinds == {'ret', 'throw'}, repr(kinds))
    return Task(label, run)


def tasks(ctx):
    return [reconfigure_task(ctx), ctor_task(ctx), find_task(ctx), range_task(ctx, 'equal_range', 1, 'Machine::equal_range'),
            range_task(ctx, 'equal_range_type', 1, 'Machine::equal_range_type'), range_task(ctx, 'all_range', 0, 'Machine::all_range'), less_task(ctx),
            register_task(ctx, 'State'), register_task(ctx, 'Element')]
