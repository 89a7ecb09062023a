"""Reconfiguring an element in place: element_builder_impl<E>::rebuild against the contract of the element's constructor.

ghost: N = the element a fresh construction from the given Config yields (arbitrary member values).  Ensures: every member of
the reconfigured element equals N's, except the index (given by the caller) and the observer (kept).  Members which are pure
working storage are not compared.  If the construction throws, or the type differs, the element is as before."""
from verify import *
import collections

TUS = ['moment', 'linear', 'base', 'moment_sup', 'rf_cavity', 'chg_stripper', 'inst']
# working storage: never read before it is written by the next advance() (stripper: re-read from the Config by Stripper_GetMat)
SCRATCH = {'scratch'}
SCRATCH_OF = {'ElementStripper': {'Stripper_IonZ', 'Stripper_IonMass', 'Stripper_IonProton', 'Stripper_E1Para', 'Stripper_lambda', 'Stripper_upara',
                                  'Stripper_Para', 'Stripper_E0Para'}}


def mkelem(ctx, ex, st, cls, name, tu, vt):
    o = new_obj(ctx, ex, st, cls, name, tu=tu)
    ex.store(st, o.ptr, vt, PTR)
    for off, path, ty in ctx.lay.get(cls, tu)[1]:
        if ty == 'vptr' and off:
            own = [t for q, p, t in ctx.lay.get(cls, tu)[1] if p == path[:-len('.$vptr')]]
            m = re.match(r'(?:struct |class )?(\w+)$', own[0]) if own else None
            q = {'VectorState': 'VectorState', 'MatrixState': 'MatrixState', 'MomentState': 'MomentState', 'state_t': None}.get(clean(own[0])) if own else None
            if q is None:
                q = 'MomentState' if tu == 'moment' else re.search(r'(VectorState|MatrixState)', cls).group(1)
            ex.store(st, Ptr(o.reg.id, ic(off)), vtable_ptr(ctx, ex, st, '%d%s' % (len(q), q), tu), PTR)
            st.rw(o.reg.id).cells[('tag', off)] = ('obj', '_ZTI%d%s' % (len(q), q))
            if q == 'MomentState':
                for p_, sz in (('moment0_env', 7), ('moment0_rms', 7)):
                    ex.store(st, Ptr(o.reg.id, ic(off + ctx.lay.off(q, p_, tu))), ic(7), ('i', 64))
                for x, v in ((0, 7), (8, 7), (16, 49)):
                    ex.store(st, Ptr(o.reg.id, ic(off + ctx.lay.off(q, 'moment1_env', tu) + x)), ic(v), ('i', 64))
            elif q == 'VectorState':
                ex.store(st, Ptr(o.reg.id, ic(off + ctx.lay.off(q, 'state.data_.size_', tu))), ic(6), ('i', 64))
            else:
                for k, v in (('state.size1_', 6), ('state.size2_', 6), ('state.data_.size_', 36)):
                    ex.store(st, Ptr(o.reg.id, ic(off + ctx.lay.off(q, k, tu))), ic(v), ('i', 64))
    if tu == 'linear':
        for k, v in (('size1_', 6), ('size2_', 6), ('data_.size_', 36)):
            o.set(st, 'transfer.' + k, ic(v), ('i', 64))
        d = ex.alloc(st, name + '.transfer', size=288, base='sym')
        d.layout = {8 * k: (8, 'R') for k in range(36)}
        d.names = {8 * k: '%s.transfer[%d]' % (name, k) for k in range(36)}
        ex.store(st, o.p('transfer.data_.data_'), Ptr(d.id, I0), PTR)
    return o



def members(ctx, cls, tu):
    return ctx.lay.get(cls, tu)


def compare(P, ctx, ex, cls, tu, o, s1, N, sN, pc, skip):
    """o in s1 equals N in sN, member by member (units as in new_obj)"""
    size, mem = ctx.lay.get(cls, tu)
    done = []
    i = ivar('i')
    for off, path, ty in mem:
        if any(path == d or path.startswith(d + '.') for d in done):
            continue
        t = clean(ty)
        if ty == 'vptr':
            a, b = ex.load(s1, Ptr(o.reg.id, ic(off)), PTR), ex.load(sN, Ptr(N.reg.id, ic(off)), PTR)
            P.fact('dynamic type kept', a == b, repr(a))
            continue
        if path in skip:
            done.append(path)
            continue
        if t in SCALAR:
            k = SCALAR[t]
            lt = ex.kind_ty(k[1], k[0])
            P.eq('member %s = that of a fresh element' % path, pc, ex.load(s1, Ptr(o.reg.id, ic(off)), lt), ex.load(sN, Ptr(N.reg.id, ic(off)), lt))
            continue
        g = s1.mem[o.reg.id].cells.get(('g', off))
        gN = sN.mem[N.reg.id].cells.get(('g', off))
        if gN is not None and gN[0] == 'opaque':
            done.append(path)
            P.fact('member %s = that of a fresh element' % path, g == gN, repr(g))
            continue
        if re.match(r'std::(__cxx11::)?basic_string<char>$', t) or t == 'Config':
            done.append(path)
            P.fact('member %s = that of a fresh element' % path, g == gN, '%r / %r' % (g, gN))
            continue
        m = re.match(r'std::vector<(.*)>$', t)
        if m:
            done.append(path)
            info = elem_info(m.group(1).strip())
            a, b = o.vsize(s1, path, info[0]), N.vsize(sN, path, info[0])
            P.eq('|%s| = that of a fresh element' % path, pc, a, b)
            q = pc + [ile(I0, i), ilt(i, b)]
            if feasible(q):
                sa, sb = s1.clone(), sN.clone()
                sa.pc, sb.pc = list(q), list(q)
                if not entails(q, ilt(i, a)):
                    continue
                for x, (sz, k) in info[1].items():
                    if isinstance(k, int):
                        continue
                    lt = ex.kind_ty(k, sz)
                    P.eq('%s[i]+%d = that of a fresh element' % (path, x), q, o.velem(sa, path, i, x, lt), N.velem(sb, path, i, x, lt))
            pa, pb = ex.load(s1, o.p(path), PTR), ex.load(sN, N.p(path), PTR)
            P.fact('%s does not share storage with the temporary' % path, pa.r != pb.r or pa.r is None)
            continue
        info = elem_info(t)
        if info is not None:
            done.append(path)
            for x, (sz, k) in info[1].items():
                if isinstance(k, int):
                    continue
                lt = ex.kind_ty(k, sz)
                P.eq('member %s+%d = that of a fresh element' % (path, x), pc, ex.load(s1, Ptr(o.reg.id, ic(off + x)), lt), ex.load(sN, Ptr(N.reg.id, ic(off + x)), lt))
            continue
        if path.endswith('data_.data_') and t.endswith('pointer'):
            a, b = ex.load(s1, Ptr(o.reg.id, ic(off)), PTR), ex.load(sN, Ptr(N.reg.id, ic(off)), PTR)
            P.eqs('member %s' % path, pc, [('[%d]' % k, ex.load(s1, at(a, 8 * k), ('d',)), ex.load(sN, at(b, 8 * k), ('d',))) for k in range(36)])
            P.fact('%s does not share storage with the temporary' % path, a.r != b.r)
            continue
        if t.endswith('*'):
            a, b = s1.mem[o.reg.id].cells.get(off), sN.mem[N.reg.id].cells.get(off)
            P.fact('member %s = that of a fresh element' % path, a is not None and b is not None and same(a[1], b[1]), '%r / %r' % (a, b))


def obs(ctx, ex, st, o, tag):
    r = ex.alloc(st, tag, base='sym')
    r.nullcond = pred('no' + tag)
    ex.store(st, o.p('p_observe'), Ptr(r.id, I0), PTR)


def rebuild_task(ctx, cls, fmang, tu, mismatch=False):
    short = re.sub(r'\(anonymous namespace\)::', '', cls)
    label = 'rebuild<%s>%s' % (short, ' (different type)' if mismatch else '')

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor()
        rec.functions.append(fmang)
        st = State()
        cm = re.search(r'element_builder_implI(.*)E7rebuildEP', fmang.split(':')[-1]).group(1)
        bvt = vtable_ptr(ctx, ex, st, 'N7Machine20element_builder_implI%sEE' % cm, tu)
        vt = vtable_ptr(ctx, ex, st, cm, tu)
        B = ex.alloc(st, 'builder', size=8)
        ex.store(st, Ptr(B.id, I0), bvt, PTR)
        o = mkelem(ctx, ex, st, cls, 'O', tu, vt)
        ti = ex.gptr(st, '_ZTI' + cm, ctx.prog.mods[tu])
        st.rw(o.reg.id).tag = ('obj', st.mem[ti.r].tag[1] if isinstance(ti.r, int) else ti.r[3:])
        ex.contracts.update(CT.config_contracts(ctx))
        ex.contracts['_ZN13numeric_tableaSERKS_'] = LIB.opaque_assign
        obs(ctx, ex, st, o, 'observer')
        if mismatch:
            st.rw(o.reg.id).tag = ('obj', '_ZTI11ElementVoid')
            ex.store(st, o.ptr, Ptr(ex.alloc(st, 'othervt').id, I0), PTR)
        from s_advance import vslot
        bld = vslot(ctx, ex, st, bvt, r'.*::build\(Config const&\)')
        dtor = vslot_dtor(ctx, ex, st, vt)
        hold = {}
        C = ex.alloc(st, 'conf', size=64)
        C.cells[('g', 0)] = ('config', 'C')
        idx = ivar('idx')
        ex.nonneg = ex.nonneg | {'idx'}

        def build_(ex, s, a, n):
            P.fact('constructed from the given Config', isinstance(a[1], Ptr) and a[1].r == C.id)
            s2 = s.clone()
            s2.trace.append(('build-throw',))
            N = mkelem(ctx, ex, s, cls, 'N', tu, vt)
            ex.store(s, N.p('p_observe'), NULL, PTR)
            hold['N'] = N
            hold['s'] = s.clone()
            s.trace.append(('build',))
            return Fork([(s, N.ptr), (s2, Throw('_ZTI9key_error'))])

        def del_(ex, s, a, n):
            s.trace.append(('delete', a[0]))
            r = s.rw(a[0].r)
            r.dead = True
        ex.contracts[bld] = build_
        if dtor:
            ex.contracts[dtor] = del_
        s0 = st.clone()
        outs = ex.call(st, fmang, [Ptr(B.id, I0), o.ptr, Ptr(C.id, I0), idx], ctx.prog.mods[tu])
        rec.functions.extend(f for f in ex.stats['functions'] if not build.is_library(f))
        rets = 0
        for q in outs:
            s1 = q.state
            if not feasible(s1.pc):
                continue
            tags = [t[0] for t in s1.trace]
            if q.kind == 'throw' or mismatch:
                P.fact('rejected with an exception', q.kind == 'throw', q.kind)
                frame_unchanged(P, 'on exception: element unchanged', ex, s0, s1, o.reg.id)
                P.fact('on exception: temporary released', tags.count('delete') == tags.count('build'), str(tags))
                continue
            if q.kind != 'ret':
                P.unknown('termination', q.kind)
                continue
            rets += 1
            N, sN = hold['N'], hold['s']
            P.fact('constructed once', tags.count('build') == 1, str(tags))
            P.fact('temporary released once', tags.count('delete') == 1, str(tags))
            P.eq('index as given', s1.pc, o.get(s1, 'index', ('i', 64)), idx)
            a, b = ex.load(s1, o.p('p_observe'), PTR), ex.load(s0, o.p('p_observe'), PTR)
            P.fact('observer kept', same(a, b), repr(a))
            compare(P, ctx, ex, cls, tu, o, s1, N, sN, list(s1.pc), {'index', 'p_observe', 'istate.next_elem', 'istate.retreat', 'istate.pyptr'} | SCRATCH | SCRATCH_OF.get(cls, set()))
        if not mismatch:
            P.fact('normal return reachable', rets > 0)
    return Task(label, run)


def vslot_dtor(ctx, ex, st, vt):
    reg = st.mem[vt.r]
    for k, c in sorted((k, c) for k, c in reg.cells.items() if isinstance(k, int)):
        v = c[1]
        if isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith('fn:') and re.search(r'D0Ev$', v.r):
            return v.r[3:]
    return None


def record_name(ctx, d, tu):
    """demangled class name -> name in clang's record layouts"""
    m = re.match(r'(.*)<LinearElementBase<(\w+)>\s*>$', d)
    if m:
        for q in ('%s<struct LinearElementBase<struct %s> >', '%s<struct LinearElementBase<struct %s>>', '%s<LinearElementBase<%s> >', '%s<LinearElementBase<%s>>'):
            c = q % m.groups()
            try:
                ctx.lay.get(c, tu)
                return c
            except Unknown:
                pass
    return d


def tasks(ctx):
    out = []
    for tu in ('moment', 'linear'):
        if tu not in ctx.prog.mods:
            continue
        mod = ctx.prog.mods[tu]
        for n in sorted(mod.fn_src):
            m = re.match(r'Machine::element_builder_impl<(.*)>::rebuild\(ElementVoid\*, Config const&, unsigned long\)$', ctx.lib.dm.get(n, n))
            if m:
                cls = record_name(ctx, m.group(1), tu)
                q = tu + ':' + n if n in mod.internal else n
                out.append(rebuild_task(ctx, cls, q, tu))
                if cls in ('(anonymous namespace)::ElementQuad',):
                    out.append(rebuild_task(ctx, cls, q, tu, True))
    return out


# ------------------------------------------------------------------ constructors of the moment elements
ZERO_LENGTH = ('ElementMark', 'ElementBPM', 'ElementOrbTrim', 'ElementStripper')


def ctor_task(ctx, cls, fmang, tu):
    short = re.sub(r'\(anonymous namespace\)::', '', cls)
    label = 'build<%s>' % short

    def run(rec):
        P = Prover(rec, label)
        ex = ctx.executor(CT.config_contracts(ctx))
        rec.functions.append(fmang)
        st = State()
        cm = re.search(r'element_builder_implI(.*)E5buildE', fmang.split(':')[-1]).group(1)
        vt = vtable_ptr(ctx, ex, st, cm, tu)
        for n in ctx.lib.dm:
            if re.search(r'get_flag', n) and 'Config' in ctx.lib.dm[n]:
                ex.contracts[n] = CT.h_get_flag
        C = ex.alloc(st, 'conf', size=64)
        C.cells[('g', 0)] = ('config', 'C')
        B = ex.alloc(st, 'builder', size=8)
        hn = CT.has('C', 'name', 'string')
        fm = ivar('flag.C[HdipoleFitMode]')
        outs = ex.call(st, fmang, [Ptr(B.id, I0), Ptr(C.id, I0)], ctx.prog.mods[tu])
        rec.functions.extend(f for f in ex.stats['functions'] if not build.is_library(f))
        rets = 0
        from s_optics import Conf
        c = Conf('C')
        for q in outs:
            s1 = q.state
            if not feasible(s1.pc):
                continue
            if q.kind == 'throw':
                ok = bnot(hn)
                if short == 'ElementSBend':
                    ok = bor(ok, band(bnot(ieq(fm, I0)), bnot(ieq(fm, I1))))
                P.holds('exception only for a missing name%s' % (' or an undefined fit mode' if short == 'ElementSBend' else ''), s1.pc, ok)
                continue
            if q.kind != 'ret':
                P.unknown('termination', q.kind)
                continue
            rets += 1
            P.holds('a name is required', s1.pc, hn)
            p = q.value
            o = Obj(ctx, ex, s1.mem[p.r], 0, cls, tu)
            P.fact('dynamic type', ex.load(s1, p, PTR) == vt)
            g = lambda k, ty=('d',): o.get(s1, k, ty)
            nm = s1.mem[p.r].cells.get(('g', o.off('name')))
            P.fact('name', nm == ('sym', 'C[name]'), repr(nm))
            cf = s1.mem[p.r].cells.get(('g', o.off('p_conf')))
            P.fact('the configuration is kept', cf == ('config', 'C'), repr(cf))
            z = lambda v: v if isinstance(v, T) else R(v)
            P.eq('length', s1.pc, g('length'), R0 if short in ZERO_LENGTH else z(c('L', 0.0)))
            P.fact('no observer', ex.load(s1, o.p('p_observe'), PTR) == NULL)
            for k in ('dx', 'dy'):
                P.eq(k + ' [mm]', s1.pc, g(k), z(c(k, 0.0) * MtoMM))
            for k in ('pitch', 'yaw', 'roll'):
                P.eq(k, s1.pc, g(k), z(c(k, 0.0)))
            sk = ex.tobool(g('skipcache', ('i', 8)))
            want = bnot(req(z(c('skipcache', 0.0)), R0))
            P.holds('skipcache (=>)', s1.pc + [sk], want)
            P.holds('skipcache (<=)', s1.pc + [want], sk)
            for v, w in (('last_real_in', 96), ('last_real_out', 96), ('transfer', 416)):
                P.eq('nothing cached: |%s| = 0' % v, s1.pc, o.vsize(s1, v, w), I0)
        P.fact('normal return reachable', rets > 0)
    return Task(label, run)


_tasks0 = tasks


def tasks(ctx):
    out = _tasks0(ctx)
    mod = ctx.prog.mods['moment']
    for n in sorted(mod.fn_src):
        m = re.match(r'Machine::element_builder_impl<(.*)>::build\(Config const&\)$', ctx.lib.dm.get(n, n))
        if m and 'RFCavity' not in n and 'ElementSource' not in n:
            out.append(ctor_task(ctx, m.group(1), 'moment:' + n if n in mod.internal else n, 'moment'))
    return out
