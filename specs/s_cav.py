"""RF cavity: every function of rf_cavity.cpp between the data tables and the transport of the beam.

Field tables are rows of arbitrary number; the lattice of the cavity is a sequence of arbitrary length of typed thin elements."""
from verify import *
import optics as O
import cavity as CV
import cavtab as TAB
from s_base import run_to
from loopcut import Cut, RCut

TUS = ['rf_cavity', 'moment', 'moment_sup', 'base']
TU = 'rf_cavity'
CLS = 'ElementRFCavity'
D = ('d',)
PI_ = R(PI)


def fnm(ctx, rx):
    return ctx.find(rx, TU)


def key(f):
    return f.split(':')[-1]


def cell(ex, st, name):
    r = ex.alloc(st, name, size=8)
    return Ptr(r.id, I0)


def kd(o):
    return o.info[0] if o.kind == 'stop' else o.kind


def simple(ctx, label, rx, body, cost=1):
    """task around one function: body(P, ex, f) makes the calls"""
    def run(rec):
        P = Prover(rec, label)
        f = fnm(ctx, rx)
        rec.functions.append(f)
        ex = ctx.executor()
        body(P, ex, f)
        rec.functions.extend(g for g in ex.stats['functions'] if not build.is_library(g))
    return Task(label, run, cost=cost)


def mod(ctx):
    return ctx.prog.mods[TU]


# ------------------------------------------------------------------ small numeric functions
def ser(a, x):
    r = a[0]
    for k in range(1, 10):
        r = r + a[k] * fn('pow', x, R(k))
    return r


def pwr_task(ctx):
    def body(P, ex, f):
        st = State()
        x = rvar('beta')
        a = [rvar('a%d' % k) for k in range(10)]
        n = 0
        for o in ex.call(st, f, [x] + a, mod(ctx)):
            if feasible(o.state.pc):
                n += 1
                P.fact('returns', o.kind == 'ret', o.kind)
                P.eq('a0 + sum a_k x^k', o.state.pc, o.value, ser(a, x))
        P.fact('reachable', n > 0)
    return simple(ctx, 'PwrSeries', r'PwrSeries\(.*', body)


def h_pwr(ex, st, a, n):
    return ser(a[1:], a[0])


def gapmodel_task(ctx):
    def body(P, ex, f):
        st = State()
        p = new_obj(ctx, ex, st, 'Particle', 'real', tu=TU)
        v = {k: rvar(k) for k in ('dis', 'W0', 'fy', 'k', 'lam', 'Ec', 'T', 'S', 'Tp', 'Sp', 'V0')}
        W, F = cell(ex, st, 'W'), cell(ex, st, 'F')
        s0 = st.clone()
        w = CV.gap(v['dis'], v['W0'], p.get(st, 'IonZ'), p.get(st, 'IonEs'), v['fy'], v['k'], v['lam'], v['Ec'], v['T'], v['S'], v['Tp'], v['Sp'], v['V0'])
        n = 0
        for o in ex.call(st, f, [v['dis'], v['W0'], p.ptr, v['fy'], v['k'], v['lam'], v['Ec'], v['T'], v['S'], v['Tp'], v['Sp'], v['V0'], W, F], mod(ctx)):
            s = o.state
            if feasible(s.pc):
                n += 1
                P.fact('returns', o.kind == 'ret', o.kind)
                P.eq('energy after the gap', s.pc, ex.load(s, W, D), w[0])
                P.eq('phase at the far end', s.pc, ex.load(s, F, D), w[1])
                frame_unchanged(P, 'particle unchanged', ex, s0, s, p.reg.id)
        P.fact('reachable', n > 0)
    return simple(ctx, 'EvalGapModel', r'EvalGapModel\(.*', body)


GAP = ['W', 'fy']


def h_gap(ctx):
    oz, oe = (ctx.lay.off('Particle', k, TU) for k in ('IonZ', 'IonEs'))

    def h(ex, st, a, n):
        dis, W0, p, fy, k, lam, Ec, T, S, Tp, Sp, V0, pw, pf = a
        Z, Es = (ex.load(st, CT.at(p, o), D) for o in (oz, oe))
        args = [dis, W0, Z, Es, fy, k, lam, Ec, T, S, Tp, Sp, V0]
        ex.store(st, pw, fn('gapW', *args), D)
        ex.store(st, pf, fn('gapF', *args), D)
    return h


def transfac_spec(label, gap, beta, scl):
    t = TAB.TF[label][gap]
    return {k: (R(c[1]) * scl if c[0] == 'scl' else R(CV.ttf(c, beta))) for k, c in t.items()}


OUT6 = ('Ecen', 'T', 'Tp', 'S', 'Sp', 'V0')


def tf_opaque(tab, col, gap, K, half):
    return {k: fn('map' + k, rvar(tab), R(col), R(gap), K, R(1 if half else 0)) for k in OUT6}


def h_caltransfac(Q):
    """opaque: the values are a function of the table, the column, the gap, the wave number and the half flag"""
    def h(ex, st, a, n):
        tab, col, gap, K, half = a[:5]
        reg = st.mem[tab.r]
        half = ex.tobool(half)
        c, g = i2r(col), i2r(gap)
        tb = rvar('%s+%s' % (reg.name, icst(tab.o)))
        hv = rite(half, R1, R0)
        for k, p in zip(OUT6, a[5:]):
            ex.store(st, p, fn('map' + k, tb, c, g, K, hv), D)
        st.trace.append(('map', tab, col, gap, K, half))
        return None
    return h


def transfacts_task(ctx):
    label = 'ElementRFCavity::TransFacts'

    def body(P, ex, f):
        ex.contracts[key(fnm(ctx, r'PwrSeries\(.*'))] = h_pwr
        ex.contracts[key(fnm(ctx, r'calTransfac\(.*'))] = h_caltransfac(P)
        cases = [(lb, g) for lb in (41, 85, 29, 53) for g in (0, 1, 2)] + [(lb, None) for lb in (41, 85, 29, 53)] + [(None, None)]
        for lb, g in cases:
            st = State()
            e = new_obj(ctx, ex, st, CLS, 'E', tu=TU)
            out = {k: cell(ex, st, k) for k in OUT6}
            beta, K, scl = rvar('beta'), rvar('K'), rvar('scl')
            L = ivar('label') if lb is None else ic(lb)
            G = ivar('gap') if g is None else ic(g)
            if lb is None:
                for x in (41, 85, 29, 53):
                    st.assume(bnot(ieq(L, ic(x))))
            if g is None:
                for x in (0, 1, 2):
                    st.assume(bnot(ieq(G, ic(x))))
            s0 = st.clone()
            force = ex.tobool(e.get(s0, 'forcettfcalc', ('i', 8)))
            lo, hi = (R(x) for x in TAB.BETA.get(lb, (0, 0)))
            inr = band(rle(lo, beta), rle(beta, hi)) if lb else TRUE
            kinds = set()
            nm = '%s gap %s' % (lb, g)
            for o in ex.call(st, f, [e.ptr, L, beta, K, G, scl] + [out[k] for k in OUT6], mod(ctx)):
                s = o.state
                if not feasible(s.pc):
                    continue
                maps = [t for t in s.trace if t[0] == 'map']
                if o.kind == 'throw':
                    kinds.add('throw')
                    P.holds('%s: error only for an unknown cavity or gap' % nm, s.pc, bnot(force) if lb is None or g is None else FALSE)
                    continue
                P.fact('%s: returns' % nm, o.kind == 'ret', o.kind)
                if maps:
                    kinds.add('map')
                    P.holds('%s: field integration only when forced or out of the range of the fit' % nm, s.pc, bor(force, bnot(inr)) if lb else force)
                    tab, col, gp, k_, half = maps[-1][1:]
                    P.fact('%s: integration of the on-axis field' % nm, tab == e.p('CavData') and icst(col) == 2 and half is TRUE, repr(maps[-1]))
                    tb = rvar('E+%d' % e.off('CavData'))
                    w = {k: fn('map' + k, tb, R(2), i2r(G), K, R1) for k in OUT6}
                    w['V0'] = w['V0'] * scl
                else:
                    kinds.add('fit')
                    if lb is None or g is None:
                        P.fact('%s: an unknown cavity or gap is an error' % nm, False, 'returns', {'path': [str(c) for c in s.pc][:20]})
                        continue
                    P.holds('%s: fit only within its range' % nm, s.pc, band(bnot(force), inr))
                    w = transfac_spec(lb, g, beta, scl)
                P.eqs(nm, s.pc, [(k, ex.load(s, out[k], D), w[k]) for k in OUT6])
                frame_unchanged(P, '%s: element unchanged' % nm, ex, s0, s, e.reg.id)
            want = {'map', 'fit'} if lb and g is not None else {'map', 'throw'}
            P.fact('%s: outcomes reachable' % nm, kinds == want, repr(kinds))
    return simple(ctx, label, r'ElementRFCavity::TransFacts\(.*', body, 5)


COL = {'CaviMlp_EFocus1': 3, 'CaviMlp_EFocus2': 4, 'CaviMlp_EDipole': 2, 'CaviMlp_EQuad': 5, 'CaviMlp_HMono': 7, 'CaviMlp_HDipole': 6, 'CaviMlp_HQuad': 8}


def multipole_task(ctx):
    label = 'ElementRFCavity::TransitFacMultipole'

    def body(P, ex, f):
        ex.contracts[key(fnm(ctx, r'PwrSeries\(.*'))] = h_pwr
        ex.contracts[key(fnm(ctx, r'calTransfac\(.*'))] = h_caltransfac(P)
        for fl in sorted(COL) + ['other']:
            for ca in (1, 2, 3, 4):
                st = State()
                e = new_obj(ctx, ex, st, CLS, 'E', tu=TU)
                T, S = cell(ex, st, 'T'), cell(ex, st, 'S')
                lab = ex.alloc(st, 'flabel')
                v = ('lit', fl) if fl != 'other' else ('sym', 'flabel')
                lab.cells[('g', 0)] = v
                if fl == 'other':
                    for x in COL:
                        st.assume(bnot(LIB.streq(v, ('lit', x))))
                K = rvar('K')
                s0 = st.clone()
                force = ex.tobool(e.get(s0, 'forcettfcalc', ('i', 8)))
                lo, hi = (R(x) for x in TAB.KRANGE[ca])
                inr = band(rle(lo, K), rle(K, hi))
                fit = TAB.TM.get(fl, {}).get(ca)
                nm = '%s, cavity %d' % (fl, ca)
                kinds = set()
                for o in ex.call(st, f, [e.ptr, ic(ca), Ptr(lab.id, I0), K, T, S], mod(ctx)):
                    s = o.state
                    if not feasible(s.pc):
                        continue
                    maps = [t for t in s.trace if t[0] == 'map']
                    if o.kind == 'throw':
                        kinds.add('throw')
                        P.holds('%s: error only for an unknown or missing multipole' % nm, s.pc,
                                TRUE if fl == 'other' else (band(bnot(force), inr) if fit is None else FALSE))
                        continue
                    P.fact('%s: returns' % nm, o.kind == 'ret', o.kind)
                    if fl == 'other':
                        P.fact('%s: an unknown multipole is an error' % nm, False, 'returns')
                        continue
                    if maps:
                        kinds.add('map')
                        P.holds('%s: field integration only when forced or out of the range of the fit' % nm, s.pc, bor(force, bnot(inr)))
                        tab, col, gp, k_, half = maps[-1][1:]
                        P.fact('%s: integration of its own column' % nm, tab == e.p('mlptable') and icst(col) == COL[fl] and icst(gp) == 0 and half is FALSE, repr(maps[-1]))
                        tb = rvar('E+%d' % e.off('mlptable'))
                        w = [fn('map' + k, tb, R(COL[fl]), R0, K, R0) for k in ('T', 'S')]
                    else:
                        kinds.add('fit')
                        P.holds('%s: fit only within its range' % nm, s.pc, band(bnot(force), inr))
                        if fit is None:
                            P.fact('%s: a missing multipole is an error' % nm, False, 'returns')
                            continue
                        w = [ser([R(x) for x in fit[k]], K) for k in ('T', 'S')]
                    P.eqs(nm, s.pc, [('T', ex.load(s, T, D), w[0]), ('S', ex.load(s, S, D), w[1])])
                    frame_unchanged(P, '%s: element unchanged' % nm, ex, s0, s, e.reg.id)
                want = {'throw'} if fl == 'other' else ({'map', 'fit'} if fit else {'map', 'throw'})
                P.fact('%s: outcomes reachable' % nm, kinds == want, repr(kinds))
    return simple(ctx, label, r'ElementRFCavity::TransitFacMultipole\(.*', body, 5)


# ------------------------------------------------------------------ tables
def table(ctx, ex, st, p, name, n, w):
    """numeric_table at p: n rows, w columns, arbitrary entries name[row*w+col]"""
    o = ctx.lay.off('numeric_table', 'table', TU)
    q = lambda k: CT.at(p, o + k)
    ex.store(st, q(0), n, ('i', 64))
    ex.store(st, q(8), w, ('i', 64))
    d = ex.alloc(st, name, base='sym', stride=8, layout={0: (8, 'R')}, count=(n, w), fam=name)
    ex.store(st, q(24), imul(n, w), ('i', 64))
    ex.store(st, q(32), Ptr(d.id, I0), PTR)
    return lambda r, c: relem(name, iadd(imul(r, w), ic(c) if isinstance(c, int) else c), 0)


def quiet_log(ctx, ex):
    """log output has no effect on the computation"""
    for m, d in ctx.lib.dm.items():
        if d.startswith('Machine::detail(int)'):
            ex.contracts[m] = lambda ex, st, a, n: iite(bvar(fresh('log')), I1, I0)
        elif 'Machine::LogRecord' in d and 'operator<<' in d:
            ex.contracts[m] = lambda ex, st, a, n: a[0]
        elif d.startswith('Machine::LogRecord::'):
            ex.contracts[m] = lambda ex, st, a, n: None


def sizes(st, ex):
    n, w = ivar('rows'), ivar('cols')
    ex.nonneg = ex.nonneg | {'rows', 'cols', 'k'}
    st.assume(ile(ic(2), n))
    st.assume(ile(ic(2), w))
    st.assume(ile(n, ic(2 ** 31 - 1)))
    return n, w


def loops_of(fn_):
    """headers of the outermost loops, in program order"""
    top = [h for h in fn_.loops if not any(h in b and h != g for g, b in fn_.loops.items())]
    return top


def boost_task(ctx):
    label = 'ElementRFCavity::GetCavBoost'

    def body(P, ex, f):
        quiet_log(ctx, ex)
        st = State()
        n, w = sizes(st, ex)
        e = new_obj(ctx, ex, st, CLS, 'E', tu=TU)
        t = ex.alloc(st, 'CavData', size=88)
        tab = table(ctx, ex, st, Ptr(t.id, I0), 'F', n, w)
        p = new_obj(ctx, ex, st, 'Particle', 'real', tu=TU)
        fy = cell(ex, st, 'IonFy')
        fy0, scl = rvar('fy0'), rvar('scl')
        s0 = st.clone()
        fn_ = ctx.prog.find(f, mod(ctx))
        hs = loops_of(fn_)
        if len(hs) != 1:
            raise Unknown("loop over the field steps not found")
        h = hs[0]
        base = len(st.frames)
        ex.push(st, fn_, [e.ptr, Ptr(t.id, I0), p.ptr, fy0, scl, fy])
        fRF = e.get(s0, 'fRF')
        lam = CV.lam_rf(fRF)
        dz = (tab(isub(n, I1), 0) - tab(I0, 0)) / i2r(isub(n, I1))
        Z, Es = p.get(s0, 'IonZ'), p.get(s0, 'IonEs')
        k = ivar('k')
        seen = set()

        def loop(s1):
            P.eq('start: phase', s1.pc, ex.load(s1, fy, D), fy0)
            P.eq('start: energy', s1.pc, p.get(s1, 'IonW'), p.get(s0, 'IonW'))
            cu = RCut(ex, s1, base, fn_, h)
            kv = {l: v for l, v in cu.real.items() if l[0] == 'reg' and isinstance(v, T) and v.sort == 'R'}
            # the wave number is the carried real that the phase advance depends on
            sx = cu.at(k)
            sx.assume(ile(I0, k))
            F0, W0 = ex.load(sx, fy, D), p.get(sx, 'IonW')
            for o in cu.run(sx):
                s2 = o.state
                if not feasible(s2.pc):
                    continue
                seen.add(kd(o))
                if kd(o) == 'back':
                    P.holds('a step only for k < rows-1', s2.pc, ilt(iadd(k, I1), n))
                    inc = ex.load(s2, fy, D) - F0
                    hit = [(l, v) for l, v in kv.items() if v in fvars(inc)]
                    if len(hit) != 1:
                        raise Unknown("carried wave number not identified")
                    l, K = hit[0]
                    a = CV.boost_step(F0, W0, K, tab(k, 1), tab(iadd(k, I1), 1), Z, Es, scl, dz, lam)
                    P.eq('step: phase', s2.pc, ex.load(s2, fy, D), a[0])
                    P.eq('step: energy', s2.pc, p.get(s2, 'IonW'), a[1])
                    stop = lt(W0 + Z * scl * (tab(k, 1) + tab(iadd(k, I1), 1)) / 2.0 * cos((F0 + a[0]) / 2.0) * dz / MtoMM - Es, 0.0)
                    P.eq('step: wave number of the new energy (where the particle still moves)', s2.pc + [bnot(stop)], cu.val(s2, l), a[2])
                    P.eq('start: wave number of the incoming velocity', s1.pc, s1.frames[-1].regs[l[1]], CV.wave(p.get(s0, 'beta'), lam))
                elif kd(o) in ('exit', 'ret'):
                    P.holds('all steps done', s2.pc, ile(n, iadd(k, I1)))
                    P.eq('phase is the one after the last step', s2.pc, ex.load(s2, fy, D), F0)
                    P.eq('energy is the one after the last step', s2.pc, p.get(s2, 'IonW'), W0)
                    outs = [o] if kd(o) == 'ret' else None
                    if outs is None:
                        s2.frames[-1].loops = {}
                        outs = ex.run([s2], base)
                    for o2 in outs:
                        if feasible(o2.state.pc):
                            P.fact('returns', o2.kind == 'ret', o2.kind)
                            frame_unchanged(P, 'only the energy of the particle changes', ex, s0, o2.state, p.reg.id, [(PO['IonW'], PO['IonW'] + 8)])
                            frame_unchanged(P, 'element unchanged', ex, s0, o2.state, e.reg.id)
                            P.eq('result phase', o2.state.pc, ex.load(o2.state, fy, D), F0)
                else:
                    P.fact('no other outcome', False, repr((o.kind, o.info)))
        for o in run_to(ex, st, base, {h}):
            if feasible(o.state.pc):
                if o.kind == 'stop':
                    loop(o.state)
                else:
                    raise Unknown("function returns before the loop")
        P.fact('steps and exit reachable', 'back' in seen and len(seen) > 1, repr(seen))
    return simple(ctx, label, r'ElementRFCavity::GetCavBoost\(.*', body)


def ipow_task(ctx):
    label = 'ipow'

    def body(P, ex, f):
        st = State()
        b, e = rvar('base'), ivar('exp')
        st.assume(ile(I0, e))
        ex.nonneg = ex.nonneg | {'exp', 'e'}
        fn_ = ctx.prog.find(f, mod(ctx))
        hs = loops_of(fn_)
        if len(hs) != 1:
            raise Unknown("loop not found")
        h = hs[0]
        base = len(st.frames)
        ex.push(st, fn_, [b, e])
        pw = lambda x, k: fn('ipw', x, i2r(k))
        seen = set()
        for o in run_to(ex, st, base, {h}):
            s1 = o.state
            if not feasible(s1.pc):
                continue
            if o.kind == 'ret':
                P.holds('without a step only for exponent 0', s1.pc, ieq(e, I0))
                P.eq('x^0 = 1', s1.pc, o.value, R1)
                continue
            cu = RCut(ex, s1, base, fn_, h)
            regs = {l: v for l, v in cu.real.items() if l[0] == 'reg'}
            rl = [l for l, v in regs.items() if v.sort == 'R']
            il = [l for l, v in regs.items() if v.sort == 'I']
            if len(rl) != 2 or len(il) != 1:
                raise Unknown("loop variables")
            R_ = [l for l in rl if s1.frames[-1].regs[l[1]] is R1]
            B_ = [l for l in rl if s1.frames[-1].regs[l[1]] is b]
            if len(R_) != 1 or len(B_) != 1 or s1.frames[-1].regs[il[0][1]] is not e:
                raise Unknown("loop variables")
            s = cu.at(ivar('k'))
            x, y, q = regs[R_[0]], regs[B_[0]], regs[il[0]]
            s.assume(ile(I0, q))
            for o2 in cu.run(s):
                s2 = o2.state
                if not feasible(s2.pc):
                    continue
                seen.add(kd(o2))
                if kd(o2) == 'back':
                    x2, y2, q2 = cu.val(s2, R_[0]), cu.val(s2, B_[0]), cu.val(s2, il[0])
                    # invariant x*y^q, decreased by the rules y^(2m) = (y^2)^m and y^(2m+1) = y*(y^2)^m
                    P.holds('the exponent decreases', s2.pc, band(ile(I0, q2), ilt(q2, q)))
                    odd = isub(q, iscale(q2, 2))
                    P.holds('exponent halved', s2.pc, bor(ieq(odd, I0), ieq(odd, I1)))
                    P.eq('base squared', s2.pc, y2, y * y)
                    P.eq('invariant result * base^exponent', s2.pc, x2, rite(ieq(odd, I1), x * y, x))
                elif kd(o2) == 'ret' or kd(o2) == 'exit':
                    if kd(o2) == 'exit':
                        s2.frames[-1].loops = {}
                        outs = ex.run([s2], base)
                    else:
                        outs = [o2]
                    for o3 in outs:
                        P.holds('left only when the exponent is used up', o3.state.pc, ieq(q, I0))
                        P.eq('result', o3.state.pc, o3.value, x)
        P.fact('steps and exit reachable', 'back' in seen and len(seen) > 1, repr(seen))
    return simple(ctx, label, r'ipow\(double, int\)', body)


def h_ipow(P):
    return lambda ex, st, a, n: _ipow(P, ex, st, a, n)


def _ipow(P, ex, st, a, n):
    c = icst(a[1])
    if not st.ghost.get('nobounds'):
        P.holds('requires(ipow): exponent not negative', st.pc, ile(I0, a[1]))
    if c is not None and 0 <= c <= 12:
        r = R1
        for _ in range(c):
            r = r * a[0]
        return r
    return fn('ipw', a[0], i2r(a[1]))


def fitpow_task(ctx):
    label = 'ElementRFCavity::calFitPow'

    def body(P, ex, f):
        try:
            ex.contracts[fnm(ctx, r'ipow\(double, int\)')] = h_ipow(P)
        except Unknown:
            pass
        st = State()
        n = ivar('n')
        ex.nonneg = ex.nonneg | {'n'}
        st.assume(ile(I0, n))
        st.assume(ile(n, ic(2 ** 31 - 1)))
        e = new_obj(ctx, ex, st, CLS, 'E', tu=TU)
        v = ex.alloc(st, 'fit')
        LIB.vec_new(ex, st, Ptr(v.id, I0), n, 8, {0: (8, 'R')}, base='sym', name='fit', fam='fit')
        x = rvar('kfac')
        q = ivar('$q')
        k = 0
        for o in ex.call(st, f, [e.ptr, x, Ptr(v.id, I0)], mod(ctx)):
            s = o.state
            if not feasible(s.pc):
                continue
            k += 1
            P.fact('returns', o.kind == 'ret', o.kind)
            P.eq('polynomial, highest power first', s.pc, o.value, R0 if entails(s.pc, ile(n, I0)) else rsum(q, I0, n, relem('fit', q, 0) * fn('ipw', x, i2r(isub(isub(n, q), I1)))))
        P.fact('reachable', k > 0)
    return simple(ctx, label, r'ElementRFCavity::calFitPow\(.*', body)


def transmap_task(ctx, half):
    label = 'calTransfac (%s the table)' % ('first half of' if half else 'all of')

    def body(P, ex, f):
        st = State()
        n, w = sizes(st, ex)
        t = ex.alloc(st, 'tab', size=88)
        tab = table(ctx, ex, st, Ptr(t.id, I0), 'F', n, w)
        col, gap, K = ivar('col'), ivar('gap'), rvar('K')
        ex.nonneg = ex.nonneg | {'col'}
        st.assume(ile(ic(2), col))
        st.assume(ile(col, ic(2 ** 31 - 1)))
        out = {k: cell(ex, st, k) for k in OUT6}
        st.assume(ile(ic(4), n))      # fewer rows: nothing to integrate over
        m = idiv(n, 2) if half else n
        z = lambda i: tab(i, 0)
        E = lambda i: relem('F', iadd(imul(i, w), isub(col, I1)), 0)
        q = ivar('$q')
        q1 = iadd(q, I1)
        tot = lambda x: rsum(q, I0, isub(m, I1), x)
        dz = (z(isub(m, I1)) - z(I0)) / i2r(isub(m, I1))
        ab = (fabs(E(q)) + fabs(E(q1))) / 2.0
        A = tot(ab * dz)
        c = tot((z(q) - z(I0) + z(q1) - z(I0)) / 2.0 * ab * dz) / A
        mid = (z(q) + z(q1)) / 2.0 - z(I0) - c
        e = (E(q) + E(q1)) / 2.0
        W = {'Ecen': c, 'T': tot(e * cos(K * mid) * dz) / A, 'Tp': -(tot(e * mid * sin(K * mid) * dz) / A),
             'S': tot(e * sin(K * mid) * (z(q1) - z(q))) / A, 'Sp': tot(e * mid * cos(K * mid) * dz) / A, 'V0': A / MeVtoeV / MtoMM}
        s0 = st.clone()
        seen = set()
        for o in ex.call(st, f, [Ptr(t.id, I0), col, gap, K, TRUE if half else FALSE] + [out[k] for k in OUT6], mod(ctx)):
            s = o.state
            if not feasible(s.pc):
                continue
            seen.add(o.kind)
            if o.kind == 'throw':
                P.holds('error only for a missing column', s.pc, ilt(w, col))
                continue
            P.fact('returns', o.kind == 'ret', o.kind)
            P.holds('a missing column is an error', s.pc, ile(col, w))
            second = ieq(gap, ic(2))
            if not entails(s.pc, second) and not entails(s.pc, bnot(second)):
                raise Unknown("gap not decided")
            x = dict(W)
            if entails(s.pc, second):
                x.update(Ecen=z(isub(n, I1)) - W['Ecen'], T=-W['T'], Tp=-W['Tp'])
            P.eqs('second gap' if entails(s.pc, second) else 'other gap', s.pc, [(k, ex.load(s, out[k], D), x[k]) for k in OUT6])
            frame_unchanged(P, 'table unchanged', ex, s0, s, t.id)
        P.fact('reachable', seen == {'ret', 'throw'}, repr(seen))
    return simple(ctx, label, r'calTransfac\(.*', body)


def tasks(ctx):
    return [pwr_task(ctx), gapmodel_task(ctx), transfacts_task(ctx), multipole_task(ctx), boost_task(ctx), ipow_task(ctx), fitpow_task(ctx), transmap_task(ctx, False), transmap_task(ctx, True)]
