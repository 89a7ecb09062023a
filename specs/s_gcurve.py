"""GetCurveData(): for n = 0 .. ncurve-1, curve<n> (of the element or of its curve file, cut to use_range) and scl_fac<n>
(0 when absent) appended in order; all curves of one length; the contents of a curve file are those of the file of that name
and modification time.  The loop over the curves is cut at its header.  Assumed: std::map, std::vector<std::vector>,
boost::shared_ptr, boost::filesystem::last_write_time, SB (text), and that a cached entry holds what parsing the file named by
its key gives (established by every insertion, which is checked)."""
from verify import *
from s_base import run_to
from s_sext import kd
from loopcut import RCut

TUS = ['moment', 'base', 'moment_sup']
OK_EXC = '_ZTISt13runtime_error'


def flat(v):
    if v[0] == 'cat':
        return flat(v[1]) + flat(v[2])
    if v[0] == 'lit' and v[1] == '':
        return []
    return [v]


def norm(v):
    out = []
    for x in flat(v):
        if out and out[-1][0] == 'lit' and x[0] == 'lit':
            out[-1] = ('lit', out[-1][1] + x[1])
        else:
            out.append(x)
    return tuple(out)


def cat(a, b):
    return ('lit', a[1] + b[1]) if a[0] == b[0] == 'lit' else ('cat', a, b)


def task(ctx, file, rng):
    label = 'GetCurveData (%s, %s)' % ('curve file' if file else 'curves of the element', 'use_range' if rng else 'whole curves')
    src = 'FILE' if file else 'C'

    def run(rec):
        P = Prover(rec, label)
        C = CT.config_contracts(ctx)
        dm = ctx.lib.dm
        path, mtime = [None], ivar('mtime')
        found = pred('cached')
        length = lambda i: iatom('curve length', i)

        def number(v, what):
            x = norm(v)
            if len(x) != 2 or x[0] != ('lit', what) or x[1][0] != 'num':
                return None
            return x[1][1]

        def h_tryvec(ex, st, a, n):
            k = LIB.strval(st, a[1])
            c = CT.confname(st, a[0])
            if k == ('lit', 'use_range'):
                P.fact('use_range is a parameter of the element', c == 'C')
                if not rng:
                    return FALSE
                LIB.vec_new(ex, st, a[2], ivar('nrange'), 8, {0: (8, 'R')}, base='sym', name='range', fam='range')
                return TRUE
            i = number(k, 'curve')
            if i is None:
                raise Unknown("parameter %r" % (k,))
            P.fact('curves are taken from the %s' % ('curve file' if file else 'element'), c == src, repr(c))
            st.trace.append(('read', i))
            st.assume(ile(I0, length(i)))
            s2 = st.clone()
            st.assume(pred('has curve', i))
            s2.assume(bnot(pred('has curve', i)))
            LIB.vec_new(ex, st, a[2], length(i), 8, {0: (8, 'R')}, base='sym', name='curve', fam=('curve', i))
            return Fork([(st, TRUE), (s2, FALSE)])

        def h_trystr(ex, st, a, n):
            if LIB.strval(st, a[1]) != ('lit', 'CurveFile') or CT.confname(st, a[0]) != 'C':
                raise Unknown("parameter")
            if file:
                LIB.gset(st, a[2], ('sym', 'CurveFile'))
            return TRUE if file else FALSE

        def h_getstr(ex, st, a, n):
            P.fact('directory of the data files', LIB.strval(st, a[1]) == ('lit', 'Eng_Data_Dir') and CT.confname(st, a[0]) == 'C')
            r = ex.alloc(st, 'string')
            LIB.gset(st, Ptr(r.id, I0), ('sym', 'dir'))
            return Ptr(r.id, I0)

        def h_scale(ex, st, a, n):
            i = number(LIB.strval(st, a[1]), 'scl_fac')
            if i is None or CT.confname(st, a[0]) != 'C':
                raise Unknown("parameter %r" % (LIB.strval(st, a[1]),))
            d = a[2] if isinstance(a[2], T) else ex.load(st, a[2], ('d',))
            return rite(pred('has scale', i), relem('scl_fac', i, 0), d)

        def h_cast(ex, st, a, n):
            LIB.gset(st, a[0], ('num', ex.load(st, a[1], ('i', 32 if 'unsigned int>' in dm[n] else 64))))

        def h_time(ex, st, a, n):
            p = norm(LIB.strval(st, a[0]))
            P.fact('modification time of the curve file', p == WANT, repr(p))
            s2 = st.clone()
            s2.trace.append(('file error',))
            return Fork([(st, mtime), (s2, Throw(OK_EXC))])

        def sb_new(ex, st, a, n):
            LIB.gset(st, a[0], ('sb', ('lit', '')))

        def sb_put(ex, st, a, n):
            g = LIB.gget(st, a[0])
            d = dm[n]
            t = d[d.index('operator<<') + 10:]
            if 'char const*' in t:
                v = LIB.cstr_at(st, a[1])
            elif 'basic_string' in t:
                v = LIB.strval(st, a[1])
            else:
                v = ('num', a[1])
            LIB.gset(st, a[0], ('sb', cat(g[1], v)))
            return a[0]

        def sb_str(ex, st, a, n):
            LIB.gset(st, a[0], LIB.gget(st, a[1])[1])

        def is_key(v):
            x, w = norm(v), len(WANT)
            if x[:w] == WANT and len(x) > w and x[w][0] == 'lit' and x[w + 1:] == (('num', mtime),):
                return True
            if ('num', mtime) in x and all(y in x or y[0] == 'lit' for y in WANT):
                raise Unknown("key of the cache %r" % (x,))
            return False

        def h_find(ex, st, a, n):
            P.fact('cache looked up by name and modification time', is_key(LIB.strval(st, a[-1])), repr(LIB.strval(st, a[-1])))
            return Ptr('map:it', I0)

        def h_end(ex, st, a, n):
            return Ptr('map:end', I0)

        def tok(st, ex, p):
            v = p if isinstance(p.r, str) else ex.load(st, p, PTR)
            return v.r

        def h_iteq(ex, st, a, n):
            if {tok(st, ex, a[0]), tok(st, ex, a[1])} != {'map:it', 'map:end'}:
                raise Unknown("iterators")
            return found if '_ZStneR' in n else bnot(found)

        def conf_at(ex, st, p, nm):
            r = ex.alloc(st, 'conf')
            r.cells[('g', 0)] = ('config', nm)
            ex.store(st, p, Ptr(r.id, I0), PTR)
            ex.store(st, CT.at(p, 8), NULL, PTR)

        def h_index(ex, st, a, n):
            P.fact('cache read by name and modification time', is_key(LIB.strval(st, a[1])))
            P.holds('only a cached file is taken from the cache', st.pc, found)
            r = ex.alloc(st, 'entry', size=16)
            conf_at(ex, st, Ptr(r.id, I0), 'FILE')
            return Ptr(r.id, I0)

        def h_insert(ex, st, a, n):
            p = [x for x in a if isinstance(x, Ptr) and not isinstance(x.r, str)][-1]
            k = LIB.strval(st, p)
            v = ex.load(st, CT.at(p, 32), PTR)
            P.fact('cache entry: name and modification time', is_key(k), repr(k))
            P.fact('cache entry: contents of the file', v.r is not None and LIB.gget(st, v) == ('config', 'FILE'))
            st.trace.append(('insert',))
            return UNDEF

        def h_parse(ex, st, a, n):
            p = norm(LIB.cstr_at(st, a[1]))
            P.fact('the curve file is read', p == WANT, repr(p))
            st.trace.append(('parse',))
            s2 = st.clone()
            s2.trace.append(('file error',))
            r = ex.alloc(st, 'parsed')
            r.cells[('g', 0)] = ('config', 'FILE')
            return Fork([(st, Ptr(r.id, I0)), (s2, Throw(OK_EXC))])

        def sp_new(ex, st, a, n):
            ex.store(st, a[0], NULL, PTR)
            ex.store(st, CT.at(a[0], 8), NULL, PTR)

        def sp_copy(ex, st, a, n):
            ex.store(st, a[0], ex.load(st, a[1], PTR), PTR)
            ex.store(st, CT.at(a[0], 8), NULL, PTR)
            return a[0]

        def sp_reset(ex, st, a, n):
            ex.store(st, a[0], a[1], PTR)

        def sp_get(ex, st, a, n):
            return ex.load(st, a[0], PTR)

        def h_push_curve(ex, st, a, n):
            if a[0] != cp:
                raise Unknown("list of curves")
            b, e = LIB.vec(ex, st, a[1])
            if b.r is None:
                st.trace.append(('curve', None, I0, I0))
                return
            st.trace.append(('curve', st.mem[b.r], b, e))

        def h_push_scale(ex, st, a, n):
            if a[0] != sp:
                raise Unknown("list of scale factors")
            st.trace.append(('scale', ex.load(st, a[1], ('d',))))
        def h_range(ex, st, a, n):
            """vector(first, last); std::length_error when last is before first"""
            v = [x if x.r is not None and st.mem[x.r].stride == 8 else ex.load(st, x, PTR) for x in a[1:3]]
            if v[0].r != v[1].r:
                raise Unknown("range of two vectors")
            reg = st.mem[v[0].r]
            m, (i0, off) = idiv(isub(v[1].o, v[0].o), 8), ex.idx(reg, v[0].o)
            s2 = st.clone()
            st.assume(ile(I0, m))
            s2.assume(ilt(m, I0))
            LIB.vec_new(ex, st, a[0], m, 8, {0: (8, 'R')}, name='part', log=(('copy', I0, m, reg, i0),))
            return Fork([(st, None), (s2, Throw('_ZTISt12length_error'))])
        WANT = norm(('cat', ('sym', 'dir'), ('cat', ('lit', '/'), ('sym', 'CurveFile'))))
        for n, d in dm.items():
            s = build.strip_templates(d)
            if 'Config::tryGet<std::vector<double' in d:
                C[n] = h_tryvec
            elif 'Config::tryGet<std::__cxx11' in d:
                C[n] = h_trystr
            elif 'Config::get<std::__cxx11' in d:
                C[n] = h_getstr
            elif 'Config::get<double>' in d:
                C[n] = h_scale
            elif 'boost::lexical_cast<std::__cxx11' in d and ('unsigned int>' in d or 'unsigned long>' in d):
                C[n] = h_cast
            elif 'last_write_time' in d:
                C[n] = h_time
            elif d == 'SB::SB()':
                C[n] = sb_new
            elif d == 'SB::~SB()' or re.match(r'GLPSParser::~?GLPSParser\(\)', d):
                C[n] = CT.h_noop
            elif d.startswith('SB& SB::operator<<') or d.startswith('SB::operator<<'):
                C[n] = sb_put
            elif n.startswith('_ZNK2SBcv'):
                C[n] = sb_str
            elif 'GLPSParser::parse_file(char const*' in d:
                C[n] = h_parse
            elif 'shared_ptr<Config>' in d and re.search(r'std::map::find\(', s):
                C[n] = h_find
            elif 'shared_ptr<Config>' in d and re.search(r'std::map::end\(', s):
                C[n] = h_end
            elif 'shared_ptr<Config>' in d and re.search(r'std::map::operator\[\]\(', s):
                C[n] = h_index
            elif 'shared_ptr<Config>' in d and re.search(r'std::map::insert\(', s):
                C[n] = h_insert
            elif 'shared_ptr<Config>' in d and re.search(r'std::operator[!=]=\(std::_Rb_tree_iterator', s):
                C[n] = h_iteq
            elif d.startswith('boost::shared_ptr<Config>::shared_ptr()'):
                C[n] = sp_new
            elif re.match(r'boost::shared_ptr<Config>::(shared_ptr|operator=)\(boost::shared_ptr<Config> ?(const&|&&)\)', d):
                C[n] = sp_copy
            elif re.match(r'(void )?boost::shared_ptr<Config>::reset<Config>\(', d):
                C[n] = sp_reset
            elif d.startswith('boost::shared_ptr<Config>::operator->') or d.startswith('boost::shared_ptr<Config>::operator*') or d.startswith('boost::shared_ptr<Config>::get('):
                C[n] = sp_get
            elif d.startswith('boost::shared_ptr<Config>::~shared_ptr'):
                C[n] = CT.h_noop
            elif re.match(r'std::vector<double, std::allocator<double> ?>::vector<__gnu_cxx::__normal_iterator', d):
                C[n] = h_range
            elif re.match(r'std::vector<std::vector<double.*::(push_back|emplace_back)', d):
                C[n] = h_push_curve
        ex = ctx.executor(C)
        ex.contracts.update(C)
        for n, d in dm.items():
            if re.match(r'std::vector<double, std::allocator<double> ?>::push_back\(', d):
                ex.contracts[n] = h_push_scale
        ex.contracts['__cxa_begin_catch'] = lambda ex, st, a, n: catch(ex, st)
        ex.contracts['%what'] = lambda ex, st, a, n: text(ex, st)

        def text(ex, st):
            r = ex.alloc(st, 'cstr')
            r.tag = ('cstr', ('sym', 'what'))
            return Ptr(r.id, I0)

        def catch(ex, st):
            st.caught.append(st.exc)
            vt = ex.alloc(st, 'vtable of the exception')
            ex.store(st, Ptr(vt.id, ic(16)), Ptr('fn:%what', I0), PTR)
            r = ex.alloc(st, 'exception')
            ex.store(st, Ptr(r.id, I0), Ptr(vt.id, I0), PTR)
            return Ptr(r.id, I0)
        st = State()
        nc, k = ivar('nc'), ivar('k')
        st.assume(ile(I1, nc))
        st.assume(ile(I0, mtime))
        for i_ in (I0, I1):      # use_range: numbers that are unsigned integers
            st.assume(ile(I0, toint(relem('range', i_, 0))))
        ex.nonneg = ex.nonneg | {'nc', 'k', 'nrange', 'mtime'}
        conf = ex.alloc(st, 'C')
        conf.cells[('g', 0)] = ('config', 'C')
        cp, sp = Ptr(ex.alloc(st, 'Curves', size=24).id, I0), Ptr(ex.alloc(st, 'Scales', size=24).id, I0)
        f = ctx.find(r'GetCurveData\(.*\)', 'moment_sup')
        mod = ctx.prog.mods['moment_sup']
        fn_ = ctx.prog.find(f, mod)
        hs = [h for h, b in fn_.loops.items()]
        if len(hs) != 1:
            raise Unknown("loop over the curves not found")
        h, base = hs[0], len(st.frames)
        ex.push(st, fn_, [Ptr(conf.id, I0), nc, sp, cp])
        seen, starts = set(), []
        for o in run_to(ex, st, base, {h}):
            s = o.state
            if not feasible(s.pc):
                continue
            if kd(o) == 'throw':
                if ('file error',) in s.trace:
                    seen.add('file error')
                else:
                    P.holds('exceptions before the loop only for a bad range', s.pc, bor(bnot(ieq(ivar('nrange'), ic(2))), ilt(toint(relem('range', I1, 0)), toint(relem('range', I0, 0)))) if rng else FALSE)
                continue
            if kd(o) != 'back':
                raise Unknown("control flow %r" % (o.info,))
            if file:
                parsed = ('parse',) in s.trace
                P.fact('a parsed file is cached', s.trace.count(('insert',)) == (1 if parsed else 0))
                P.holds('a file is parsed iff it is not cached', s.pc, bnot(found) if parsed else found)
            starts.append(s)
        P.fact('loop reached', bool(starts))
        for s0 in starts:
            cu = RCut(ex, s0, base, fn_, h)
            s = cu.at(k)
            s.assume(ile(I0, k))
            s.assume(ile(k, nc))
            carried = [v for v in cu.real.values() if isinstance(v, T) and v.sort == 'I']
            loc = [l for l, v in cu.real.items() if isinstance(v, T) and v.sort == 'I']
            if len(carried) != 1:
                raise Unknown("loop-carried length not found")
            x, t0 = carried[0], len(s.trace)
            s.assume(ile(I0, x))
            outs = []
            for o in cu.run(s):
                outs += ex.run([o.state], base) if kd(o) == 'exit' and feasible(o.state.pc) else [o]
            for o in outs:
                s1 = o.state
                if not feasible(s1.pc):
                    continue
                ev = s1.trace[t0:]
                r0, r1 = relem('range', I0, 0), relem('range', I1, 0)
                if kd(o) == 'ret':
                    P.holds('all curves', s1.pc, ieq(k, nc))
                    P.fact('nothing added after the last curve', not [e for e in ev if e[0] in ('curve', 'scale')])
                    seen.add('ret')
                    continue
                P.holds('within the curves', s1.pc, ilt(k, nc))
                if kd(o) == 'throw':
                    seen.add('throw')
                    bad = [bnot(pred('has curve', k)), band(ile(I1, k), bnot(ieq(x, length(k))))]
                    if rng:
                        bad += [bnot(ieq(ivar('nrange'), ic(2)))]
                        bad += [ilt(length(k), toint(r0)), ilt(length(k), toint(r1)), ilt(toint(r1), toint(r0))]
                    P.holds('an exception only for a missing curve, a bad range or unequal lengths', s1.pc, bor(*bad))
                    continue
                seen.add('next')
                P.holds('a missing curve is reported', s1.pc, pred('has curve', k))
                P.holds('unequal lengths are reported', s1.pc, bor(ieq(k, I0), ieq(x, length(k))))
                P.holds('length of the previous curve kept', s1.pc, ieq(s1.frames[-1].regs[loc[0][1]], length(k)))
                cs, ss = [e for e in ev if e[0] == 'curve'], [e for e in ev if e[0] == 'scale']
                P.fact('one curve and one scale factor added', len(cs) == 1 and len(ss) == 1, repr(ev))
                if len(cs) != 1 or len(ss) != 1:
                    continue
                P.eq('scale factor', s1.pc, ss[0][1], rite(pred('has scale', k), relem('scl_fac', k, 0), R0))
                _, reg, b, e = cs[0]
                n_ = idiv(isub(e.o, b.o), 8)
                q = ivar('q')
                s1.assume(ile(I0, q))
                s1.assume(ilt(q, n_))
                got = ex.load(s1, Ptr(b.r, iadd(b.o, iscale(q, 8))), ('d',)) if feasible(s1.pc) else None
                if not rng:
                    P.holds('whole curve', s1.pc, ieq(n_, length(k)))
                    if got is not None:
                        P.eq('points of the curve', s1.pc, got, relem(('curve', k), q, 0))
                else:
                    P.holds('two numbers in use_range', s1.pc, ieq(ivar('nrange'), ic(2)))
                    a_, b_ = toint(r0), toint(r1)
                    P.holds('range within the curve', s1.pc, band(ile(a_, length(k)), ile(b_, length(k))))
                    P.holds('number of points selected', s1.pc, ieq(n_, isub(b_, a_)))
                    if got is not None:
                        P.eq('points of the selected range', s1.pc, got, relem(('curve', k), iadd(q, a_), 0))
        P.fact('outcomes reachable', seen >= {'ret', 'throw', 'next'} and (not file or 'file error' in seen), repr(seen))
        rec.functions.extend([f] + [g for g in ex.stats['functions'] if not build.is_library(g)])
    return Task(label, run, cost=5)


def toint(r):
    return iatom('f2i', r)


def tasks(ctx):
    return [task(ctx, f, r) for f in (False, True) for r in (False, True)]
