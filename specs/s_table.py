"""numeric_table::readvec(): a vector of rows*columns values becomes the table of these rows, in order; any other number of
values, or no columns, is refused and the table is unchanged.  Decided for the two columns (position, field) every caller uses;
ublas::matrix is executed as compiled.

numeric_table_cache::fetch(): see fetch_task; assumed: std::map, boost::shared_ptr, boost::filesystem::last_write_time,
is_absolute, std::ifstream (opening), and that numeric_table::read refuses a stream in an error state."""
from verify import *

TUS = ['util']
TU = 'util'
COLS = 2


def readvec_task(ctx, whole, cols=None):
    label = 'numeric_table::readvec (%s)' % ('whole rows' if whole else 'part of a row refused' if cols is None else 'no columns refused')

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'numeric_table::readvec\(.*', TU)
        rec.functions.append(f)
        ex = ctx.executor()
        st = State()
        n, k = ivar('n'), ivar('k')
        ex.nonneg = ex.nonneg | {'n', 'k', 'rows'}
        st.assume(ile(n, ic(2 ** 31 - 1)))
        st.assume(ile(I0, ivar('rows')))
        if cols is None:
            st.assume(ieq(n, iadd(iscale(ivar('rows'), COLS), I0 if whole else I1)))
        else:
            st.assume(ile(cols, I0))
        o = ctx.lay.off('numeric_table', 'table', TU)
        t = ex.alloc(st, 'table', size=88)
        old = ex.alloc(st, 'old data', base='sym', stride=8, layout={0: (8, 'R')}, count=ivar('n0'), fam='old')
        st.assume(ile(I1, ivar('n0')))
        for d, v in ((0, ivar('r0')), (8, ivar('c0')), (24, ivar('n0'))):
            ex.store(st, Ptr(t.id, ic(o + d)), v, ('i', 64))
        ex.store(st, Ptr(t.id, ic(o + 32)), Ptr(old.id, I0), PTR)
        v = ex.alloc(st, 'values', size=24)
        LIB.vec_new(ex, st, Ptr(v.id, I0), n, 8, {0: (8, 'R')}, base='sym', name='data', fam='data')

        def h_new(ex, s, a, n_):
            r = ex.alloc(s, 'new data', base='uninit', stride=8, layout={0: (8, 'R')}, count=idiv(a[0], 8), fam='new')
            return Ptr(r.id, I0)
        ex.contracts['_Znwm'] = h_new
        s0 = st.clone()
        seen = 0
        for o_ in ex.call(st, f, [Ptr(t.id, I0), Ptr(v.id, I0), ic(COLS) if cols is None else cols], ctx.prog.mods[TU]):
            s = o_.state
            if not feasible(s.pc):
                continue
            seen += 1
            g = lambda d, ty: ex.load(s, Ptr(t.id, ic(o + d)), ty)
            if not whole:
                P.fact('refused', o_.kind == 'throw', o_.kind)
                frame_unchanged(P, 'table unchanged', ex, s0, s, t.id)
                continue
            P.fact('accepted', o_.kind == 'ret', o_.kind)
            P.holds('rows', s.pc, ieq(g(0, ('i', 64)), ivar('rows')))
            P.holds('columns', s.pc, ieq(g(8, ('i', 64)), ic(COLS)))
            P.holds('size', s.pc, ieq(g(24, ('i', 64)), n))
            p = g(32, PTR)
            if p.r is None:
                P.holds('no data only without rows', s.pc, ieq(n, I0))
                continue
            s.assume(ile(I0, k))
            s.assume(ilt(k, n))
            if not feasible(s.pc):
                continue
            P.eq('value k of the vector is entry k, row by row', s.pc, ex.load(s, Ptr(p.r, iadd(p.o, iscale(k, 8))), ('d',)), relem('data', k, 0))
        P.fact('reachable', seen > 0)
    return Task(label, run)


def tasks(ctx):
    return [readvec_task(ctx, True), readvec_task(ctx, False), readvec_task(ctx, False, ivar('columns')), fetch_task(ctx)]


# ------------------------------------------------------------------ the cache of data files
STREAM_NOOP = r'std::(ios_base|basic_istream|basic_ios|istream|basic_filebuf)(<char, std::char_traits<char> ?>)?::(~?ios_base|~?basic_istream|~?basic_filebuf|~?istream|clear|setstate|close)\('


def fetch_task(ctx):
    """what is returned for a path is what reading the file of that path gave, at the modification time the file has now"""
    label = 'numeric_table_cache::fetch'

    def run(rec):
        P = Prover(rec, label)
        f = ctx.find(r'numeric_table_cache::fetch\(.*', TU)
        rec.functions.append(f)
        dm = ctx.lib.dm
        C = {}
        path = ('sym', 'path')
        found, absolute = pred('cached'), pred('absolute path')
        times, cached_at = [], ivar('time of the cached contents')

        def h_root(ex, st, a, n):
            return [ivar('root position'), iite(absolute, I1, I0)]

        def h_time(ex, st, a, n):
            P.fact('modification time of this file', LIB.strval(st, a[0]) == path, repr(LIB.strval(st, a[0])))
            s2 = st.clone()
            s2.trace.append(('file error',))
            v = ivar('mtime%d' % len([x for x in st.trace if x[0] == 'time']))
            st.trace.append(('time', v))
            return Fork([(st, v), (s2, Throw('_ZTISt13runtime_error'))])

        def h_lock(ex, st, a, n):
            P.fact('the lock of the cache', a[0] == Ptr(pvt.id, I0) and not st.ghost.get('locked'))
            st.ghost['locked'] = True
            return I0

        def h_unlock(ex, st, a, n):
            P.fact('the lock of the cache is held', a[0] == Ptr(pvt.id, I0) and bool(st.ghost.get('locked')))
            st.ghost['locked'] = False
            return I0

        def held(st):
            P.fact('the cache is used under its lock', bool(st.ghost.get('locked')))

        def h_find(ex, st, a, n):
            held(st)
            P.fact('looked up by path', LIB.strval(st, a[-1]) == path)
            return Ptr('map:it', I0)

        def h_end(ex, st, a, n):
            return Ptr('map:end', I0)

        def tok(st, ex, p):
            v = p if isinstance(p.r, str) else ex.load(st, p, PTR)
            return v.r

        def h_iteq(ex, st, a, n):
            if {tok(st, ex, a[0]), tok(st, ex, a[1])} != {'map:it', 'map:end'}:
                raise Unknown("iterators")
            return found if '_ZStne' in n else bnot(found)

        def h_val(ex, st, a, n):
            if tok(st, ex, a[0]) != 'map:it':
                raise Unknown("iterator")
            P.holds('an entry is read only where there is one', st.pc, found)
            held(st)
            return Ptr(pair.id, I0)

        def h_index(ex, st, a, n):
            held(st)
            P.fact('stored by path', LIB.strval(st, a[1]) == path)
            r = ex.alloc(st, 'entry', size=24)
            ex.store(st, Ptr(r.id, ic(VT)), NULL, PTR)
            ex.store(st, Ptr(r.id, ic(VT + 8)), NULL, PTR)
            ex.store(st, Ptr(r.id, ic(VL)), I0, ('i', 64))
            st.ghost['entry'] = r.id
            return Ptr(r.id, I0)

        def h_open(ex, st, a, n):
            P.fact('the file of the path is opened', LIB.cstr_at(st, a[1]) == path)
            s2 = st.clone()
            st.ghost['open'] = a[0].r
            st.trace.append(('open',))
            return Fork([(st, a[0]), (s2, NULL)])

        def h_init(ex, st, a, n):
            for k in range(24, 40, 4):      # flags and state of the stream
                ex.store(st, CT.at(a[0], k), I0, ('i', 32))

        def h_read(ex, st, a, n):
            P.fact('a new table is filled', a[0].r not in (t0.id,) and st.mem[a[0].r].name == 'heap table')
            if st.ghost.get('open') is None:        # reading from a stream in an error state is refused
                st.trace.append(('file error',))
                return Throw('_ZTISt13runtime_error')
            P.fact('read from the opened file', st.ghost.get('open') == a[1].r)
            s2 = st.clone()
            s2.trace.append(('file error',))
            st.ghost['filled'] = a[0].r
            return Fork([(st, None), (s2, Throw('_ZTISt13runtime_error'))])

        def h_new(ex, st, a, n):
            return Ptr(ex.alloc(st, 'heap table').id, I0)

        def sp_new(ex, st, a, n):
            ex.store(st, a[0], NULL, PTR)
            ex.store(st, CT.at(a[0], 8), NULL, PTR)

        def sp_copy(ex, st, a, n):
            ex.store(st, a[0], ex.load(st, a[1], PTR), PTR)
            ex.store(st, CT.at(a[0], 8), NULL, PTR)
            return a[0]

        def sp_reset(ex, st, a, n):
            ex.store(st, a[0], a[1], PTR)

        def sp_swap(ex, st, a, n):
            x, y = ex.load(st, a[0], PTR), ex.load(st, a[1], PTR)
            ex.store(st, a[0], y, PTR)
            ex.store(st, a[1], x, PTR)

        def sp_get(ex, st, a, n):
            return ex.load(st, a[0], PTR)
        VL, VT = ctx.lay.off('numeric_table_cache::Pvt::Value', 'lastmod', TU), ctx.lay.off('numeric_table_cache::Pvt::Value', 'table', TU)
        for n, d in dm.items():
            s = build.strip_templates(d)
            own = 'numeric_table_cache::Pvt::Value' in d
            if 'path_algorithms::find_root_directory' in d:
                C[n] = h_root
            elif 'last_write_time' in d:
                C[n] = h_time
            elif own and re.search(r'std::map::(find|lower_bound)\(', s):
                C[n] = h_find
            elif own and re.search(r'std::map::c?end\(', s):
                C[n] = h_end
            elif own and re.search(r'std::map::operator\[\]\(', s):
                C[n] = h_index
            elif own and re.search(r'std::operator[!=]=\(std::_Rb_tree_(const_)?iterator', s):
                C[n] = h_iteq
            elif own and '::_M_valptr()' in d:
                C[n] = h_val
            elif re.match(r'boost::shared_ptr<numeric_table( const)?>::shared_ptr\(\)', d):
                C[n] = sp_new
            elif re.match(r'boost::shared_ptr<numeric_table( const)?>::(shared_ptr(<numeric_table>)?|operator=(<numeric_table>)?)\(boost::shared_ptr<numeric_table> ?(const&|&&)', d):
                C[n] = sp_copy
            elif re.match(r'(void )?boost::shared_ptr<numeric_table>::(reset|shared_ptr)<numeric_table>\(numeric_table\*\)', d):
                C[n] = sp_reset
            elif re.match(r'boost::shared_ptr<numeric_table>::swap\(', d):
                C[n] = sp_swap
            elif re.match(r'boost::shared_ptr<numeric_table( const)?>::(operator->|operator\*|get)\(', d):
                C[n] = sp_get
            elif re.match(r'boost::shared_ptr<numeric_table( const)?>::~shared_ptr', d) or d.startswith('numeric_table::numeric_table()'):
                C[n] = CT.h_noop
            elif d.startswith('numeric_table::read('):
                C[n] = h_read
            elif re.match(r'std::basic_filebuf<.*>::open\(char const\*', d):
                C[n] = h_open
            elif re.match(r'std::basic_ios<.*>::init\(', d):
                C[n] = h_init
            elif re.match(STREAM_NOOP, d) or re.match(r'std::basic_ifstream<.*>::~basic_ifstream', d):
                C[n] = CT.h_noop
        C['_Znwm'] = h_new
        C['_ZNSiC2Ev'] = C['_ZNSiD2Ev'] = CT.h_noop
        C['pthread_mutex_lock'], C['pthread_mutex_unlock'] = h_lock, h_unlock
        ex = ctx.executor(C)
        ex.contracts.update(C)
        st = State()
        mod = ctx.prog.mods[TU]
        for g in ('_ZTVSt14basic_ifstreamIcSt11char_traitsIcEE', '_ZTTSt14basic_ifstreamIcSt11char_traitsIcEE'):
            r = st.rw(ex.gptr(st, g, mod).r)
            for k in range(0, 80, 8):
                if g.startswith('_ZTV'):
                    r.cells[k] = (8, ic(256))
                else:
                    r.cells[k] = (8, CT.at(ex.gptr(st, '_ZTVSt14basic_ifstreamIcSt11char_traitsIcEE', mod), 24))
        pvt = ex.alloc(st, 'Pvt')
        this = ex.alloc(st, 'cache', size=8)
        ex.store(st, Ptr(this.id, I0), Ptr(pvt.id, I0), PTR)
        t0 = ex.alloc(st, 'cached table')
        pair = ex.alloc(st, 'cached entry')
        LIB.gset(st, Ptr(pair.id, I0), path)
        ex.store(st, Ptr(pair.id, ic(32 + VL)), cached_at, ('i', 64))
        ex.store(st, Ptr(pair.id, ic(32 + VT)), Ptr(t0.id, I0), PTR)
        ex.store(st, Ptr(pair.id, ic(32 + VT + 8)), NULL, PTR)
        ps = ex.alloc(st, 'path')
        LIB.gset(st, Ptr(ps.id, I0), path)
        out = ex.alloc(st, 'result', size=16)
        seen = set()
        for o in ex.call(st, f, [Ptr(out.id, I0), Ptr(this.id, I0), Ptr(ps.id, I0)], mod):
            s = o.state
            if not feasible(s.pc):
                continue
            P.fact('the lock is released', not s.ghost.get('locked'))
            entry = s.ghost.get('entry')
            tm = [x[1] for x in s.trace if x[0] == 'time']
            for nm, rid, off in (('cached before', pair.id, 32), ('cached now', entry, 0)):
                if rid is None:
                    continue
                v, t = ex.load(s, Ptr(rid, ic(off + VL)), ('i', 64)), ex.load(s, Ptr(rid, ic(off + VT)), PTR)
                if t.r == t0.id:
                    P.holds('%s: the time of the cached contents' % nm, s.pc, ieq(v, cached_at))
                else:
                    P.fact('%s: what was read from the file' % nm, t.r is not None and t.r == s.ghost.get('filled'))
                    P.holds('%s: a modification time of the file' % nm, s.pc, bor(*[ieq(v, t_) for t_ in tm]))
            if o.kind == 'throw':
                if ('file error',) in s.trace:
                    seen.add('file error')
                else:
                    seen.add('relative')
                    P.holds('refused only for a relative path', s.pc, bnot(absolute))
                continue
            P.holds('only absolute paths', s.pc, absolute)
            r = ex.load(s, Ptr(out.id, I0), PTR)
            P.fact('the modification time is read', bool(tm))
            if r.r == t0.id:
                seen.add('cached')
                P.holds('cached contents only for the same modification time', s.pc, band(found, ieq(tm[0], cached_at)))
            else:
                seen.add('read')
                P.fact('what was read is returned', r.r is not None and s.ghost.get('filled') == r.r)
        P.fact('outcomes reachable', seen >= {'file error', 'relative', 'read'}, repr(seen))
    return Task(label, run)
