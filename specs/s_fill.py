"""Lattice language: from the parser's tables to the Config handed to the user.

Config itself is used through its contract (proved in s_config): set/swap store a value under a name, new_scope is a Config
that inherits, swap exchanges two Configs.  Calls of these are recorded in order."""
from verify import *
import gmap as G
import seq as S
from s_base import run_to
from s_glps import kd, NUM, VEC, STRT, CONF
from loopcut import Cut, RCut
from s_glact import A, KIND

TUS = ['glps_ops', 'glps_parser', 'config', 'util', 'inst']
TU = 'config'
ANON = r'\(anonymous namespace\)::'


class F(A):
    def __init__(self, ctx, rec, label, f):
        A.__init__(self, ctx, rec, label, f, TU)
        c = self.ex.contracts
        self.ex.elem_types['Config'] = (ctx.lay.get('Config', TU)[0], {})
        for n, d in ctx.lib.dm.items():
            s = build.strip_templates(d)
            if re.match(r'void Config::set\(', s):
                c[n] = self.setter('set', G.vtype(d[len('void Config::set<'):]))
            elif re.match(r'void Config::swap\(', s):
                c[n] = self.setter('swap', G.vtype(d[len('void Config::swap<'):]))
            elif d.startswith('Config::setAny('):
                c[n] = self.h_setany
            elif d.startswith('Config::reserve('):
                c[n] = lambda ex, st, a, n: None
            elif d.startswith('std::vector<Config,') and re.search(r'std::vector::push_back\(', s):
                c[n] = self.h_cpush

    def key(self, p):
        return (p.r, icst(p.o))

    def setter(self, how, T):
        def h(ex, st, a, n):
            if T == 'cvec':
                k = self.key(a[2])
                try:
                    b = LIB.vec(ex, st, a[2])[0]
                    z = LIB.vec_size(ex, st, a[2], ex.elem_types['Config'][0])
                except Unknown:
                    b = z = None
                v = ('configs', k, st.ghost.get(('cvec', k), ()), b, z)
            elif how == 'swap' or T == 'string':
                v = self.textof(st, a[2])
            else:
                v = G.value_of_arg(ex, st, a[2], T)
            st.trace.append((how, a[0], LIB.strval(st, a[1]), T, v))
        return h

    def textof(self, st, p):
        return LIB.strval(st, p)

    def h_setany(self, ex, st, a, n):
        v = G.vget(ex, st, a[2])
        if v[0] != 'vt':
            raise Unknown("value of unknown type stored")
        st.trace.append(('set', a[0], LIB.strval(st, a[1]), v[1], v[2]))

    def h_cpush(self, ex, st, a, n):
        k = ('cvec', self.key(a[0]))
        st.ghost[k] = st.ghost.get(k, ()) + (a[1],)


def store_task(ctx, kind):
    label = 'stored value: ' + kind

    def run(rec):
        f = ctx.find(ANON + r'assign_expr_to_Config\(.*', TU)
        w = F(ctx, rec, label, f)
        P, ex, st = w.P, w.ex, w.st
        conf = Ptr(ex.alloc(st, 'conf', base='sym', size=32).id, I0)
        np, nm = w.string('name')
        x = rvar('x')
        obj = Ptr(ex.alloc(st, 'nested', base='sym', size=32).id, I0)
        t, v = {'number': (NUM, ('vt', 'double', x)), 'text': (STRT, ('vt', 'string', ('sym', 'text'))), 'vector': (VEC, ('vt', 'vec', ('sym', 'vector')))}.get(kind, (None, None))
        if v is not None:
            e = w.expr('value', t, v)
        elif kind in ('nested lattice', 'no nested lattice'):
            e = w.expr('value', CONF, ('vt', 'config', ('sym', 'config')))
            q = CT.at(e, w.eo['value'] + 8)
            ex.store(st, q, obj if kind == 'nested lattice' else NULL, PTR)
            for n_, d in ctx.lib.dm.items():
                if re.search(r'boost::get<boost::shared_ptr<Config>', d):
                    ex.contracts[n_] = lambda ex, s, a, n: q if a[0] == CT.at(e, w.eo['value']) else Throw('_ZTIN5boost7bad_getE')
        else:
            t = ivar('etype')
            for k in (NUM, VEC, STRT, CONF):
                st.assume(bnot(ieq(t, ic(k))))
            e = w.expr('value', t)
        n = 0
        for o in ex.call(st, f, [conf, np, e], w.mod()):
            s = o.state
            if not feasible(s.pc):
                continue
            n += 1
            g = [z for z in s.trace if z[0] in ('set', 'swap')]
            if kind == 'any other type':
                P.fact('refused', o.kind == 'throw', o.kind)
                P.fact('nothing stored', not g)
                continue
            P.fact('accepted', o.kind == 'ret', o.kind)
            P.fact('stored once', len(g) == 1, repr(g))
            if o.kind != 'ret' or len(g) != 1:
                continue
            g = g[0]
            P.fact('in the given Config', g[1] == conf, repr(g[1]))
            P.fact('under its name', g[2] == nm, repr(g[2]))
            if v is not None:
                P.fact('with its type', g[3] == v[1], repr(g[3]))
                if kind == 'number':
                    P.eq('its value', s.pc, g[4], x)
                else:
                    P.fact('its value', g[4] == v[2], repr(g[4]))
            else:
                P.fact('as a list of Configs', g[3] == 'cvec', repr(g[3]))
                if g[4][0] != 'configs':
                    raise Unknown("value of the list")
                P.fact('holding the nested Config', g[4][2] == ((obj,) if kind == 'nested lattice' else ()), repr(g[4]))
        P.fact('reachable', n > 0)
        w.finish()
    return Task(label, run)


def var_task(ctx, kind):
    label = 'predefined variable: ' + kind

    def run(rec):
        pat = {'number': r'double', 'text': r'std::__cxx11::basic_string<.*', 'vector': r'std::vector<double.*', 'list of Configs': r'std::vector<Config.*'}[kind]
        f = ctx.find(ANON + r'store_ctxt_var::operator\(\)\(' + pat + r'\) const', TU)
        w = F(ctx, rec, label, f)
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        np, nm = w.string('name')
        r = ex.alloc(st, 'visitor', size=16)
        lo = ctx.lay
        ex.store(st, Ptr(r.id, ic(0)), np, PTR)
        ex.store(st, Ptr(r.id, ic(8)), c, PTR)
        x = rvar('x')
        want = {'number': (NUM, ('vt', 'double', x)), 'text': (STRT, ('vt', 'string', ('sym', 'text'))), 'vector': (VEC, ('vt', 'vec', ('sym', 'vector')))}.get(kind)
        if kind == 'number':
            arg = x
        else:
            arg = Ptr(ex.alloc(st, 'arg', size=32).id, I0)
            G.gset(st, arg, ('sym', 'text') if kind == 'text' else ('opaque', ('sym', 'vector')))
        known, _ = G.lookup(w.table(st, 'parse_var')[1], nm)
        st.assume(bnot(known))       # names of predefined variables are distinct, the tables start empty
        s0 = st.clone()
        for o, s in w.calls(st, [Ptr(r.id, I0), arg]):
            P.fact('no error', not w.errors(s))
            if want is None:
                w.untouched('ignored', s0, s)
                continue
            w.untouched('defined', s0, s, ('parse_var',))
            y = w.added(s0, s, 'parse_var', nm)
            if y:
                P.fact('the name', y[0] == nm, repr(y[0]))
                P.holds('the type of the value', s.pc, ieq(y[1], ic(want[0])))
                P.fact('the value', y[2][:2] == want[1][:2] and (kind == 'number' or y[2] == want[1]), repr(y[2]))
                if kind == 'number':
                    P.eq('the number', s.pc, y[2][2], x)
    return Task(label, run)


class FC(F):
    """world of fill_context"""

    def __init__(self, ctx, rec, label, f):
        F.__init__(self, ctx, rec, label, f)
        c = self.ex.contracts
        size = self.ex.elem_types['Config'][0]
        for n, d in ctx.lib.dm.items():
            s = build.strip_templates(d)
            if re.match(ANON + r'assign_expr_to_Config\(', d):
                c[n] = self.h_assign
            elif d in ('Config::Config()',):
                c[n] = lambda ex, st, a, n: st.trace.append(('new', a[0]))
            elif d == 'Config::~Config()':
                c[n] = lambda ex, st, a, n: st.trace.append(('destroy', a[0]))
            elif d == 'Config::new_scope() const':
                c[n] = lambda ex, st, a, n: st.trace.append(('scope', a[0], a[1]))
            elif d == 'Config::swap(Config&)':
                c[n] = lambda ex, st, a, n: st.trace.append(('cswap', a[0], a[1]))
            elif 'expr_t' in d and re.search(r'std::map::(c?begin|c?end|size|empty)\(', s):
                c[n] = self.h_props
            elif 'expr_t' in d and re.match(r'(bool )?std::operator(==|!=)\(std::_Rb_tree_', s):
                c[n] = self.h_cmp
            elif re.match(r'(.* )?std::vector<std::__cxx11::basic_string', d) and re.search(r'std::vector::(size|empty|c?begin|c?end|operator\[\]|at)\(', s):
                c[n] = self.h_names
            elif 'expr_t' not in d and re.search(r'std::map<std::__cxx11::basic_string.*unsigned long', d) and re.search(r'std::map::(find|operator\[\]|at|count)\(', s):
                c[n] = self.known(c.get(n))
        for m in list(c):
            if re.match(r'_ZN6Config[CD]2E', m):      # the complete-object names of the same functions
                c[re.sub(r'([CD])2E', r'\g<1>1E', m, 1)] = c[m]
        for m in ('_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'):
            c[m] = self.h_incr

    def setup(self):
        cp = self.tables()
        ex, st = self.ex, self.st
        self.item = Ptr(ex.alloc(st, 'attribute', base='sym').id, I0)
        self.last, self.next = (Ptr(ex.alloc(st, k).id, I0) for k in ('end of the attributes', 'next attribute'))
        self.names = ex.alloc(st, 'names', base='sym', stride=32, layout={}, count=ivar('n.names'), fam='names').id
        st.assume(ile(I0, ivar('n.names')))
        self.no_more = pred('no further attribute')
        return cp

    def h_value(self, ex, st, p, mp, key, val, vt):
        A.h_value(self, ex, st, p, mp, key, val, vt)
        if 'expr_t' in vt:
            return
        # entries of the index tables designate entries of the sequences (kept by every definition, s_glact)
        for k, (v, i) in KIND.items():
            if mp == CT.at(self.cp, self.co[i]) and val[0] != 'default':
                x = ex.load(st, p, ('i', 64))
                st.assume(ile(I0, x))
                st.assume(ilt(x, self.len[k]))

    def known(self, h):
        """names in a beamline are those of defined elements (glps_append_expr gets them from glps_add_value)"""
        def g(ex, st, a, n):
            k = LIB.strval(st, a[1])
            if k[0] == 'elem' and k[1] == 'names' and a[0] == CT.at(self.cp, self.co['element_idx']):
                st.assume(G.lookup(G.mapval(st, a[0]), k)[0])
            return h(ex, st, a, n)
        if h is None:
            return lambda ex, st, a, n: (_ for _ in ()).throw(Unknown("map function"))
        return g

    def h_assign(self, ex, st, a, n):
        st.trace.append(('assign', a[0], a[1], a[2]))
        s2 = st.clone()
        s2.trace.append(('failed',))
        return Fork([(st, None), (s2, Throw('_ZTISt11logic_error'))])

    def h_names(self, ex, st, a, n):
        t = self.table_of(st, a[0])
        if t is None or t[0] != 'parse_line' or t[2] != self.off['parse_line']['names']:
            raise Unknown("another list of names")
        if st.ghost.setdefault('line', t[1]) != t[1]:
            raise Unknown("names of another beamline")
        s = build.strip_templates(ex.lib.dem(n))
        sz = st.mem[self.names].stride
        m = ivar('n.names')
        if '::size(' in s:
            return m
        if '::empty(' in s:
            return ieq(m, I0)
        if 'operator[](' in s:
            return Ptr(self.names, iscale(a[1], sz))
        if '::at(' in s:
            raise Unknown("checked access")
        return Ptr(self.names, I0 if 'begin(' in s else iscale(m, sz))

    def h_props(self, ex, st, a, n):
        t = self.table_of(st, a[0])
        if t is None or t[0] != 'parse_element' or t[2] != self.off['parse_element']['props']:
            raise Unknown("other attributes")
        s = build.strip_templates(ex.lib.dem(n))
        if '::size(' in s or '::empty(' in s:
            if '::empty(' in s:
                raise Unknown("attributes")
            z = ivar(fresh('n.props'))
            st.assume(ile(I0, z))
            return z
        if st.ghost.setdefault('props', t[1]) != t[1]:
            raise Unknown("attributes of another element")
        return self.item if 'begin(' in s else self.last

    def h_cmp(self, ex, st, a, n):
        x, y = ex.load(st, a[0], PTR), ex.load(st, a[1], PTR)
        if {x, y} != {self.item, self.last}:
            raise Unknown("comparison of attributes")
        return self.no_more if 'operator==' in ex.lib.dem(n) else bnot(self.no_more)

    def h_incr(self, ex, st, a, n):
        if a[0] != self.item:
            raise Unknown("advance over attributes")
        return self.next


class Fill:
    def __init__(self, ctx, rec, label, lattice):
        f = ctx.find(r'GLPSParser::Pvt::fill_context\(.*', TU)
        w = self.w = FC(ctx, rec, label, f)
        self.P, self.ex, st = w.P, w.ex, w.st
        self.lattice = lattice
        self.c = w.setup()
        self.fn_ = ctx.prog.find(f, w.mod())
        self.H = set(self.fn_.loops)
        this = Ptr(self.ex.alloc(st, 'parser', base='sym').id, I0)
        self.base = len(st.frames)
        self.s0 = st.clone()
        self.ex.push(st, self.fn_, [this, self.c, TRUE if lattice else FALSE])
        self.seen = set()
        self.idx = lambda k: G.mapval(self.s0, CT.at(self.c, w.co[KIND[k][1]]))

    def seg(self, s):
        """runs to the next loop header or to the end"""
        s.frames[-1].loops = {}
        return [o for o in run_to(self.ex, s, self.base, self.H) if feasible(o.state.pc)]

    def entry(self, v, i, m):
        return Ptr(LIB.vec(self.ex, self.s0, CT.at(self.c, self.w.co[v]))[0].r, iadd(iscale(i, self.w.size[{'vars': 'parse_var', 'elements': 'parse_element', 'line': 'parse_line'}[v]]), ic(m)))

    def same(self, name, pc, p, q):
        self.P.fact(name + ': object', isinstance(p, Ptr) and p.r == q.r, repr((p, q)))
        if isinstance(p, Ptr) and p.r == q.r:
            self.P.holds(name, pc, ieq(p.o, q.o))

    def failed(self, o, what):
        """leaves with an exception, nothing is returned and nothing leaks"""
        P, s = self.P, o.state
        P.fact(what + ': exception', kd(o) == 'throw', kd(o))
        P.fact(what + ': nothing leaks', ('freed', self.ret.r) in s.ghost)
        P.fact(what + ': destroyed once', [t[0] for t in s.trace if t[1:2] == (self.ret,)].count('destroy') == 1)

    def run(self):
        P, w, ex = self.P, self.w, self.ex
        first = self.seg(w.st)
        n = w.len['parse_var']
        o_ = w.off['parse_var']
        new = {t[1] for o in first for t in o.state.trace if t[0] == 'new'}
        if len(new) != 1 or any(not o.state.trace or o.state.trace[0][0] != 'new' for o in first):
            raise Unknown("result not found")
        self.ret = new.pop()
        if len(first) != 1 or kd(first[0]) != 'back':
            # the variables are stored elsewhere (a function of its own, an algorithm)
            for o in first:
                s2 = o.state
                d = s2.trace[1:]
                if ('failed',) in d:
                    self.seen.add('unresolved variable')
                    self.failed(o, 'unresolved variable')
                    continue
                if d and d[0][0] == 'loop':
                    self.seen.add('variable')
                    _, kv, lo, hi, ev = d[0]
                    P.holds('variables: all of them', s2.pc, band(ieq(lo, I0), ieq(hi, n)))
                    if len(ev) != 1 or ev[0][0] != 'assign':
                        raise Unknown("steps of a variable: %r" % (ev,))
                    P.fact('variables: stored in the result', ev[0][1] == self.ret, repr(ev[0][1]))
                    self.same('variables: name', s2.pc, ev[0][2], self.entry('vars', kv, o_['name']))
                    self.same('variables: value', s2.pc, ev[0][3], self.entry('vars', kv, o_['expr']))
                    self.outcome(o, 2)
                elif not d or entails(s2.pc, ieq(n, I0)):
                    if kd(o) == 'back' and not entails(s2.pc, ieq(n, I0)):
                        raise Unknown("loop over the variables not found")
                    P.holds('variables: passed over only when there are none', s2.pc, ieq(n, I0))
                    self.outcome(o, 1)
                else:
                    raise Unknown("steps before the beamlines: %r" % (d,))
            return self.end()
        h, s1 = first[0].info[1], first[0].state
        if len(s1.trace) != 1:
            raise Unknown("steps before the variables: %r" % (s1.trace,))
        cut = Cut(ex, s1, self.base, self.fn_, h)
        k = ivar('k')
        s = cut.at(k)
        s.assume(ile(I0, k))
        s.assume(ile(k, n))
        after = []
        for o in self.seg(s):
            s2 = o.state
            d = s2.trace[len(s1.trace):]
            if ('failed',) in d:
                self.seen.add('unresolved variable')
                self.failed(o, 'unresolved variable')
                continue
            if kd(o) == 'back' and o.info[1] == h:
                self.seen.add('variable')
                P.holds('variables: within the list', s2.pc, ilt(k, n))
                if len(d) != 1 or d[0][0] != 'assign':
                    P.fact('variables: each is stored once', False, repr(d)[:300])
                    continue
                P.fact('variables: stored in the result', d[0][1] == self.ret, repr(d[0][1]))
                self.same('variables: name', s2.pc, d[0][2], self.entry('vars', k, o_['name']))
                self.same('variables: value', s2.pc, d[0][3], self.entry('vars', k, o_['expr']))
            else:
                P.holds('variables: all of them', s2.pc, ieq(k, n))
                after.append(o)
        for o in after:
            self.outcome(o, len(s1.trace))
        self.end()

    def end(self):
        P, w = self.P, self.w
        want = {'variable', 'unresolved variable'} | ({'no beamline', 'undefined beamline', 'empty beamline', 'element', 'attribute', 'unresolved attribute', 'done'} if self.lattice else {'done'})
        P.fact('outcomes reachable', self.seen == want, repr(self.seen ^ want))
        w.finish()

    def outcome(self, o, n0):
        """after the variables"""
        P, w, s = self.P, self.w, o.state
        d = s.trace[n0:]
        if not self.lattice:
            P.fact('variables only: returns', kd(o) == 'ret', kd(o))
            P.fact('variables only: the result', o.value == self.ret and ('freed', self.ret.r) not in s.ghost, repr(o.value))
            P.fact('variables only: nothing else stored', not d, repr(d))
            self.seen.add('done')
            return
        nl = w.len['parse_line']
        use, _ = G.lookup(self.idx('parse_element'), ('lit', 'USE'))
        ue = iatom('index', self.idx('parse_element')[1], ('lit', 'USE'))
        ut = ('elem', 'elements', ue, w.off['parse_element']['etype'])
        ul, _ = G.lookup(self.idx('parse_line'), ut)
        li = iatom('index', self.idx('parse_line')[1], ut)
        none, undef = ieq(nl, I0), band(use, bnot(ul))
        empty = ieq(ivar('n.names'), I0)
        if kd(o) == 'throw':
            for c, nm in ((none, 'no beamline'), (undef, 'undefined beamline'), (empty, 'empty beamline')):
                if entails(s.pc, c):
                    self.seen.add(nm)
            P.holds('refused only without beamlines, for an undefined one or for an empty one', s.pc, bor(none, bor(undef, band(TRUE if 'line' in s.ghost else FALSE, empty))))
            if 'line' in s.ghost:
                self.chosen(s, use, li, nl)
            self.failed(o, 'refused')
            return
        if kd(o) != 'back':
            raise Unknown("loop over the elements not found")
        P.holds('accepted only with a beamline', s.pc, bnot(none))
        P.holds('accepted only with a defined beamline', s.pc, bnot(undef))
        if 'line' not in s.ghost:
            raise Unknown("beamline not chosen before the loop")
        P.holds('accepted only with elements', s.pc, bnot(empty))
        self.chosen(s, use, li, nl)
        P.fact('nothing else stored before the elements', not d, repr(d))
        self.elements(o)

    def chosen(self, s, use, li, nl):
        ix = s.ghost['line']
        self.P.holds('the beamline named by USE', s.pc + [use], ieq(ix, li))
        self.P.holds('the last beamline without USE', s.pc + [bnot(use)], ieq(ix, isub(nl, I1)))

    def elements(self, o):
        P, w, ex = self.P, self.w, self.ex
        h, s1 = o.info[1], o.state
        line = s1.ghost['line']
        m = ivar('n.names')

        def body(s):
            out = []
            for q in self.seg(s):
                if kd(q) == 'back' and q.info[1] != h:
                    out += self.attributes(q)
                else:
                    out.append(q)
            return out
        cut = RCut(ex, s1, self.base, self.fn_, h, body)
        k = ivar('k')
        s = cut.at(k)
        s.assume(ile(I0, k))
        s.assume(ile(k, m))
        oe = w.off['parse_element']
        j = iatom('index', self.idx('parse_element')[1], ('elem', 'names', k, 0))
        for q in sorted(body(s), key=lambda q: kd(q) != 'back'):
            s2 = q.state
            d = s2.trace[len(s1.trace):]
            if ('failed',) in d:
                self.seen.add('unresolved attribute')
                self.failed(q, 'unresolved attribute')
                continue
            if kd(q) == 'back' and q.info[1] == h:
                self.seen.add('element')
                P.holds('elements: within the beamline', s2.pc, ilt(k, m))
                kinds = [t[0] for t in d]
                if kinds.count('destroy') != 1 or kinds.count('scope') != 1 or kinds.count('cswap') != 1 or kinds.count('props') != 1 or set(kinds) - {'scope', 'cswap', 'props', 'set', 'destroy'}:
                    raise Unknown("steps of an element: %r" % (kinds,))
                sc, sw, pr = (d[kinds.index(x)] for x in ('scope', 'cswap', 'props'))
                nx = sc[1]
                if sw[2] != nx:
                    sw = (sw[0], sw[2], sw[1])
                if sw[2] != nx:
                    raise Unknown("element stored otherwise")
                P.fact('elements: inherit the global scope', sc[2] == self.ret, repr(sc))
                P.fact('elements: attributes stored in the element', pr[2] == nx, repr(pr))
                P.holds('elements: attributes of the named element', s2.pc, ieq(pr[1], j))
                sets = [t for t in d if t[0] == 'set']
                if any(t[1] != nx for t in sets):
                    raise Unknown("stored elsewhere")
                got = {}
                for t in sets:
                    P.fact('elements: texts', t[3] == 'string', repr(t))
                    got[t[2]] = t[4]
                P.fact('elements: type and name and nothing else', set(got) == {('lit', 'type'), ('lit', 'name')}, repr(set(got)))
                for nm, mb in (('type', 'etype'), ('name', 'label')):
                    v = got.get(('lit', nm))
                    P.fact('elements: %s of a definition' % nm, v is not None and v[0] == 'elem' and v[1] == 'elements' and v[3] == oe[mb], repr(v))
                    if v is not None and v[0] == 'elem':
                        P.holds('elements: %s of the named element' % nm, s2.pc, ieq(v[2], j))
                order = [x for x in kinds if x != 'destroy']
                P.fact('elements: the special properties prevail over attributes', order.index('scope') < order.index('props') < order.index('set') if 'set' in order else False, repr(order))
                P.fact('elements: complete when stored', order[-1] == 'cswap', repr(order))
                b, e = LIB.vec(ex, s2, self.target(s2, sw[1]))
                self.same('elements: stored at its position', s2.pc, sw[1], Ptr(b.r, iscale(k, ex.elem_types['Config'][0])))
            else:
                self.seen.add('done')
                P.holds('elements: all of them', s2.pc, ieq(k, m))
                P.fact('returns', kd(q) == 'ret', kd(q))
                if kd(q) != 'ret':
                    continue
                P.fact('the result', q.value == self.ret and ('freed', self.ret.r) not in s2.ghost, repr(q.value))
                st = [t for t in d if t[0] in ('set', 'swap')]
                if any(t[0] not in ('set', 'swap') for t in d):
                    raise Unknown("steps at the end: %r" % (d,))
                P.fact('stored in the result', all(t[1] == self.ret for t in st), repr(st))
                P.fact('name and elements and nothing else', sorted(t[2] for t in st) == [('lit', 'elements'), ('lit', 'name')], repr(st))
                for t in st:
                    if t[2] == ('lit', 'name'):
                        P.fact('the name of the beamline', t[3] == 'string' and t[4][0] == 'elem' and t[4][1] == 'line' and t[4][3] == w.off['parse_line']['label'], repr(t))
                        if t[4][0] == 'elem':
                            P.holds('the name of the chosen beamline', s2.pc, ieq(t[4][2], line))
                    elif t[2] == ('lit', 'elements'):
                        P.fact('the elements', t[3] == 'cvec' and t[4][0] == 'configs', repr(t))
                        if t[4][0] == 'configs':
                            P.fact('the list that was filled', t[4][3] is not None and t[4][3].r in self.filled, repr(t))
                            P.holds('as many as the beamline has', s2.pc, ieq(t[4][4], m))

    filled = frozenset()

    def target(self, s, p):
        """the vector whose storage p points into"""
        for rid, reg in s.mem.items():
            for k, v in reg.cells.items():
                if isinstance(k, int) and isinstance(v[1], Ptr) and v[1].r == p.r and not v[1].o.args[0] and v[1].o.args[1] == 0 and reg.cells.get(k + 8, (0, None))[1] is not None:
                    self.filled = self.filled | {p.r}
                    return Ptr(rid, ic(k))
        raise Unknown("element stored outside the list")

    def attributes(self, q):
        """the loop over the attributes: by induction over the items, each is stored once in order"""
        P, w, ex = self.P, self.w, self.ex
        h, sh = q.info[1], q.state
        phis = {ph.res: sh.frames[-1].regs[ph.res] for ph in self.fn_.blocks[h].phis}
        where = [(rid, k) for rid, reg in sh.mem.items() for k, v in reg.cells.items() if isinstance(k, int) and v[1] == w.item]
        if 'props' not in sh.ghost or not (where or w.item in phis.values()):
            raise Unknown("loop over the attributes not found")
        sc = [t for t in sh.trace if t[0] == 'scope']
        out = []
        for o in self.seg(sh.clone()):
            s2 = o.state
            d = s2.trace[len(sh.trace):]
            if ('failed',) in d:
                out.append(o)
                continue
            if kd(o) == 'back' and o.info[1] == h:
                self.seen.add('attribute')
                P.holds('attributes: within the list', s2.pc, bnot(w.no_more))
                if any(s2.frames[-1].regs[r] != (w.next if v == w.item else v) for r, v in phis.items()) or any(s2.mem[rid].cells[k][1] != w.next for rid, k in where):
                    raise Unknown("state carried from one attribute to the next")
                for rid, reg in sh.mem.items():
                    if s2.mem[rid].cells is not reg.cells and any(s2.mem[rid].cells.get(k) != v for k, v in reg.cells.items() if (rid, k) not in where):
                        raise Unknown("%s changed while storing attributes" % reg.name)
                P.fact('attributes: each is stored once', len(d) == 1 and d[0][0] == 'assign', repr(d)[:200])
                if len(d) == 1 and d[0][0] == 'assign':
                    P.fact('attributes: in the element', len(sc) == 1 and d[0][1] == sc[0][1], repr(d[0][1]))
                    P.fact('attributes: name', d[0][2] == CT.at(w.item, 32), repr(d[0][2]))
                    P.fact('attributes: value', d[0][3] == CT.at(w.item, 64), repr(d[0][3]))
                continue
            P.holds('attributes: all of them', s2.pc, w.no_more)
            s2.trace.insert(len(sh.trace), ('props', sh.ghost['props'], sc[-1][1] if sc else None))
            s2.ghost.pop('props', None)
            out.append(o)
        return out


def fill_task(ctx, lattice):
    label = 'result of a parse: ' + ('lattice' if lattice else 'variables only')

    def run(rec):
        Fill(ctx, rec, label, lattice).run()
    return Task(label, run)


def vars_task(ctx):
    label = 'predefined variables: all of them'

    def run(rec):
        f = ctx.find(r'GLPSParser::Pvt::fill_vars\(.*', TU)
        w = F(ctx, rec, label, f)
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        this = Ptr(ex.alloc(st, 'parser', base='sym').id, I0)
        item = Ptr(ex.alloc(st, 'variable', base='sym').id, I0)
        last, nxt = (Ptr(ex.alloc(st, k).id, I0) for k in ('end of the variables', 'next variable'))
        done = pred('no further variable')
        mp = CT.at(this, ctx.lay.off('GLPSParser::Pvt', 'vars', TU))

        def edge(ex, s, a, n):
            if a[0] != mp:
                raise Unknown("other variables")
            return item if 'begin(' in build.strip_templates(ex.lib.dem(n)) else last

        def cmp(ex, s, a, n):
            x, y = ex.load(s, a[0], PTR), ex.load(s, a[1], PTR)
            if {x, y} != {item, last}:
                raise Unknown("comparison of variables")
            return done if 'operator==' in ex.lib.dem(n) else bnot(done)

        def incr(ex, s, a, n):
            if a[0] != item:
                raise Unknown("advance over variables")
            return nxt

        def visit(ex, s, a, n):
            x, v = (a[0], a[1])
            s.trace.append(('visit', x, ex.load(s, v, PTR), ex.load(s, CT.at(v, 8), PTR)))
        for n, d in ctx.lib.dm.items():
            q = build.strip_templates(d)
            if 'store_ctxt_var' in d and '::apply_visitor<' in d:
                ex.contracts[n] = visit
            elif 'boost::variant' in d and re.search(r'std::map::c?(begin|end)\(', q):
                ex.contracts[n] = edge
            elif 'boost::variant' in d and re.match(r'(bool )?std::operator(==|!=)\(std::_Rb_tree_', q):
                ex.contracts[n] = cmp
        for m in ('_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'):
            ex.contracts[m] = incr
        fn_ = ctx.prog.find(f, w.mod())
        base = len(st.frames)
        ex.push(st, fn_, [this, c])
        first = [o for o in run_to(ex, st, base, set(fn_.loops)) if feasible(o.state.pc)]
        if len(first) != 1 or kd(first[0]) != 'back':
            raise Unknown("loop over the variables not found")
        h, sh = first[0].info[1], first[0].state
        phis = {ph.res: sh.frames[-1].regs[ph.res] for ph in fn_.blocks[h].phis}
        where = [(rid, k) for rid, reg in sh.mem.items() for k, v in reg.cells.items() if isinstance(k, int) and v[1] == item]
        if not where and item not in phis.values():
            raise Unknown("position in the variables not found")
        s = sh.clone()
        s.frames[-1].loops = {}
        seen = set()
        for o in run_to(ex, s, base, set(fn_.loops)):
            s2 = o.state
            if not feasible(s2.pc):
                continue
            d = s2.trace[len(sh.trace):]
            if kd(o) == 'back':
                seen.add('variable')
                P.holds('within the list', s2.pc, bnot(done))
                if any(s2.frames[-1].regs[r] != (nxt if v == item else v) for r, v in phis.items()) or any(s2.mem[rid].cells[k][1] != nxt for rid, k in where):
                    raise Unknown("state carried from one variable to the next")
                for rid, reg in sh.mem.items():
                    if s2.mem[rid].cells is not reg.cells and any(s2.mem[rid].cells.get(k) != v for k, v in reg.cells.items() if (rid, k) not in where):
                        raise Unknown("%s changed" % reg.name)
                P.fact('each is defined once', len(d) == 1, repr(d))
                if len(d) == 1:
                    P.fact('its value', d[0][1] == CT.at(item, 64), repr(d[0]))
                    P.fact('its name', d[0][2] == CT.at(item, 32), repr(d[0]))
                    P.fact('in the tables of this parse', d[0][3] == c, repr(d[0]))
            else:
                seen.add('done')
                P.fact('returns', kd(o) == 'ret', kd(o))
                P.holds('all of them', s2.pc, done)
                P.fact('nothing else', not d, repr(d))
        P.fact('outcomes reachable', seen == {'variable', 'done'}, repr(seen))
        w.finish()
    return Task(label, run)


def entry_task(ctx, kind):
    label = 'parse of ' + kind

    def run(rec):
        pat = {'a byte string': r'parse_byte\(char const\*, unsigned long, char const\*\)', 'a text': r'parse_byte\(std::__cxx11::basic_string.*', 'an open file': r'parse_file\(bool, .*'}[kind]
        f = ctx.find(r'GLPSParser::' + pat, TU)
        w = F(ctx, rec, label, f)
        P, ex, st = w.P, w.ex, w.st
        this = Ptr(ex.alloc(st, 'GLPSParser', size=8).id, I0)
        pvt = Ptr(ex.alloc(st, 'parser', base='sym').id, I0)
        prn = Ptr(ex.alloc(st, 'printer', base='sym').id, I0)
        ex.store(st, this, pvt, PTR)
        ex.store(st, CT.at(pvt, ctx.lay.off('GLPSParser::Pvt', 'printer', TU)), prn, PTR)
        data, path, res = (Ptr(ex.alloc(st, k, base='sym').id, I0) for k in ('input', 'path', 'result'))
        n, flag = ivar('n'), pred('have_lattice')

        def step(what):
            def h(ex, s, a, n_):
                s.trace.append((what,) + tuple(a) + ((ex.load(s, CT.at(a[0], w.co['printer']), PTR),) if what == 'parse' else ()))
                v = res if what == 'fill' else None
                if what in ('ctor', 'dtor'):
                    return v
                s2 = s.clone()
                s2.trace.append(('failed',))
                return Fork([(s, v), (s2, Throw('_ZTISt13runtime_error'))])
            return h
        for m, d in ctx.lib.dm.items():
            for what, p in (('ctor', 'parse_context::parse_context('), ('dtor', 'parse_context::~parse_context('), ('vars', 'GLPSParser::Pvt::fill_vars('),
                            ('parse', 'parse_context::parse('), ('fill', 'GLPSParser::Pvt::fill_context(')):
                if d.startswith(p):
                    ex.contracts[m] = step(what)
                    ex.contracts[re.sub(r'([CD])2E', r'\g<1>1E', m, 1)] = ex.contracts[m]
        args = {'a byte string': [this, data, n, path], 'a text': [this, data, path], 'an open file': [this, flag, data, path]}[kind]
        inp = {'a byte string': (data, n), 'a text': (data,), 'an open file': (data,)}[kind]
        seen = set()
        for o in ex.call(st, f, args, w.mod()):
            s = o.state
            if not feasible(s.pc):
                continue
            t = s.trace
            if not t or t[0][0] != 'ctor':
                raise Unknown("state of the parse not found")
            cx = t[0][1]
            P.fact('path of the input', t[0][2] == path, repr(t[0]))
            P.fact('state released once', [x for x in t if x[0] == 'dtor'] == [('dtor', cx)] and t[-1][0] == 'dtor', repr(t[-1]))
            ok = ('failed',) not in t
            seen.add(ok)
            P.fact('fails iff a step fails', o.kind == ('ret' if ok else 'throw'), o.kind)
            steps = [x for x in t[1:] if x[0] in ('vars', 'parse', 'fill')]
            P.fact('variables, parse, result in this order', [x[0] for x in steps] == ['vars', 'parse', 'fill'][:len(steps)] and (len(steps) == 3 or not ok), repr(t))
            for x in steps:
                if x[0] == 'vars':
                    P.fact('predefined variables of this parser', x[1:] == (pvt, cx), repr(x))
                elif x[0] == 'parse':
                    P.fact('the given input', x[1:-1] == (cx,) + inp, repr(x))
                    P.fact('messages go to the chosen stream', x[-1] == prn, repr(x))
                else:
                    P.fact('result of this parse', x[1:3] == (pvt, cx), repr(x))
                    P.fact('with its beamlines as asked', x[3] == (flag if kind == 'an open file' else TRUE), repr(x))
            if ok:
                P.fact('result handed to the caller', o.value == res, repr(o.value))
        P.fact('outcomes reachable', seen == {True, False}, repr(seen))
        w.finish()
    return Task(label, run)


def tasks(ctx):
    return [vars_task(ctx)] + [entry_task(ctx, k) for k in ('a byte string', 'a text', 'an open file')] + [fill_task(ctx, x) for x in (True, False)] + [store_task(ctx, k) for k in ('number', 'text', 'vector', 'nested lattice', 'no nested lattice', 'any other type')] + \
        [var_task(ctx, k) for k in ('number', 'text', 'vector', 'list of Configs')]
