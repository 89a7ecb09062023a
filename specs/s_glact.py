"""Lattice language: what each statement and each list item does to the parser's tables.

The tables of a parse_context are sequences of symbolic length; std::vector<...>::push_back is the assumed contract
"the length grows by one and the new last entry is the value passed"."""
from verify import *
import gmap as G
import seq as S
from s_base import run_to
from s_glps import W, kd, NUM, VEC, STRT, CONF, VAR, LINE, ELEM, INVALID, seqof, okvalue

TUS = ['glps_ops', 'glps_parser', 'config', 'util', 'inst']
TU = 'glps_parser'
KIND = {'parse_var': ('vars', 'var_idx'), 'parse_element': ('elements', 'element_idx'), 'parse_line': ('line', 'line_idx')}


class A(W):
    def __init__(self, ctx, rec, label, f, tu=TU):
        W.__init__(self, ctx, rec, label, f, tu)
        L = ctx.lay
        self.off = {k: {m: L.off(k, m, TU) for m in ms} for k, ms in (
            ('parse_var', ('name', 'expr')), ('parse_element', ('label', 'etype', 'props')), ('parse_line', ('label', 'etype', 'names')))}
        self.size = {k: L.get(k, TU)[0] for k in KIND}
        self.len = {}
        self.ex.map_value = self.h_value
        self.ex.map_default = lambda vt: ('default', vt)
        self.ex.elem_types = {'char': (1, {0: (1, 'I')}), 'glps_expr_type': (4, {0: (4, 'I')})}
        c = self.ex.contracts
        for n, d in ctx.lib.dm.items():
            s = build.strip_templates(d)
            m = re.search(r'std::vector<(parse_var|parse_element|parse_line)\b', d)
            if m and re.search(r'std::vector::(push_back|emplace_back)\(', s):
                c[n] = self.pusher(m.group(1))
            elif m and re.search(r'std::vector::(size|empty|back|end|begin|reserve)\(', s):
                c.pop(n, None)
            elif re.match(r'boost::variant::operator=\(boost::variant ?(const&|&&|&)\)', s):
                c[n] = self.h_vcopy
            elif re.match(r'.*boost::variant::operator=\((?!boost::variant )', s):
                c[n] = self.h_vconv
            elif re.match(r'_ZSt7reverseI.*Pd', n):
                c[n] = self.h_reverse
        c['_ZdlPv'] = c['_ZdlPvm'] = self.h_delete
        c['__cxa_begin_catch'] = self.h_catch
        c['%what'] = lambda ex, st, a, n: self.text(st, ('sym', 'what'))
        c['strcasecmp'] = self.h_strcasecmp
        c['_ZNKSt9type_info4nameEv'] = lambda ex, st, a, n: self.text(st, ('sym', 'type name'))

    def text(self, st, v):
        r = self.ex.alloc(st, 'cstr')
        r.tag = ('cstr', v)
        return Ptr(r.id, I0)

    def h_catch(self, ex, st, a, n):
        """the caught object: what() yields some text"""
        st.caught.append(st.exc)
        vt = ex.alloc(st, 'vtable of the exception')
        ex.store(st, Ptr(vt.id, ic(16)), Ptr('fn:%what', I0), PTR)
        r = ex.alloc(st, 'exception')
        ex.store(st, Ptr(r.id, I0), Ptr(vt.id, I0), PTR)
        return Ptr(r.id, I0)

    def h_delete(self, ex, st, a, n):
        if a[0].r is not None:
            if ('freed', a[0].r) in st.ghost:
                self.P.fact('nothing is freed twice', False, st.mem[a[0].r].name)
            st.ghost[('freed', a[0].r)] = True

    def table_of(self, st, p):
        """-> (kind, index, offset) of an address within an entry of a table"""
        for k, (v, i) in KIND.items():
            b, e = LIB.vec(self.ex, st, CT.at(self.cp, self.co[v]))
            if p.r == b.r:
                ix, off = self.ex.idx(st.mem[p.r], p.o)
                self.ex.bounds(st, st.mem[p.r], ix)
                return k, ix, off
        return None

    def h_vcopy(self, ex, st, a, n):
        t = self.table_of(st, a[1])
        if t is None:
            return G.v_copy(ex, st, a, n)
        G.vset(ex, st, a[0], ('vsym', KIND[t[0]][0], t[1], t[2]))
        return a[0]

    def h_vconv(self, ex, st, a, n):
        T = G.vtype(re.sub(r'( const)?&&?$', '', G.tail_arg(ex.lib.dem(n), '::operator=')))
        t = self.table_of(st, a[1]) if isinstance(a[1], Ptr) else None
        if t is not None:
            if T != 'strlist' or t[0] != 'parse_line' or t[2] != self.off['parse_line']['names']:
                raise Unknown("member of a table")
            G.vset(ex, st, a[0], ('vt', T, ('seq', (('s', ('line', t[1]), False),))))
            return a[0]
        if T == 'vec' and G.gget(st, a[1]) is None:
            b, e = LIB.vec(ex, st, a[1])
            if b != e and b.r is not None:
                if not st.mem[b.r].fam:
                    raise Unknown("value of a vector")
                G.vset(ex, st, a[0], ('vt', T, ('vecof', st.mem[b.r].fam, bool(st.ghost.get(('rev', b.r))))))
                return a[0]
        if T == 'strlist':
            G.vset(ex, st, a[0], ('vt', T, S.sget(st, a[1])))
            return a[0]
        return G.v_convassign(ex, st, a, n)

    def h_reverse(self, ex, st, a, n):
        b, e = a
        reg = st.mem[b.r]
        if b.o is not I0 or b.r != e.r or reg.count is None or not entails(st.pc, ieq(e.o, iscale(reg.count, 8))):
            raise Unknown("part of a vector reversed")
        st.ghost[('rev', b.r)] = not st.ghost.get(('rev', b.r))

    def h_strcasecmp(self, ex, st, a, n):
        x, y = LIB.cstr_at(st, a[0]), LIB.cstr_at(st, a[1])
        return iite(icase(x, y), I0, I1)

    def h_value(self, ex, st, p, mp, key, val, vt):
        """the value of a map node; indices are integers, attribute values are expressions"""
        if 'expr_t' in vt:
            q = Ptr(p.r, iadd(p.o, ic(self.eo['value'])))
            if val[0] == 'default':
                ex.store(st, CT.at(p, self.eo['etype']), ic(INVALID), ('i', 32))
                G.vset(ex, st, q, ('vt', 'double', R0))
            elif val[0] != 'vsym':
                raise Unknown("expression in a table: %r" % (val,))
            return
        if val[0] == 'default':
            v = I0
        elif val[0] == 'vsym':
            v = iatom('index', val[1], val[2])
        else:
            raise Unknown("index in a table: %r" % (val,))
        ex.store(st, p, v, ('i', 64))

    def pusher(self, kind):
        def h(ex, st, a, n):
            o = icst(a[0].o)
            if a[0].r != self.cp.r or o != self.co[KIND[kind][0]]:
                raise Unknown("push_back on another vector")
            b, e = LIB.vec(ex, st, a[0])
            st.trace.append(('push', kind, self.snap(st, kind, a[1])))
            e2 = Ptr(e.r, iadd(e.o, ic(self.size[kind])))
            LIB.vec_set(ex, st, a[0], b, e2)
            return e
        return h

    def snap(self, st, kind, p):
        o = self.off[kind]
        if kind == 'parse_var':
            x = CT.at(p, o['expr'])
            return (LIB.strval(st, CT.at(p, o['name'])), self.etype(st, x), self.evalue(st, x))
        l, t = LIB.strval(st, CT.at(p, o['label'])), LIB.strval(st, CT.at(p, o['etype']))
        if kind == 'parse_element':
            return (l, t, G.mapval(st, CT.at(p, o['props'])))
        return (l, t, S.sval(st, CT.at(p, o['names'])))

    def tables(self):
        c = self.ctxt()
        sc = self.ex.alloc(self.st, 'scanner', base='sym')
        self.ex.store(self.st, CT.at(c, self.co['scanner']), Ptr(sc.id, I0), PTR)
        for k, (v, i) in KIND.items():
            n = ivar('n.' + v)
            self.st.assume(ile(I0, n))
            self.len[k] = n
            r = LIB.vec_new(self.ex, self.st, CT.at(c, self.co[v]), n, self.size[k], {self.off['parse_var']['expr'] + self.eo['etype']: (4, 'I')} if k == 'parse_var' else {}, base='sym', name=v, fam=v)
        return c

    def string(self, name):
        r = self.ex.alloc(self.st, name, base='sym', size=self.ctx.lay.get('string_t', TU)[0])
        v = ('sym', name)
        G.gset(self.st, Ptr(r.id, I0), v)
        return Ptr(r.id, I0), v

    def table(self, s, kind):
        """-> (length now, index map now)"""
        v, i = KIND[kind]
        return LIB.vec_size(self.ex, s, CT.at(self.cp, self.co[v]), self.size[kind]), G.mapval(s, CT.at(self.cp, self.co[i]))

    def untouched(self, what, s0, s, but=()):
        for k, (v, i) in KIND.items():
            if k in but:
                continue
            a, b = self.table(s0, k), self.table(s, k)
            self.P.holds('%s: %s not extended' % (what, v), s.pc, ieq(a[0], b[0]))
            self.P.fact('%s: %s unchanged' % (what, i), a[1] == b[1], '%r' % (b[1],))
        self.P.fact('%s: no entry added' % what, not [t for t in s.trace if t[0] == 'push' and t[1] not in but])

    def added(self, s0, s, kind, key):
        """exactly one entry of this kind added, registered under the key with the index of the new entry; -> entry"""
        P = self.P
        n0, m0 = self.table(s0, kind)
        n1, m1 = self.table(s, kind)
        ps = [t for t in s.trace if t[0] == 'push' and t[1] == kind]
        P.fact('one entry added', len(ps) == 1, repr(ps)[:200])
        P.holds('the sequence grows by one', s.pc, ieq(n1, iadd(n0, I1)))
        P.fact('registered under its name', m1[0] == 'put' and m1[1] == m0 and m1[2] == key, repr(m1))
        nodes = [rid for rid, r in s.mem.items() if r.tag and r.tag[0] == 'node' and r.tag[1] == CT.at(self.cp, self.co[KIND[kind][1]]) and r.tag[2] == key]
        if len(nodes) != 1:
            raise Unknown("entry of the index not found")
        v = self.ex.load(s, Ptr(nodes[0], ic(s.mem[nodes[0]].tag[3])), ('i', 64))
        P.holds('the index designates the new entry', s.pc, ieq(v, n0))
        return ps[0][2] if ps else None

    def errors(self, s):
        return [t for t in s.trace if t[0] == 'error']

    def calls(self, st, args):
        n = 0
        for o in self.ex.call(st, self.f, args, self.mod()):
            if not feasible(o.state.pc):
                continue
            n += 1
            self.P.fact('no exception leaves the action', o.kind == 'ret', o.kind)
            if o.kind == 'ret':
                yield o, o.state
        self.P.fact('reachable', n > 0)
        self.finish()


def icase(x, y):
    """equal but for letter case"""
    l = lambda v: ('lit', v[1].lower()) if v[0] == 'lit' else v
    x, y = l(x), l(y)
    if x[0] == y[0] == 'lit':
        return TRUE if x == y else FALSE
    if x[0] == 'lit':
        x, y = y, x
    return pred('icase', x, y)


def assign_task(ctx):
    label = 'assignment to a name'

    def run(rec):
        w = A(ctx, rec, label, 'glps_assign')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        np, nm = w.string('name')
        t = ivar('etype')
        e = w.expr('value', t)
        val = w.evalue(st, e)
        s0 = st.clone()
        assignable = bor(bor(ieq(t, ic(NUM)), ieq(t, ic(VEC))), bor(ieq(t, ic(STRT)), ieq(t, ic(CONF))))
        known, _ = G.lookup(w.table(s0, 'parse_var')[1], nm)
        seen = set()
        for o, s in w.calls(st, [c, np, e]):
            if w.errors(s):
                seen.add('error')
                P.holds('refused only for what cannot be assigned or for a name already defined', s.pc, bor(bnot(assignable), known))
                w.untouched('refused', s0, s)
            else:
                seen.add('ok')
                P.holds('accepted only for values that can be assigned', s.pc, assignable)
                P.holds('accepted only for a new name', s.pc, bnot(known))
                w.untouched('accepted', s0, s, ('parse_var',))
                x = w.added(s0, s, 'parse_var', nm)
                if x:
                    P.fact('the name', x[0] == nm, repr(x[0]))
                    P.holds('the type of the value', s.pc, ieq(x[1], t))
                    P.fact('the value', x[2] == val, repr(x[2]))
        P.fact('both outcomes reachable', seen == {'ok', 'error'}, repr(seen))
    return Task(label, run)


def element_task(ctx, props):
    label = 'element definition, %s' % ('with attributes' if props else 'without attributes')

    def run(rec):
        w = A(ctx, rec, label, 'glps_add_element')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        lp, lab = w.string('label')
        tp, typ = w.string('type')
        p = NULL
        want = ('empty',)
        if props:
            r = ex.alloc(st, 'props', size=ctx.lay.get('kvlist_t', TU)[0])
            p = Ptr(r.id, I0)
            want = ('m', 'attributes')
            G.mapset(st, p, want)
        s0 = st.clone()
        known, _ = G.lookup(w.table(s0, 'parse_element')[1], lab)
        bad = bor(bor(LIB.streq(lab, ('lit', '')), LIB.streq(typ, ('lit', ''))), known)
        seen = set()
        for o, s in w.calls(st, [c, lp, tp, p]):
            if w.errors(s):
                seen.add('error')
                P.holds('refused only for an empty label or type or for a name already used', s.pc, bad)
                w.untouched('refused', s0, s)
            else:
                seen.add('ok')
                P.holds('accepted only with a label and a type, for a new name', s.pc, bnot(bad))
                w.untouched('accepted', s0, s, ('parse_element',))
                x = w.added(s0, s, 'parse_element', lab)
                if x:
                    P.fact('the label', x[0] == lab, repr(x[0]))
                    P.fact('the type', x[1] == typ, repr(x[1]))
                    P.fact('the attributes', x[2] == want, repr(x[2]))
        P.fact('both outcomes reachable', seen == {'ok', 'error'}, repr(seen))
    return Task(label, run)


def newlist(w, name, v):
    r = w.ex.alloc(w.st, name, size=w.ctx.lay.get('strlist_t', TU)[0])
    p = Ptr(r.id, I0)
    S.sset(w.st, p, v)
    return p


def line_task(ctx, names):
    label = 'beamline definition, %s' % ('with items' if names else 'empty')

    def run(rec):
        w = A(ctx, rec, label, 'glps_add_line')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        lp, lab = w.string('label')
        tp, typ = w.string('type')
        v = (('s', 'x', False),) if names else ()
        p = newlist(w, 'items', v) if names else NULL
        s0 = st.clone()
        known, _ = G.lookup(w.table(s0, 'parse_line')[1], lab)
        ok = band(icase(typ, ('lit', 'line')), bnot(known))
        seen = set()
        for o, s in w.calls(st, [c, lp, tp, p]):
            if w.errors(s):
                seen.add('error')
                P.holds('refused only for another keyword or for a name already used', s.pc, bnot(ok))
                w.untouched('refused', s0, s)
            else:
                seen.add('ok')
                P.holds('accepted only for LINE, for a new name', s.pc, ok)
                w.untouched('accepted', s0, s, ('parse_line',))
                x = w.added(s0, s, 'parse_line', lab)
                if x:
                    P.fact('the label', x[0] == lab, repr(x[0]))
                    P.fact('the items, last collected first', x[2] == S.seqrev(v), repr(x[2]))
        P.fact('both outcomes reachable', seen == {'ok', 'error'}, repr(seen))
    return Task(label, run)


def append_task(ctx, kind, have):
    label = 'beamline item: %s, %s' % (kind, 'further item' if have else 'first item')

    def run(rec):
        w = A(ctx, rec, label, 'glps_append_expr')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        v = (('s', 'x', False),) if have else ()
        p = newlist(w, 'items', v) if have else NULL
        t = ivar('etype')
        if kind == 'element':
            e = w.expr('item', ELEM, ('vt', 'string', ('sym', 'elem')))
            want = v + (('one', ('sym', 'elem')),)
        elif kind == 'beamline':
            e = w.expr('item', LINE, ('vt', 'strlist', ('seq', (('s', 'y', False),))))
            want = v + (('s', 'y', True),)
        else:
            e = w.expr('item', t)
            st.assume(bnot(bor(ieq(t, ic(ELEM)), ieq(t, ic(LINE)))))
            want = None
        ex.nonneg = ex.nonneg | {'len.x', 'len.y'}
        s0 = st.clone()
        for o, s in w.calls(st, [c, p, e]):
            w.untouched('tables', s0, s)
            if want is None:
                P.fact('reported', len(w.errors(s)) >= 1)
                P.fact('no list', o.value.r is None, repr(o.value))
                continue
            P.fact('accepted', not w.errors(s))
            P.fact('a list', o.value.r is not None, repr(o.value))
            if o.value.r is not None:
                P.fact('a list that is still owned', ('freed', o.value.r) not in s.ghost)
                P.fact('the items collected so far followed by the new ones in reverse', S.sval(s, o.value) == S.norm(want), repr(S.sval(s, o.value)))
    return Task(label, run)


def kv_task(ctx, have):
    label = 'attribute, %s' % ('further' if have else 'first')

    def run(rec):
        w = A(ctx, rec, label, 'glps_append_kv')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        p = NULL
        m = ('empty',)
        if have:
            r = ex.alloc(st, 'props', size=ctx.lay.get('kvlist_t', TU)[0])
            p = Ptr(r.id, I0)
            m = ('m', 'attributes')
            G.mapset(st, p, m)
        kp, key = w.string('key')
        t = ivar('etype')
        e = w.expr('value', t)
        val = w.evalue(st, e)
        r = ex.alloc(st, 'kv', size=16)
        ex.store(st, Ptr(r.id, I0), kp, PTR)
        ex.store(st, Ptr(r.id, ic(8)), e, PTR)
        s0 = st.clone()
        for o, s in w.calls(st, [c, p, Ptr(r.id, I0)]):
            w.untouched('tables', s0, s)
            P.fact('accepted', not w.errors(s))
            P.fact('a list', o.value.r is not None, repr(o.value))
            if o.value.r is None:
                continue
            if have:
                P.fact('the same list', o.value == p, repr(o.value))
            m1 = G.mapval(s, o.value)
            old, _ = G.lookup(m, key)
            if m1 == m:
                P.holds('an existing attribute is replaced', s.pc, old)
            else:
                P.fact('an entry of that name and no other change', m1[0] == 'put' and m1[1] == m and m1[2] == key, repr(m1))
            nodes = [rid for rid, q in s.mem.items() if q.tag and q.tag[0] == 'node' and q.tag[1] == o.value and q.tag[2] == key]
            if len(nodes) != 1:
                raise Unknown("attribute not found")
            x = Ptr(nodes[0], ic(s.mem[nodes[0]].tag[3]))
            P.holds('the type of the value', s.pc, ieq(w.etype(s, x), t))
            P.fact('the value', w.evalue(s, x) == val, repr(w.evalue(s, x)))
    return Task(label, run)


def vector_task(ctx, have, number):
    label = 'vector component: %s, %s' % ('number' if number else 'any other value', 'further' if have else 'first')

    def run(rec):
        w = A(ctx, rec, label, 'glps_append_vector')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        n = I0
        p = NULL
        if have:
            n = ivar('n')
            st.assume(ile(I0, n))
            r = ex.alloc(st, 'components', size=24)
            p = Ptr(r.id, I0)
            LIB.vec_new(ex, st, p, n, 8, {0: (8, 'R')}, base='sym', name='x', fam='x')
            v = LIB.vec(ex, st, p)[0]
            st.rw(v.r).tag = ('grow',)
            st.rw(v.r).count = None
        t, y = ivar('etype'), rvar('y')
        if number:
            e = w.expr('item', NUM, ('vt', 'double', y))
        else:
            e = w.expr('item', t)
            st.assume(bnot(ieq(t, ic(NUM))))
        s0 = st.clone()
        for o, s in w.calls(st, [c, p, e]):
            w.untouched('tables', s0, s)
            if not number:
                P.fact('reported', len(w.errors(s)) >= 1)
                P.fact('no vector', o.value.r is None, repr(o.value))
                continue
            P.fact('accepted', not w.errors(s))
            P.fact('a vector', o.value.r is not None, repr(o.value))
            if o.value.r is None:
                continue
            P.fact('a vector that is still owned', ('freed', o.value.r) not in s.ghost)
            b, e_ = LIB.vec(ex, s, o.value)
            P.holds('one component more', s.pc, ieq(LIB.vec_size(ex, s, o.value, 8), iadd(n, I1)))
            P.eq('the new component comes last', s.pc, ex.load(s, Ptr(b.r, iscale(n, 8)), ('d',)), y)
            if have:
                k = ivar('k')
                s.assume(ile(I0, k))
                s.assume(ilt(k, n))
                P.eq('the others are kept', s.pc, ex.load(s, Ptr(b.r, iscale(k, 8)), ('d',)), relem('x', k, 0))
    return Task(label, run)


def va(w, st, nfixed, gp=None, fp=None, ints=()):
    """the variable argument area (System V x86-64): the first variable argument, or several integers"""
    r = w.ex.alloc(st, 'register save area', size=176)
    over = w.ex.alloc(st, 'overflow area')
    for k, x in enumerate(ints):
        w.ex.store(st, Ptr(r.id, ic(8 * (nfixed + k))) if nfixed + k < 6 else Ptr(over.id, ic(8 * (nfixed + k - 6))), x, ('i', 32))
    if gp is not None:
        w.ex.store(st, Ptr(r.id, ic(8 * nfixed)), gp, PTR)
    if fp is not None:
        w.ex.store(st, Ptr(r.id, ic(48)), fp, ('d',))

    def h(ex, s, a, n):
        ex.store(s, a[0], ic(8 * nfixed), ('i', 32))
        ex.store(s, CT.at(a[0], 4), ic(48), ('i', 32))
        ex.store(s, CT.at(a[0], 8), Ptr(over.id, I0), PTR)
        ex.store(s, CT.at(a[0], 16), Ptr(r.id, I0), PTR)
    w.ex.contracts['llvm.va_start'] = h
    w.ex.contracts['llvm.va_start.p0'] = h
    w.ex.contracts['llvm.va_end'] = w.ex.contracts['llvm.va_end.p0'] = lambda ex, s, a, n: None


def value_task(ctx, kind):
    label = 'value: ' + kind

    def run(rec):
        w = A(ctx, rec, label, 'glps_add_value')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        x = rvar('x')
        t = {'number': NUM, 'name': VAR, 'text': STRT, 'vector': VEC, 'empty vector': VEC}.get(kind)
        gp = fp = None
        nm = None
        if kind == 'number':
            fp = x
        elif kind in ('name', 'text'):
            gp, nm = w.string('name')
        elif kind == 'vector':
            r = ex.alloc(st, 'vec', size=24)
            gp = Ptr(r.id, I0)
            n = ivar('n')
            st.assume(ile(I0, n))
            LIB.vec_new(ex, st, gp, n, 8, {0: (8, 'R')}, base='sym', name='x', fam='x')
        elif kind == 'empty vector':
            gp = NULL
        if t is None:
            t = ivar('etype')
            for k in (NUM, VAR, STRT, VEC):
                st.assume(bnot(ieq(t, ic(k))))
        else:
            t = ic(t)
        va(w, st, 2, gp, fp)
        # entries of the index tables designate entries of the sequences (kept by every definition: 'the index designates the new entry')
        tb = {}
        for k in KIND:
            n_, m = w.table(st, k)
            i = iatom('index', m[1], nm)
            st.assume(ile(I0, i))
            st.assume(ilt(i, n_))
            tb[k] = (G.lookup(m, nm)[0] if nm else None, i)
        s0 = st.clone()
        seen = set()
        for o, s in w.calls(st, [c, t]):
            w.untouched('tables', s0, s)
            if kind == 'name':
                inv, ine, inl = (tb[k][0] for k in ('parse_var', 'parse_element', 'parse_line'))
                pi = LIB.streq(nm, ('lit', 'pi'))
                known = bor(bor(inv, ine), bor(inl, pi))
            else:
                known = FALSE if kind == 'any other type' else TRUE
            if o.value.r is None:
                seen.add('error')
                P.fact('reported', len(w.errors(s)) >= 1)
                P.holds('refused only when undefined', s.pc, bnot(known))
                continue
            seen.add('ok')
            P.fact('accepted', not w.errors(s))
            P.holds('accepted only when defined', s.pc, known)
            et, v = w.etype(s, o.value), w.evalue(s, o.value)
            if kind == 'number':
                P.holds('type', s.pc, ieq(et, ic(NUM)))
                P.fact('a number', v[:2] == ('vt', 'double'), repr(v))
                P.eq('the number', s.pc, v[2], x)
            elif kind == 'text':
                P.holds('type', s.pc, ieq(et, ic(STRT)))
                P.fact('the text', v == ('vt', 'string', nm), repr(v))
            elif kind == 'empty vector':
                P.holds('type', s.pc, ieq(et, ic(VEC)))
                P.fact('no components', v == ('vt', 'vec', ('novec',)), repr(v))
            elif kind == 'vector':
                P.holds('type', s.pc, ieq(et, ic(VEC)))
                P.fact('the components, last collected first', v == ('vt', 'vec', ('vecof', 'x', True)), repr(v))
            elif kind == 'name':
                hit = 0
                for cond, name, wt, wv in (
                        (inv, 'variable', iatom('ielem', 'vars', tb['parse_var'][1], w.off['parse_var']['expr'] + w.eo['etype']), ('vsym', 'vars', tb['parse_var'][1], w.off['parse_var']['expr'] + w.eo['value'])),
                        (band(bnot(inv), ine), 'element', ic(LINE), (('one', nm),)),
                        (band(bnot(bor(inv, ine)), inl), 'beamline', ic(LINE), (('s', ('line', tb['parse_line'][1]), False),)),
                        (band(bnot(bor(inv, bor(ine, inl))), pi), 'pi', ic(NUM), R(math.pi))):
                    if not feasible(s.pc + [cond]):
                        continue
                    hit += 1
                    P.holds(name + ': type', s.pc + [cond], ieq(et, wt))
                    if name == 'variable':
                        P.fact(name + ': its value', v == wv, repr(v))
                    elif name == 'pi':
                        P.fact(name + ': a number', v[:2] == ('vt', 'double'), repr(v))
                        P.eq(name + ': its value', s.pc + [cond], v[2], wv)
                    else:
                        P.fact(name + ': its items', v[:2] == ('vt', 'strlist') and okvalue(w, s, v) == wv, repr(v))
                P.fact('one meaning per path', hit == 1, str(hit))
        P.fact('outcomes reachable', seen == ({'ok', 'error'} if kind == 'name' else {'error'} if kind == 'any other type' else {'ok'}), repr(seen))
    return Task(label, run)


def op_task(ctx, N):
    label = 'operation on %d operand%s' % (N, 's' if N > 1 else '')

    def run(rec):
        w = A(ctx, rec, label, 'glps_add_op')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        np, nm = w.string('name')
        ts = [ivar('t%d' % k) for k in range(N)]
        es = [w.expr('A%d' % k, ts[k]) for k in range(N)]
        args = w.args(es)
        # an arbitrary candidate of that name (or the end of the candidates)
        lo = ctx.lay
        oo = {k: lo.off('operation_t', k, TU) for k in ('fn', 'result_type', 'arg_types')}
        cand = ex.alloc(st, 'candidate', base='sym')
        C, at = Ptr(cand.id, I0), 32 + 32
        end, nxt = (Ptr(ex.alloc(st, k).id, I0) for k in ('end of the candidates', 'next candidate'))
        n = ivar('n.arg_types')
        st.assume(ile(I0, n))
        rt = ivar('result_type')
        LIB.vec_new(ex, st, CT.at(C, at + oo['arg_types']), n, 4, {0: (4, 'I')}, base='sym', name='arg_types', fam='arg_types')
        ex.store(st, CT.at(C, at + oo['fn']), Ptr('fn:%operation', I0), PTR)
        ex.store(st, CT.at(C, at + oo['result_type']), rt, ('i', 32))
        match = ieq(n, ic(N))
        for k in range(N):
            match = band(match, ieq(iatom('ielem', 'arg_types', ic(k), 0), ts[k]))
        atend = pred('no further candidate')

        def equal_range(ex, s, a, n_):
            if a[0] != CT.at(c, w.co['operations']) or LIB.strval(s, a[1]) != nm:
                P.fact('candidates are the operations of that name', False, repr(LIB.strval(s, a[1])))
            return [C, end]

        def cmp(ex, s, a, n_):
            x, y = ex.load(s, a[0], PTR), ex.load(s, a[1], PTR)
            if {x, y} != {C, end}:
                raise Unknown("comparison of candidates")
            return atend if 'operator==' in ex.lib.dem(n_) else bnot(atend)

        def incr(ex, s, a, n_):
            if a[0] != C:
                raise Unknown("advance over candidates")
            return nxt

        def oper(ex, s, a, n_):
            P.fact('the operation gets the parser state', a[0] == c, repr(a[0]))
            P.fact('the operation gets the operands', a[2] == args, repr(a[2]))
            for k in range(N):
                P.fact('operands unchanged', ('freed', es[k].r) not in s.ghost and ex.load(s, CT.at(args, 8 * k), PTR) == es[k] and w.evalue(s, es[k]) == ('vsym', 'A%d' % k, w.eo['value']))
            s.trace.append(('operate', a[1]))
            s2, s3 = s.clone(), s.clone()
            G.vset(ex, s, a[1], ('vsym', 'result'))
            rv = ivar('rv')
            s2.assume(bnot(ieq(rv, I0)))
            s2.trace.append(('failed',))
            s3.trace.append(('failed',))
            return Fork([(s, I0), (s2, rv), (s3, Throw('_ZTISt13runtime_error'))])
        for m, d in ctx.lib.dm.items():
            q = build.strip_templates(d)
            if 'operation_t' in d and re.search(r'std::(_Rb_tree|multimap)::equal_range\(', q):
                ex.contracts[m] = equal_range
            elif 'operation_t' in d and re.search(r'operator(==|!=)\(std::_Rb_tree_', q):
                ex.contracts[m] = cmp
            elif 'glps_describe_op' in d:
                ex.contracts[m] = lambda ex, s, a, n_: G.gset(s, a[0], ('sym', 'description'))
        for m in ('_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'):
            ex.contracts[m] = incr
        ex.contracts['%operation'] = oper
        ex.nosum = True
        s0 = st.clone()
        fn_ = ctx.prog.find('glps_add_op', w.mod())
        # the loop over the candidates: the outermost loop that is entered first
        hs = {h for h in fn_.loops if not any(h in b and h != g for g, b in fn_.loops.items())}
        base = len(st.frames)
        ex.push(st, fn_, [c, np, ic(N), args])
        first = [o for o in run_to(ex, st, base, hs) if feasible(o.state.pc)]
        if len(first) != 1 or kd(first[0]) != 'back':
            raise Unknown("loop over the candidates not found")
        h = first[0].info[1]
        s1 = first[0].state
        phis = {ph.res: s1.frames[-1].regs[ph.res] for ph in fn_.blocks[h].phis}
        where = [(rid, k) for rid, reg in s1.mem.items() for k, v in reg.cells.items() if isinstance(k, int) and v[1] == C]
        s = s1.clone()
        s.frames[-1].loops = {}
        seen = set()
        for o in ex.run([s], base, (len(s.frames), h, fn_.loops[h])):
            s2 = o.state
            if not feasible(s2.pc):
                continue
            if kd(o) == 'back':
                # the next candidate is considered in the same state
                seen.add('next')
                P.holds('a candidate is passed over only if it does not fit', s2.pc, band(bnot(atend), bnot(match)))
                # by induction over the candidates: the next one is considered in the same state
                if any(s2.frames[-1].regs[r] != (nxt if v == C else v) for r, v in phis.items()) or not (where or C in phis.values()) \
                        or any(s2.mem[rid].cells[k][1] != nxt for rid, k in where):
                    raise Unknown("state carried from one candidate to the next")
                for rid, reg in s1.mem.items():
                    if s2.mem[rid].cells is not reg.cells and any(s2.mem[rid].cells.get(k) != v for k, v in reg.cells.items() if (rid, k) not in where):
                        raise Unknown("%s changed while searching" % reg.name)
                P.fact('nothing done while searching', s2.trace == s1.trace)
                continue
            s2.frames[-1].loops = {}
            for o3 in (ex.run([s2], base) if kd(o) == 'exit' else [o]):
                s3 = o3.state
                if not feasible(s3.pc):
                    continue
                P.fact('no exception leaves the action', o3.kind == 'ret', o3.kind)
                if o3.kind != 'ret':
                    continue
                w.untouched('tables', s0, s3)
                did = [t for t in s3.trace if t[0] == 'operate']
                failed = [t for t in s3.trace if t[0] == 'failed']
                if not did:
                    seen.add('none')
                    P.holds('no operation only when no candidate fits', s3.pc, atend)
                else:
                    P.fact('one operation', len(did) == 1)
                    P.holds('the operation is the first candidate that fits', s3.pc, band(bnot(atend), match))
                if did and not failed:
                    seen.add('ok')
                    P.fact('accepted', not w.errors(s3))
                    P.fact('a value', o3.value.r is not None, repr(o3.value))
                    if o3.value.r is not None:
                        P.fact('a value that is still owned', ('freed', o3.value.r) not in s3.ghost)
                        P.holds('its type is the one declared for the operation', s3.pc, ieq(w.etype(s3, o3.value), rt))
                        P.fact('it is the result of the operation', did[0][1] == CT.at(o3.value, w.eo['value']) and w.evalue(s3, o3.value) == ('vsym', 'result'), repr(w.evalue(s3, o3.value)))
                else:
                    if did:
                        seen.add('failed')
                    P.fact('reported', len(w.errors(s3)) >= 1)
                    P.fact('no value', o3.value.r is None, repr(o3.value))
                for e in es:
                    P.fact('operands released', ('freed', e.r) in s3.ghost)
        P.fact('outcomes reachable', seen == {'next', 'none', 'ok', 'failed'}, repr(seen))
        w.finish()
    return Task(label, run)


N_, L_, T_, C_ = NUM, LINE, STRT, CONF
TABLE = [('-', 'unary_negate', N_, [N_])] + [(n, 'unary_' + f, N_, [N_]) for n, f in (
    ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('asin', 'asin'), ('acos', 'acos'), ('atan', 'atan'), ('arcsin', 'asin'), ('arccos', 'acos'), ('arctan', 'atan'),
    ('deg2rad', 'deg2rad'), ('rad2deg', 'rad2deg'))] + [(n, 'binary_' + f, N_, [N_, N_]) for n, f in (('+', 'add'), ('-', 'sub'), ('*', 'mult'), ('/', 'div'))] + [
    ('-', 'unary_bl_negate', L_, [L_]), ('*', 'binary_bl_mult<0, 1>', L_, [N_, L_]), ('*', 'binary_bl_mult<1, 0>', L_, [L_, N_]),
    ('parse', 'unary_parse', C_, [T_]), ('file', 'unary_file', T_, [T_]), ('dir', 'unary_file', T_, [T_])]


def table_task(ctx):
    label = 'operations of the language'

    def run(rec):
        f = ctx.find(r'parse_context::parse_context\(char const\*\)', 'glps_ops')
        w = A(ctx, rec, label, f)
        w.tu = 'glps_ops'
        P, ex, st = w.P, w.ex, w.st
        got = []

        def addop(ex, s, a, n):
            fn_ = a[2]
            if not isinstance(fn_.r, str):
                raise Unknown("operation without a function")
            nm = fn_.r[3:].split(':')[-1]
            s.trace.append(('op', LIB.cstr_at(s, a[1]), ctx.lib.dem(nm), icst(a[3]), icst(a[4]), [icst(x) for x in a[5:]]))

        def path(ex, s, a, n):
            if a and isinstance(a[0], Ptr) and isinstance(a[0].r, int):
                G.gset(s, a[0], ('sym', 'path'))
            return a[0] if a else None
        for m, d in ctx.lib.dm.items():
            if d.startswith('parse_context::addop('):
                ex.contracts[m] = addop
            elif 'boost::filesystem' in d and not d.startswith('parse_context'):
                ex.contracts[m] = path
        r = ex.alloc(st, 'ctxt', size=ctx.lay.get('parse_context', TU)[0])
        w.cp = Ptr(r.id, I0)
        n = 0
        for o in ex.call(st, f, [w.cp, NULL], w.mod()):
            s = o.state
            if not feasible(s.pc):
                continue
            n += 1
            P.fact('constructed', o.kind == 'ret', o.kind)
            got = [t[1:] for t in s.trace if t[0] == 'op']
            sig = {}
            for name, fn_, res, cnt, args in got:
                P.fact('argument count of %s' % (name,), cnt == len(args), repr(args))
                P.fact('one meaning for %s %s' % (name, args), (name, tuple(args)) not in sig)
                sig[(name, tuple(args))] = (re.sub(r'.*\(anonymous namespace\)::|\(parse_context.*', '', fn_), res)
            for name, fn_, res, args in TABLE:
                x = sig.pop((('lit', name), tuple(args)), None)
                if x is not None and x[0] not in {t[1] for t in TABLE}:
                    raise Unknown("function %s of %s" % (x[0], name))
                P.fact('%s %s' % (name, args), x == (fn_, res), repr(x))
            # operations beyond the documented ones do not change the meaning of these
            P.fact('no error so far', LIB.strval(s, CT.at(w.cp, w.co['last_error'])) == ('lit', ''))
            for k, (v, i) in KIND.items():
                m = G.mapval(s, CT.at(w.cp, w.co[i]))
                P.fact('%s empty' % i, m == ('empty',), repr(m))
        P.fact('reachable', n > 0)
        w.finish()
    return Task(label, run)


def addop_task(ctx, N):
    label = 'registration of an operation on %d operand%s' % (N, 's' if N > 1 else '')

    def run(rec):
        f = ctx.find(r'parse_context::addop\(.*', TU)
        w = A(ctx, rec, label, f)
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        ts = [ivar('t%d' % k) for k in range(N)]
        va(w, st, 5, ints=ts)
        nm, rt = ('sym', 'name'), ivar('result_type')
        oo = {k: ctx.lay.off('operation_t', k, TU) for k in ('name', 'fn', 'result_type', 'arg_types')}
        ex.nosum = True

        def insert(ex, s, a, n):
            d = ex.lib.dem(n)
            P.fact('entered into the table of operations', a[0] == CT.at(c, w.co['operations']))
            m = re.search(r'std::pair<char const\*, operation_t>', d[d.find('::_M_emplace_equal') if '::_M_emplace_equal' in d else 0:])
            key = LIB.cstr_at(s, ex.load(s, a[1], PTR)) if m else LIB.strval(s, a[1])
            o = CT.at(a[1], 8 if m else 32)
            tv = CT.at(o, oo['arg_types'])
            n_ = LIB.vec_size(ex, s, tv, 4)
            b = LIB.vec(ex, s, tv)[0]
            s.trace.append(('reg', key, ex.load(s, CT.at(o, oo['fn']), PTR), ex.load(s, CT.at(o, oo['result_type']), ('i', 32)), n_,
                            [ex.load(s, Ptr(b.r, ic(4 * k)), ('i', 32)) for k in range(N)]))
            return NULL
        for m, d in ctx.lib.dm.items():
            if 'operation_t' in d and re.search(r'std::(_Rb_tree::_M_emplace_equal|_Rb_tree::_M_insert_equal|multimap::insert|multimap::emplace)\(', build.strip_templates(d)):
                ex.contracts[m] = insert
        s0 = st.clone()
        fp = Ptr('fn:%operation', I0)
        for o, s in w.calls(st, [c, w.text(st, nm), fp, rt, ic(N)]):
            w.untouched('tables', s0, s)
            g = [t for t in s.trace if t[0] == 'reg']
            P.fact('registered once', len(g) == 1)
            if len(g) != 1:
                continue
            g = g[0]
            P.fact('under its name', g[1] == nm, repr(g[1]))
            P.fact('with its function', g[2] == fp, repr(g[2]))
            P.holds('with its result type', s.pc, ieq(g[3], rt))
            P.holds('with its number of operands', s.pc, ieq(g[4], ic(N)))
            for k in range(N):
                P.holds('with the type of operand %d' % k, s.pc, ieq(g[5][k], ts[k]))
    return Task(label, run)


def parse_task(ctx):
    label = 'a parse fails iff an error was reported'

    def run(rec):
        f = ctx.find(r'\(anonymous namespace\)::parse_common\(.*', TU)
        w = A(ctx, rec, label, f)
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        le = CT.at(c, w.co['last_error'])
        sc = Ptr(ex.alloc(st, 'lexer', base='sym').id, I0)
        pvt = Ptr(ex.alloc(st, 'input', base='sym').id, I0)
        buf = Ptr(ex.alloc(st, 'buffer', base='sym').id, I0)

        def init(ex, s, a, n):
            s2 = s.clone()
            ex.store(s, a[1], sc, PTR)
            s.trace.append(('init',))
            s2.trace.append(('broken',))
            return Fork([(s, I0), (s2, I1)])

        def setup(ex, s, a, n):
            P.fact('the input is read', a[0] == sc and a[1] == pvt, repr(a))
            s2, s3 = s.clone(), s.clone()
            s2.trace.append(('broken',))
            s3.trace.append(('broken',))
            return Fork([(s, buf), (s2, NULL), (s3, Throw('_ZTISt9exception'))])

        def parse(ex, s, a, n):
            P.fact('no error left from before', LIB.strval(s, le) == ('lit', ''), repr(LIB.strval(s, le)))
            P.fact('parsed into this state', any(x == c for x in a) or any(isinstance(x, Ptr) and isinstance(x.r, int) and s.mem[x.r].cells.get(8, (0, None))[1] == c for x in a), repr(a))
            s.trace.append(('parsed',))
            G.gset(s, le, ('sym', 'reported'))
            return ivar('yacc status')

        def destroy(ex, s, a, n):
            P.fact('the lexer is released', a[0] == sc, repr(a[0]))
            s.trace.append(('destroy',))
            return I0
        for k, h in (('glps_lex_init_extra', init), ('glps_parse', parse), ('glps_lex_destroy', destroy), ('%setup', setup), ('glps_set_lineno', lambda ex, s, a, n: None)):
            ex.contracts[k] = h
        none = LIB.streq(('sym', 'reported'), ('lit', ''))
        z = iatom('strlen', ('sym', 'reported'))
        st.assume(bor(band(none, ieq(z, I0)), band(bnot(none), ile(I1, z))))     # meaning of size()
        seen = set()
        for o in ex.call(st, f, [Ptr('fn:%setup', I0), c, pvt], w.mod()):
            s = o.state
            if not feasible(s.pc):
                continue
            t = [x[0] for x in s.trace]
            P.fact('lexer released exactly once', t.count('destroy') == t.count('init'), repr(t))
            if o.kind == 'ret':
                seen.add('ok')
                P.fact('the input was parsed', t.count('parsed') == 1 and 'broken' not in t, repr(t))
                P.holds('success only without a reported error', s.pc, none)
            else:
                seen.add('fail')
                if 'broken' not in t:
                    seen.add('error')
                    P.fact('after parsing', 'parsed' in t, repr(t))
                    P.holds('failure only after a reported error', s.pc, bnot(none))
        P.fact('outcomes reachable', seen == {'ok', 'fail', 'error'}, repr(seen))
        w.finish()
    return Task(label, run)


def command_task(ctx):
    label = 'command'

    def run(rec):
        w = A(ctx, rec, label, 'glps_command')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        kp, kw = w.string('keyword')
        s0 = st.clone()
        end = LIB.streq(kw, ('lit', 'END'))
        seen = set()
        for o, s in w.calls(st, [c, kp]):
            w.untouched('command', s0, s)
            seen.add(bool(w.errors(s)))
            P.holds('END is the only command' if w.errors(s) else 'an unknown command is an error', s.pc, bnot(end) if w.errors(s) else end)
        P.fact('both outcomes reachable', len(seen) == 2)
    return Task(label, run)


def call_task(ctx, printer):
    label = 'function call as a statement, %s' % ('print of a number' if printer else 'no printer')

    def run(rec):
        w = A(ctx, rec, label, 'glps_call1')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        pr = NULL
        if printer:
            pr = Ptr(ex.alloc(st, 'stream').id, I0)
        ex.store(st, CT.at(c, ctx.lay.off('parse_context', 'printer', TU)), pr, PTR)
        ex.contracts['_Z15glps_get_linenoPv'] = ex.contracts['glps_get_lineno'] = lambda ex, s, a, n: ivar('line')
        fp, fn = w.string('function')
        e = w.expr('argument', ic(NUM) if printer else ivar('etype'))
        if printer:
            G.vset(ex, st, CT.at(e, w.eo['value']), ('vt', 'double', rvar('x')))

        def put(ex, s, a, n):
            s.trace.append(('out', a[0], a[1] if isinstance(a[1], T) and a[1].sort == 'R' else None))
            return a[0]
        ex.contracts['_ZNSolsEd'] = put
        ex.contracts['_ZNSolsEi'] = lambda ex, s, a, n: a[0]
        for n in ctx.lib.dm:
            if n.startswith('_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc'):
                ex.contracts[n] = lambda ex, s, a, n: a[0]
        s0 = st.clone()
        pname = LIB.streq(fn, ('lit', 'print'))
        seen = set()
        for o, s in w.calls(st, [c, fp, e]):
            w.untouched('call', s0, s)
            bad = bool(w.errors(s))
            seen.add(bad)
            P.holds('print is the only function' if bad else 'an unknown function is an error', s.pc, bnot(pname) if bad else pname)
            out = [t for t in s.trace if t[0] == 'out']
            if printer and not bad:
                P.fact('the number is printed once, on the printer', len(out) == 1 and out[0][1:] == (pr, rvar('x')), repr(out))
            else:
                P.fact('nothing printed', not out)
        P.fact('both outcomes reachable', len(seen) == 2)
    return Task(label, run)


def error_task(ctx, first):
    label = 'error report, %s' % ('first' if first else 'further')

    def run(rec):
        w = A(ctx, rec, label, 'glps_verror')
        P, ex, st = w.P, w.ex, w.st
        c = w.tables()
        n = ivar('nscratch')
        st.assume(ile(I1, n))
        off = lambda m: ctx.lay.off('parse_context', m, TU)
        buf = LIB.vec_new(ex, st, CT.at(c, off('error_scratch')), n, 1, {0: (1, 'I')}, base='sym', name='error_scratch', fam='scratch')
        le = CT.at(c, off('last_error'))
        old = ('lit', '') if first else ('sym', 'first error')
        G.gset(st, le, old)
        if not first:
            st.assume(ile(I1, iatom('strlen', old)))
            st.assume(bnot(LIB.streq(old, ('lit', ''))))
        ex.store(st, CT.at(c, off('last_line')), ivar('line0'), ('i', 32))
        args, fmt = Ptr(ex.alloc(st, 'va_list').id, I0), w.text(st, ('sym', 'format'))
        sc = Ptr(ex.alloc(st, 'scan').id, I0)

        def h_fmt(ex, s, a, n_):
            P.fact('requires(vsnprintf): the message of this call', a[2] == fmt and a[3] == args)
            P.fact('requires(vsnprintf): the scratch buffer', a[0].r == buf.id and a[0].o is I0)
            P.holds('requires(vsnprintf): within the buffer', s.pc, band(ile(a[1], n), ile(I0, a[1])))
            s.rw(buf.id).tag = ('cstr', ('sym', 'message'))
            s.trace.append(('formatted',))
            return ivar(fresh('len'))

        def h_line(ex, s, a, n_):
            P.fact('requires(glps_get_lineno): this scanner', a[0] == sc)
            return ivar('line')
        for f_, h_ in (('vsnprintf', h_fmt), ('glps_get_lineno', h_line), ('_Z15glps_get_linenoPv', h_line)):
            ex.contracts[f_] = h_
        for o, s in w.calls(st, [sc, c, fmt, args]):
            w.untouched('error', st, s)
            P.fact('the first message is kept' if not first else 'the message is recorded', LIB.strval(s, le) == (('sym', 'message') if first else old), repr(LIB.strval(s, le)))
            P.holds('line of the first error', s.pc, ieq(ex.load(s, CT.at(c, off('last_line')), ('i', 32)), ivar('line') if first else ivar('line0')))
    return Task(label, run)


def tasks(ctx):
    return [command_task(ctx), call_task(ctx, False), call_task(ctx, True), error_task(ctx, True), error_task(ctx, False), assign_task(ctx)] + [element_task(ctx, x) for x in (True, False)] + [line_task(ctx, x) for x in (True, False)] + \
        [append_task(ctx, k, h) for k in ('element', 'beamline', 'any other value') for h in (True, False)] + [kv_task(ctx, x) for x in (True, False)] + \
        [vector_task(ctx, h, n) for h in (True, False) for n in (True, False)] + [value_task(ctx, k) for k in ('number', 'name', 'text', 'vector', 'empty vector', 'any other type')] + [op_task(ctx, n) for n in (1, 2)] + [table_task(ctx)] + [addop_task(ctx, n) for n in (1, 2)] + [parse_task(ctx)]
