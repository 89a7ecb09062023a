"""Config: two scopes of named typed values with copy-on-write sharing.

Abstraction: inner(C) and outer(C) are finite maps name -> value; view(C) = inner(C) overriding outer(C) is what lookups see.
Ownership: a map shared by several Configs is never modified in place (each mutation carries the obligation that the
modifying Config is the sole owner), so a change made through one Config is invisible to every other one."""
from verify import *
import gmap as G

TUS = ['config', 'inst', 'util']
KEY = ('sym', 'name')


class CObj:
    def __init__(self, W, st, name, imp, shared_with=None):
        self.W, self.name = W, name
        ex, ctx = W.ex, W.ctx
        self.reg = ex.alloc(st, name, size=ctx.lay.get('Config', 'config')[0])
        self.ptr = Ptr(self.reg.id, I0)
        self.vo, self.io = ctx.lay.off('Config', 'values', 'config'), ctx.lay.off('Config', 'implicit_values', 'config')
        self.fill(st, self.vo, name + '.inner')
        if imp:
            self.fill(st, self.io, name + '.outer')
        else:
            ex.store(st, Ptr(self.reg.id, ic(self.io)), NULL, PTR)

    def fill(self, st, off, nm):
        ex = self.W.ex
        m = ex.alloc(st, nm, base='sym')
        m.cells[('g', 0)] = ('map', ('m', nm))
        st.ghost[('rc', m.id)] = 1
        st.ghost[('sharable', m.id)] = True
        ex.store(st, Ptr(self.reg.id, ic(off)), Ptr(m.id, I0), PTR)

    def vals(self, st):
        return self.W.ex.load(st, Ptr(self.reg.id, ic(self.vo)), PTR)

    def outp(self, st):
        return self.W.ex.load(st, Ptr(self.reg.id, ic(self.io)), PTR)

    def inner(self, st):
        return G.mapval(st, self.vals(st))

    def outer(self, st):
        p = self.outp(st)
        return ('empty',) if p.r is None else G.mapval(st, p)

    def view(self, st):
        return ('merge', self.inner(st), self.outer(st))


class Blank(CObj):
    """storage for a Config about to be constructed"""

    def __init__(self, W, st, name):
        self.W, self.name = W, name
        self.reg = W.ex.alloc(st, name, size=W.ctx.lay.get('Config', 'config')[0])
        self.ptr = Ptr(self.reg.id, I0)
        self.vo, self.io = W.ctx.lay.off('Config', 'values', 'config'), W.ctx.lay.off('Config', 'implicit_values', 'config')


class W0:
    def __init__(self, ctx, rec, label, f):
        self.ctx = ctx
        self.P = Prover(rec, label)
        self.ex = ctx.executor(G.contracts(ctx))
        self.rec = rec
        self.f = f
        for n in list(ctx.lib.dm):
            if n.startswith('_ZNK2SBcv'):
                self.ex.contracts[n] = lambda ex, st, a, n: G.gset(st, a[0], ('sym', fresh('msg')))
            elif n.startswith('_ZN2SB'):
                self.ex.contracts[n] = lambda ex, st, a, n: a[0]
        self.st = State()

    def string(self, v=KEY, name='name'):
        r = self.ex.alloc(self.st, name)
        r.cells[('g', 0)] = v
        return Ptr(r.id, I0)

    def typed(self, T, name, val=None):
        """an object of the alternative type T"""
        r = self.ex.alloc(self.st, name, base='uninit')
        if T == 'double':
            if val is not False:
                self.ex.store(self.st, Ptr(r.id, I0), rvar(name), ('d',))
        elif T == 'string':
            r.cells[('g', 0)] = ('sym', name)
        else:
            r.cells[('g', 0)] = ('opaque', ('vec', name))
        return Ptr(r.id, I0)

    def value(self, T, name):
        return ('vt', T, rvar(name) if T == 'double' else ('sym', name) if T == 'string' else ('vec', name))

    def read(self, st, p, T):
        if T == 'double':
            return self.ex.load(st, p, ('d',))
        if T == 'string':
            return G.strval(st, p)
        g = G.gget(st, p)
        return g[1] if g is not None else None

    def variant(self, name='val'):
        r = self.ex.alloc(self.st, name, base='sym')
        return Ptr(r.id, I0)

    def run(self, args):
        self.s0 = self.st.clone()
        outs = self.ex.call(self.st, self.f, args)
        self.rec.functions.extend([self.f] + [x for x in self.ex.stats['functions'] if not build.is_library(x)])
        return [o for o in outs if feasible(o.state.pc)]

    def owners(self, s1, confs):
        """ownership discipline on the way to s1, and exact owner counts in s1"""
        P = self.P
        for t in s1.trace:
            if t[0] == 'mutate':
                P.fact('a map is modified only by its sole owner', t[2], 'owner count %r of %s' % (t[3], s1.mem[t[1]].name))
        cnt = collections.Counter()
        for c in confs:
            for p in (c.vals(s1), c.outp(s1)):
                if p.r is not None:
                    cnt[p.r] += 1
        for (k, rid), v in [(k, v) for k, v in s1.ghost.items() if k[0] == 'rc']:
            P.fact('owner count of every map is exact', v == cnt[rid], '%s: counted %d, references %d' % (s1.mem[rid].name, v, cnt[rid]))

    def others(self, s1):
        """what other Configs may see of the initial maps is unchanged"""
        for (k, rid), v in [(k, v) for k, v in s1.ghost.items() if k[0] == 'sharable']:
            a, b = self.s0.mem[rid].cells.get(('g', 0)), s1.mem[rid].cells.get(('g', 0))
            if a != b:
                self.P.holds('maps other Configs refer to are unchanged', s1.pc, bnot(pred('others', rid)), s1.mem[rid].name)
            else:
                self.P.fact('maps other Configs refer to are unchanged', True)

    def unchanged(self, s1, c, what='unchanged'):
        for nm, f in (('inner scope', c.inner), ('outer scope', c.outer)):
            G.map_eq(self.P, '%s: %s %s' % (c.name, nm, what), s1.pc, f(s1), f(self.s0))


import collections


def task(ctx, rx, label, body, tu=None):
    def run(rec):
        f = ctx.find(rx, tu)
        for imp in (False, True):
            W = W0(ctx, rec, label, f)
            W.imp = imp
            body(W, imp)
    return Task(label, run)


S_ = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>\s*>'
V_ = r'boost::variant<.*>'
TY = {'double': r'double', 'string': S_, 'vec': r'std::vector<double, std::allocator<double>\s*>', 'cvec': r'std::vector<Config, std::allocator<Config>\s*>'}


def b_ctor(W, imp):
    c = Blank(W, W.st, 'C')
    n = 0
    for o in W.run([c.ptr]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        s1 = o.state
        G.map_eq(W.P, 'inner scope empty', s1.pc, c.inner(s1), ('empty',))
        W.P.fact('no outer scope', c.outp(s1).r is None)
        W.owners(s1, [c])


def b_copy(W, imp):
    O, c = CObj(W, W.st, 'O', imp), Blank(W, W.st, 'C')
    for o in W.run([c.ptr, O.ptr]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        s1 = o.state
        G.map_eq(W.P, 'inner scope of the copy', s1.pc, c.inner(s1), O.inner(W.s0))
        G.map_eq(W.P, 'outer scope of the copy', s1.pc, c.outer(s1), O.outer(W.s0))
        W.unchanged(s1, O)
        W.owners(s1, [c, O])
        W.others(s1)


def b_assign(W, imp, mode):
    O = CObj(W, W.st, 'O', imp)
    c = O if mode == 'self' else CObj(W, W.st, 'C', mode == 'outer')
    for o in W.run([c.ptr, O.ptr]):
        W.P.fact('returns *this', o.kind == 'ret' and o.value == c.ptr, o.kind)
        s1 = o.state
        G.map_eq(W.P, 'inner scope of the target', s1.pc, c.inner(s1), O.inner(W.s0))
        G.map_eq(W.P, 'outer scope of the target', s1.pc, c.outer(s1), O.outer(W.s0))
        W.unchanged(s1, O)
        W.owners(s1, [O] if c is O else [c, O])
        W.others(s1)


def b_cow(W, imp):
    c = CObj(W, W.st, 'C', imp)
    for o in W.run([c.ptr]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        s1 = o.state
        W.unchanged(s1, c)
        W.P.holds('sole owner afterwards', s1.pc, G.unique_cond(s1, c.vals(s1).r))
        W.owners(s1, [c])
        W.others(s1)


def present(W, s, c, k=KEY):
    return G.lookup(c.view(s), k)


def b_tryany(W, imp):
    c = CObj(W, W.st, 'C', imp)
    k, r = W.string(), W.variant('ret')
    kinds = set()
    for o in W.run([c.ptr, k, r]):
        s1 = o.state
        pr, v = present(W, W.s0, c)
        W.P.fact('returns', o.kind == 'ret', o.kind)
        W.unchanged(s1, c)
        W.owners(s1, [c])
        b = W.ex.tobool(o.value)
        W.P.holds('true iff present (=>)', s1.pc + [b], pr)
        W.P.holds('true iff present (<=)', s1.pc + [pr], b)
        for q, want in ((s1.pc + [pr], v), (s1.pc + [bnot(pr)], G.vget(W.ex, W.s0, r))):
            if feasible(q):
                kinds.add(want is v)
                G.value_eq(W.P, 'value delivered (or left alone)', q, G.vget(W.ex, s1, r), want)
    W.P.fact('both outcomes reachable', len(kinds) == 2)


def b_getany(W, imp):
    c = CObj(W, W.st, 'C', imp)
    k = W.string()
    kinds = set()
    for o in W.run([c.ptr, k]):
        s1 = o.state
        pr, v = present(W, W.s0, c)
        W.unchanged(s1, c)
        W.owners(s1, [c])
        kinds.add(o.kind)
        if o.kind == 'throw':
            W.P.fact('error is key_error', o.exc and o.exc[0] == '_ZTI9key_error', repr(o.exc))
            W.P.holds('error only when absent from both scopes', s1.pc, bnot(pr))
        else:
            W.P.holds('returns only when present', s1.pc, pr)
            G.value_eq(W.P, 'innermost value', s1.pc, G.vget(W.ex, s1, o.value), v)
    W.P.fact('both outcomes reachable', len(kinds) == 2)


def put_check(W, s1, c, val):
    G.map_eq(W.P, 'inner scope gets exactly this entry', s1.pc, c.inner(s1), ('put', c.inner(W.s0), KEY, val))
    G.map_eq(W.P, 'outer scope unchanged', s1.pc, c.outer(s1), c.outer(W.s0))
    W.owners(s1, [c])
    W.others(s1)


def b_setany(W, imp):
    c = CObj(W, W.st, 'C', imp)
    k, v = W.string(), W.variant('val')
    for o in W.run([c.ptr, k, v]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        put_check(W, o.state, c, G.vget(W.ex, W.s0, v))
        G.value_eq(W.P, 'argument unchanged', o.state.pc, G.vget(W.ex, o.state, v), G.vget(W.ex, W.s0, v))


def b_set(T):
    def body(W, imp):
        c = CObj(W, W.st, 'C', imp)
        k = W.string()
        v = rvar('val') if T == 'double' else W.typed(T, 'val')
        for o in W.run([c.ptr, k, v]):
            W.P.fact('returns', o.kind == 'ret', o.kind)
            put_check(W, o.state, c, W.value(T, 'val'))
    return body


def b_swapany(W, imp):
    c = CObj(W, W.st, 'C', imp)
    k, v = W.string(), W.variant('val')
    for o in W.run([c.ptr, k, v]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        s1 = o.state
        put_check(W, s1, c, G.vget(W.ex, W.s0, v))
        pr, old = G.lookup(c.inner(W.s0), KEY)
        if feasible(s1.pc + [pr]):
            G.value_eq(W.P, 'argument receives the previous value of the inner scope', s1.pc + [pr], G.vget(W.ex, s1, v), old)
        if feasible(s1.pc + [bnot(pr)]):
            G.value_eq(W.P, 'argument receives an empty value when there was none', s1.pc + [bnot(pr)], G.vget(W.ex, s1, v), ('vt', 'double', R0))


def b_swap(T):
    def body(W, imp):
        c = CObj(W, W.st, 'C', imp)
        k, v = W.string(), W.typed(T, 'val')
        for o in W.run([c.ptr, k, v]):
            W.P.fact('returns', o.kind == 'ret', o.kind)
            put_check(W, o.state, c, W.value(T, 'val'))
    return body


def b_swapc(W, imp):
    c, d = CObj(W, W.st, 'C', imp), CObj(W, W.st, 'D', not imp)
    for o in W.run([c.ptr, d.ptr]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        s1 = o.state
        for x, y in ((c, d), (d, c)):
            G.map_eq(W.P, 'inner scopes exchanged', s1.pc, x.inner(s1), y.inner(W.s0))
            G.map_eq(W.P, 'outer scopes exchanged', s1.pc, x.outer(s1), y.outer(W.s0))
        W.owners(s1, [c, d])
        W.others(s1)


def emptyfacts(W, c):
    """what empty() of a symbolic map means"""
    return [('m', c.name + x) for x in ('.inner', '.outer')]


def empt(pc, m, k):
    """a map known to be empty has no entry"""
    out = []
    for mm in m:
        e = pred('emptymap', mm[1])
        out.append(bor(bnot(e), bnot(pred('in', mm[1], k))))
    return out


ANY = ('sym', '$anykey')


def b_newscope(W, imp):
    c, r = CObj(W, W.st, 'C', imp), Blank(W, W.st, 'ret')
    for o in W.run([r.ptr, c.ptr]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        s1 = o.state
        q = list(s1.pc) + empt(None, emptyfacts(W, c), ANY)
        G.map_eq(W.P, 'inner scope of the result empty', q, r.inner(s1), ('empty',))
        G.map_eq(W.P, 'outer scope of the result = all visible entries', q, r.outer(s1), c.view(W.s0))
        W.unchanged(s1, c)
        W.owners(s1, [c, r])
        W.others(s1)


def b_push(W, imp):
    c = CObj(W, W.st, 'C', imp)
    for o in W.run([c.ptr]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        s1 = o.state
        G.map_eq(W.P, 'inner scope empty', s1.pc, c.inner(s1), ('empty',))
        G.map_eq(W.P, 'everything visible before is in the outer scope', s1.pc, c.outer(s1), c.view(W.s0))
        W.owners(s1, [c])
        W.others(s1)


def b_flat(W, imp):
    c = CObj(W, W.st, 'C', imp)
    for o in W.run([c.ptr]):
        W.P.fact('returns', o.kind == 'ret', o.kind)
        s1 = o.state
        G.map_eq(W.P, 'everything visible is in the inner scope', s1.pc, c.inner(s1), c.view(W.s0))
        G.map_eq(W.P, 'no outer scope', s1.pc, c.outer(s1), ('empty',))
        W.owners(s1, [c])
        W.others(s1)


def pay_eq(W, name, pc, got, v, T):
    for q, x in G.leaves(list(pc), v):
        if not feasible(q):
            continue
        w = G.payload(x, T)
        if T == 'double':
            W.P.eq(name, q, got, w)
        else:
            W.P.fact(name, got == w, '%r / %r' % (got, w))


def has_(W, s, c, T):
    pr, v = present(W, s, c)
    return band(pr, G.vis(v, T)), v


def b_get(T):
    def body(W, imp):
        c = CObj(W, W.st, 'C', imp)
        kinds = set()
        for o in W.run([c.ptr, W.string()]):
            s1 = o.state
            h, v = has_(W, W.s0, c, T)
            kinds.add(o.kind)
            W.unchanged(s1, c)
            W.owners(s1, [c])
            if o.kind == 'throw':
                W.P.fact('error is key_error', o.exc and o.exc[0] == '_ZTI9key_error', repr(o.exc))
                W.P.holds('error only when absent or of another type', s1.pc, bnot(h))
            else:
                W.P.holds('returns only when present with this type', s1.pc, h)
                got = o.value if T == 'double' else W.read(s1, o.value, T)
                pay_eq(W, 'value', s1.pc, got, v, T)
        W.P.fact('both outcomes reachable', len(kinds) == 2)
    return body


def b_getdef(T):
    def body(W, imp):
        c = CObj(W, W.st, 'C', imp)
        d = rvar('def') if T == 'double' else W.typed(T, 'def')
        for o in W.run([c.ptr, W.string(), d]):
            s1 = o.state
            h, v = has_(W, W.s0, c, T)
            W.P.fact('never an error', o.kind == 'ret', o.kind)
            if o.kind != 'ret':
                continue
            W.unchanged(s1, c)
            W.owners(s1, [c])
            got = o.value if T == 'double' else W.read(s1, o.value, T)
            if feasible(s1.pc + [h]):
                pay_eq(W, 'value', s1.pc + [h], got, v, T)
            if feasible(s1.pc + [bnot(h)]):
                if T == 'double':
                    W.P.eq('default', s1.pc + [bnot(h)], got, d)
                else:
                    W.P.fact('default', got == W.value(T, 'def')[2], repr(got))
    return body


def b_try(T):
    def body(W, imp):
        c = CObj(W, W.st, 'C', imp)
        r = W.typed(T, 'out')
        for o in W.run([c.ptr, W.string(), r]):
            s1 = o.state
            h, v = has_(W, W.s0, c, T)
            W.P.fact('never an error', o.kind == 'ret', o.kind)
            if o.kind != 'ret':
                continue
            W.unchanged(s1, c)
            W.owners(s1, [c])
            b = W.ex.tobool(o.value)
            W.P.holds('true iff present with this type (=>)', s1.pc + [b], h)
            W.P.holds('true iff present with this type (<=)', s1.pc + [h], b)
            got = W.read(s1, r, T)
            if feasible(s1.pc + [h]):
                pay_eq(W, 'value', s1.pc + [h], got, v, T)
            if feasible(s1.pc + [bnot(h)]):
                if T == 'double':
                    W.P.eq('left alone', s1.pc + [bnot(h)], got, rvar('out'))
                else:
                    W.P.fact('left alone', got == W.value(T, 'out')[2], repr(got))
    return body


def tasks(ctx):
    t = []
    add = lambda rx, label, body, tu=None: t.append(task(ctx, rx, label, body, tu))
    add(r'Config::Config\(\)', 'Config::Config()', b_ctor, 'config')
    add(r'Config::Config\(Config const&\)', 'Config::Config(Config const&)', b_copy, 'config')
    for mode in ('none', 'outer', 'self'):
        add(r'Config::operator=\(Config const&\)', 'Config::operator= (%s)' % mode, lambda W, imp, mode=mode: b_assign(W, imp, mode), 'config')
    add(r'Config::_cow\(\)', 'Config::_cow', b_cow, 'config')
    add(r'Config::tryGetAny\(.*\) const', 'Config::tryGetAny', b_tryany, 'config')
    add(r'Config::getAny\(.*\) const', 'Config::getAny', b_getany, 'config')
    add(r'Config::setAny\(.*\)', 'Config::setAny', b_setany, 'config')
    add(r'Config::swapAny\(.*\)', 'Config::swapAny', b_swapany, 'config')
    add(r'Config::new_scope\(\) const', 'Config::new_scope', b_newscope, 'config')
    add(r'Config::push_scope\(\)', 'Config::push_scope', b_push, 'config')
    add(r'Config::flatten\(\)', 'Config::flatten', b_flat, 'config')
    add(r'Config::swap\(Config&\)', 'Config::swap', b_swapc, 'inst')
    for T, rx in TY.items():
        add(r'.*Config::get<%s\s*>\(%s const&\) const' % (rx, S_), 'Config::get<%s>' % T, b_get(T), 'inst')
        add(r'.*Config::get<%s\s*>\(%s const&, .*\) const' % (rx, S_), 'Config::get<%s> with default' % T, b_getdef(T), 'inst')
        add(r'.*Config::tryGet<%s\s*>\(.*\) const' % rx, 'Config::tryGet<%s>' % T, b_try(T), 'inst')
        add(r'void Config::set<%s\s*>\(.*\)' % rx, 'Config::set<%s>' % T, b_set(T), 'inst')
        if T != 'double':
            add(r'void Config::swap<%s\s*>\(.*\)' % rx, 'Config::swap<%s>' % T, b_swap(T), 'inst')
    return t
