"""Lattice language: the semantic actions behind the grammar.

Values are those of expr_t: a number, a vector, a text, a list of element names (beamline) or a nested Config."""
from verify import *
import gmap as G
import seq as S
from s_base import run_to
from loopcut import Cut, RCut

TUS = ['glps_ops', 'glps_parser', 'config', 'util', 'inst']
NUM, VEC, STRT, CONF, VAR, LINE, ELEM = range(7)
INVALID = -1


class W:
    """world of one proof: executor with the contracts of the library and of the error report"""

    def __init__(self, ctx, rec, label, f, tu):
        self.ctx, self.rec, self.f, self.tu = ctx, rec, f, tu
        self.P = Prover(rec, label)
        c = G.contracts(ctx)
        c.update(S.contracts(ctx, self.P))
        self.ex = ctx.executor(c)
        self.st = State()
        self.ex.track_finite = True
        self.ex.contracts['glps_error'] = self.h_error
        rec.functions.append(f)
        L = ctx.lay
        self.eo = {k: L.off('expr_t', k, tu) for k in ('etype', 'value')}
        self.co = {k: L.off('parse_context', k, tu) for k in ('vars', 'elements', 'line', 'var_idx', 'element_idx', 'line_idx', 'operations', 'last_error', 'scanner', 'printer')}

    def h_error(self, ex, st, a, n):
        st.trace.append(('error',))

    def mod(self):
        return self.ctx.prog.mods[self.tu]

    def ctxt(self):
        r = self.ex.alloc(self.st, 'ctxt', base='sym', size=self.ctx.lay.get('parse_context', self.tu)[0])
        self.cp = Ptr(r.id, I0)
        return self.cp

    def expr(self, name, etype=None, val=None):
        """an expr_t; without a value: arbitrary"""
        r = self.ex.alloc(self.st, name, base='sym' if val is None else None, size=self.ctx.lay.get('expr_t', self.tu)[0]) if val is None else \
            self.ex.alloc(self.st, name, size=self.ctx.lay.get('expr_t', self.tu)[0])
        p = Ptr(r.id, I0)
        if etype is not None:
            self.ex.store(self.st, CT.at(p, self.eo['etype']), ic(etype) if isinstance(etype, int) else etype, ('i', 32))
        if val is not None:
            G.vset(self.ex, self.st, CT.at(p, self.eo['value']), val)
        return p

    def args(self, ps):
        r = self.ex.alloc(self.st, 'args', size=8 * max(1, len(ps)))
        for k, p in enumerate(ps):
            self.ex.store(self.st, Ptr(r.id, ic(8 * k)), p, PTR)
        return Ptr(r.id, I0)

    def result(self):
        r = self.ex.alloc(self.st, 'R', size=40)
        p = Ptr(r.id, I0)
        G.vset(self.ex, self.st, p, ('vt', 'double', R0))
        return p

    def val(self, st, p):
        return G.vget(self.ex, st, p)

    def etype(self, st, p):
        return self.ex.load(st, CT.at(p, self.eo['etype']), ('i', 32))

    def evalue(self, st, p):
        return G.vget(self.ex, st, CT.at(p, self.eo['value']))

    def finish(self):
        self.rec.functions.extend(g for g in self.ex.stats['functions'] if not build.is_library(g))


def seqof(v):
    """sequence value of a variant of type line"""
    if v[0] != 'vt' or v[1] != 'strlist':
        return None
    x = v[2]
    if x[0] == 'seq':
        return S.norm(x[1])
    return None


def line(name):
    return ('vt', 'strlist', ('seq', (('s', name, False),)))


def okvalue(w, s, v):
    """a list value left by the code, completed where it was filled in parts"""
    if v[0] == 'vt' and v[1] == 'strlist' and v[2][0] in ('seq', 'part'):
        return S.norm(S.done(s, v[2]))
    return None


def op_task(ctx, nm, spec, nargs):
    label = 'operation %s' % nm

    def run(rec):
        f = ctx.find(r'\(anonymous namespace\)::%s\(.*' % nm, 'glps_ops')
        w = W(ctx, rec, label, f, 'glps_ops')
        P, ex, st = w.P, w.ex, w.st
        c = w.ctxt()
        xs = [rvar('x%d' % k) for k in range(nargs)]
        a = w.args([w.expr('A%d' % k, NUM, ('vt', 'double', x)) for k, x in enumerate(xs)])
        r = w.result()
        s0 = st.clone()
        n = 0
        want = spec(*xs)
        for o in ex.call(st, f, [c, r, a], w.mod()):
            s = o.state
            if not feasible(s.pc):
                continue
            n += 1
            P.fact('returns', o.kind == 'ret', o.kind)
            fin = ctx_finite(want) if nm == 'binary_div' else TRUE
            if entails(s.pc, ieq(o.value, I0)):
                P.holds('success only for a finite result', s.pc, fin)
                v = w.val(s, r)
                P.fact('result is a number', v[0] == 'vt' and v[1] == 'double', repr(v)[:200])
                P.eq('value', s.pc, v[2], want)
                frame_unchanged(P, 'parser state unchanged', ex, s0, s, c.r)
            else:
                P.holds('failure is reported by a non-zero result', s.pc, bnot(ieq(o.value, I0)))
                P.holds('failure only where the result is not finite', s.pc, bnot(fin))
                e = LIB.strval(s, CT.at(c, w.co['last_error']))
                P.fact('failure sets the error text', e[0] == 'lit' and e[1] != '', repr(e))
        P.fact('reachable', n >= (2 if nm == 'binary_div' else 1), str(n))
        w.finish()
    return Task(label, run)


def ctx_finite(t):
    return pred('finite', fn('fabs', t))


OPS = [('unary_negate', lambda x: -x, 1), ('unary_sin', lambda x: fn('sin', x), 1), ('unary_cos', lambda x: fn('cos', x), 1), ('unary_tan', lambda x: fn('tan', x), 1),
       ('unary_asin', lambda x: fn('asin', x), 1), ('unary_acos', lambda x: fn('acos', x), 1), ('unary_atan', lambda x: fn('atan', x), 1),
       ('unary_deg2rad', lambda x: x * (R(math.pi) / 180.0), 1), ('unary_rad2deg', lambda x: x * (R(180.0) / R(math.pi)), 1),
       ('binary_add', lambda x, y: x + y, 2), ('binary_sub', lambda x, y: x - y, 2), ('binary_mult', lambda x, y: x * y, 2), ('binary_div', lambda x, y: x / y, 2)]


def negate_task(ctx):
    label = 'operation unary_bl_negate'

    def run(rec):
        f = ctx.find(r'\(anonymous namespace\)::unary_bl_negate\(.*', 'glps_ops')
        w = W(ctx, rec, label, f, 'glps_ops')
        P, ex, st = w.P, w.ex, w.st
        c = w.ctxt()
        a = w.args([w.expr('A0', LINE, line('x'))])
        r = w.result()
        s0 = st.clone()
        n = 0
        for o in ex.call(st, f, [c, r, a], w.mod()):
            s = o.state
            if not feasible(s.pc):
                continue
            n += 1
            P.fact('returns', o.kind == 'ret', o.kind)
            P.holds('success', s.pc, ieq(o.value, I0))
            v = okvalue(w, s, w.val(s, r))
            P.fact('the beamline in reverse order', v == (('s', 'x', True),), repr(v))
            frame_unchanged(P, 'parser state unchanged', ex, s0, s, c.r)
        P.fact('reachable', n > 0)
        w.finish()
    return Task(label, run)


def mult_task(ctx, m, l):
    label = 'operation binary_bl_mult<%d, %d>' % (m, l)

    def run(rec):
        f = ctx.find(r'.*\(anonymous namespace\)::binary_bl_mult<%d, %d>\(.*' % (m, l), 'glps_ops')
        w = W(ctx, rec, label, f, 'glps_ops')
        P, ex, st = w.P, w.ex, w.st
        c = w.ctxt()
        x = rvar('factor')
        es = [None, None]
        es[m] = w.expr('M', NUM, ('vt', 'double', x))
        es[l] = w.expr('Ln', LINE, line('x'))
        n = ivar('len.x')
        ex.nonneg = ex.nonneg | {'len.x', 'k'}
        st.assume(ile(I0, n))
        st.assume(ile(n, ic(2 ** 31)))
        a = w.args(es)
        r = w.result()
        s0 = st.clone()
        fn_ = ctx.prog.find(f, w.mod())
        hs = [h for h in fn_.loops if not any(h in b and h != g for g, b in fn_.loops.items())]
        if len(hs) != 1:
            raise Unknown("loop over the repetitions not found")
        h = hs[0]
        base = len(st.frames)
        ex.push(st, fn_, [c, r, a])
        t = f2i_of(x)
        st.assume(ile(I0, t))           # meaning of the conversion on its domain
        st.assume(ile(t, ic(4294967295)))
        inr = band(rle(R0, x), rle(x, R(4294967295.0)))
        seen = set()
        unit = (('s', 'x', False),)

        def final(o, times):
            s = o.state
            P.fact('returns', kd(o) == 'ret', kd(o))
            if kd(o) != 'ret':
                return
            if entails(s.pc, ieq(o.value, I0)):
                seen.add('ok')
                P.holds('success only within the range', s.pc, inr)
                v = okvalue(w, s, w.val(s, r))
                if v is None:
                    P.fact('result is a beamline', False, repr(w.val(s, r))[:200])
                    return
                t = times
                P.fact('the beamline repeated', v == S.norm(S.rep(unit, t)) or v == () and entails(s.pc, ieq(t, I0)), '%r, %s times' % (v, t))
                frame_unchanged(P, 'parser state unchanged', ex, s0, s, c.r)
            else:
                seen.add('error')
                P.holds('failure only outside the range', s.pc, bnot(inr))
                e = LIB.strval(s, CT.at(c, w.co['last_error']))
                P.fact('failure sets the error text', e[0] == 'lit' and e[1] != '', repr(e))
        for o in run_to(ex, st, base, {h}):
            s1 = o.state
            if not feasible(s1.pc):
                continue
            if kd(o) != 'back':
                final(o, t)
                continue
            cu = RCutG(ex, s1, base, fn_, h)
            k = ivar('k')
            s = cu.at(k)
            s.assume(ile(I0, k))
            # invariant: k copies written
            vp = cu.part(s1)
            tot = S.sget(s1, vp)[1]
            P.holds('room for every copy', s1.pc, ieq(tot, imul(n, t)))
            s.assume(ile(k, t))
            G.gset(s, vp, ('opaque', ('part', tot, S.rep(unit, k))))
            for o2 in cu.run(s):
                s2 = o2.state
                if not feasible(s2.pc):
                    continue
                seen.add(kd(o2))
                if kd(o2) == 'back':
                    P.holds('not more copies than asked for', s2.pc, ilt(k, t))
                    g = S.sget(s2, vp)
                    P.fact('one more copy', S.norm(g[2] if g[0] == 'part' else g[1]) == S.norm(S.rep(unit, iadd(k, I1))) or S.norm(g[2]) == S.norm(S.rep(unit, k) + unit), repr(g))
                else:
                    s2.frames[-1].loops = {}
                    s2.assume(ieq(k, t)) if entails(s2.pc, ieq(k, t)) else P.holds('all copies made', s2.pc, ieq(k, t))
                    for o3 in (ex.run([s2], base) if kd(o2) == 'exit' else [o2]):
                        if feasible(o3.state.pc):
                            final(o3, k)
        P.fact('outcomes reachable', {'ok', 'error', 'back'} <= seen, repr(seen))
        w.finish()
    return Task(label, run)


def kd(o):
    return o.info[0] if o.kind == 'stop' else o.kind


def f2i_of(x):
    return iatom('f2i', x)


class RCutG(Cut):
    def part(self, s):
        ps = [Ptr(rid, ic(k[1])) for rid, reg in s.mem.items() for k, v in reg.cells.items()
              if isinstance(k, tuple) and k[0] == 'g' and v[0] == 'opaque' and v[1][0] == 'part']
        if len(ps) != 1:
            raise Unknown("list under construction not found")
        return ps[0]


def tasks(ctx):
    return [op_task(ctx, *x) for x in OPS] + [negate_task(ctx), mult_task(ctx, 0, 1), mult_task(ctx, 1, 0)]
