"""Bounded run-time contract checks of Config: scopes, typed lookup, isolation of copies."""
import ctypes as C
import native as N
from native import Fail, q

NAMES = ['a', 'b', 'L', 'name', 'K', '']
DEF = -12345.0


class R:
    """reference: two scopes"""

    def __init__(self, inner=None, outer=None):
        self.i, self.o = dict(inner or {}), None if outer is None else dict(outer)

    def view(self):
        d = dict(self.o or {})
        d.update(self.i)
        return d

    def copy(self):
        return R(self.i, self.o)


def rval(g, pool):
    k = g.random()
    if k < 0.4:
        return float(g.randrange(-5, 6))
    if k < 0.65:
        return g.choice(('', 'x', 'yy', '1.5'))
    if k < 0.85 or not pool:
        return [float(g.randrange(9)) for _ in range(g.randrange(0, 4))]
    return ('cv', [g.choice(pool) for _ in range(g.randrange(1, 3))])


def kind(v):
    return 1 if isinstance(v, float) else 3 if isinstance(v, str) else 2 if isinstance(v, list) else 4


def compare(L, c, r, what, inp, depth=0):
    l = L.l
    w = r.view()
    for k in NAMES + ['zz']:
        b = q(k)
        v = w.get(k)
        h = l.fl_conf_has(c.p, b)
        if h != (0 if v is None else kind(v)):
            raise Fail('%s: parameter %r has kind %d, contract %d' % (what, k, h, 0 if v is None else kind(v)), inp)
        x, d = C.c_double(77.0), isinstance(v, float)
        rc = l.fl_conf_getd(c.p, b, C.byref(x))
        if (rc == 0) != d or (d and x.value != v):
            raise Fail('%s: get<double>(%r) %s %r, contract %r' % (what, k, 'gives' if rc == 0 else 'fails', x.value, v), inp)
        x = C.c_double(77.0)
        if l.fl_conf_getd_def(c.p, b, DEF, C.byref(x)) or x.value != (v if d else DEF):
            raise Fail('%s: get<double>(%r, default) gives %r, contract %r' % (what, k, x.value, v if d else DEF), inp)
        x = C.c_double(77.0)
        rc = l.fl_conf_trygetd(c.p, b, C.byref(x))
        if (rc == 1) != d or x.value != (v if d else 77.0):
            raise Fail('%s: tryGet<double>(%r) gives %d %r, contract %r' % (what, k, rc, x.value, v), inp)
        s = l.fl_conf_gets(c.p, b)
        if (s is not None) != isinstance(v, str) or (s is not None and s.decode() != v):
            raise Fail('%s: get<string>(%r) gives %r, contract %r' % (what, k, s, v), inp)
        s = l.fl_conf_gets_def(c.p, b, b'dflt')
        if s is None or s.decode() != (v if isinstance(v, str) else 'dflt'):
            raise Fail('%s: get<string>(%r, default) gives %r, contract %r' % (what, k, s, v), inp)
        a = (C.c_double * 16)()
        n = l.fl_conf_getv(c.p, b, a, 16)
        if (n >= 0) != isinstance(v, list) or (n >= 0 and list(a[:n]) != v):
            raise Fail('%s: get<vector>(%r) gives %r, contract %r' % (what, k, list(a[:max(n, 0)]) if n >= 0 else None, v), inp)
        n = l.fl_conf_getcv_n(c.p, b)
        if (n >= 0) != isinstance(v, tuple) or (n >= 0 and n != len(v[1])):
            raise Fail('%s: get<vector of Config>(%r) has %d entries, contract %r' % (what, k, n, v), inp)
        if n >= 0 and depth < 3:
            for i, sub in enumerate(v[1]):
                compare(L, N.Conf(L, l.fl_conf_getcv(c.p, b, i)), sub, '%s: entry %d of %r' % (what, i, k), inp, depth + 1)
    ks = l.fl_conf_keys(c.p)
    got = ks.decode().split('\n')[:-1]
    if got != sorted(r.i):
        raise Fail('%s: parameters of the inner scope %s, contract %s' % (what, got, sorted(r.i)), inp)


def show(v):
    return ['config vector', len(v[1])] if isinstance(v, tuple) else v


def c_config(L, g, it):
    l = L.l
    pool = [(N.Conf(L), R())]
    ops = []
    inp = {'operations': ops}
    for _ in range(g.choice((4, 8, 14))):
        j = g.randrange(len(pool))
        c, r = pool[j]
        op = g.choice(('set', 'set', 'set', 'set', 'copy', 'copy', 'assign', 'scope', 'scope', 'push', 'flatten', 'swap', 'selfassign'))
        k = g.choice(NAMES)
        ops.append([op, j])
        if op == 'set':
            v = rval(g, [p[1] for p in pool if len(ops) < 30])
            ops[-1] += [k, show(v)]
            N.note(inp)
            if isinstance(v, tuple):
                ids = [next(x for x, p in enumerate(pool) if p[1] is sub) for sub in v[1]]
                c[k] = [pool[x][0] for x in ids]
                r.i[k] = ('cv', [sub.copy() for sub in v[1]])
            elif isinstance(v, list):
                (l.fl_conf_setv if g.random() < 0.6 else l.fl_conf_swapv)(c.p, q(k), N.darr(v), len(v))
                r.i[k] = v
            elif isinstance(v, str) and g.random() < 0.4:
                l.fl_conf_swaps(c.p, q(k), q(v))
                r.i[k] = v
            else:
                c[k] = v
                r.i[k] = v
        elif op == 'copy' and len(pool) < 6:
            pool.append((N.Conf(L, l.fl_conf_copy(c.p)), r.copy()))
        elif op == 'scope' and len(pool) < 6:
            pool.append((N.Conf(L, l.fl_conf_scope(c.p)), R({}, r.view())))
        elif op in ('assign', 'selfassign'):
            t = j if op == 'selfassign' else g.randrange(len(pool))
            ops[-1].append(t)
            N.note(inp)
            if l.fl_conf_assign(c.p, pool[t][0].p):
                raise N.FlameError(L.err())
            w = pool[t][1].copy()
            r.i, r.o = w.i, w.o
        elif op == 'push':
            N.note(inp)
            l.fl_conf_pushscope(c.p)
            r.i, r.o = {}, r.view()
        elif op == 'flatten':
            N.note(inp)
            l.fl_conf_flatten(c.p)
            r.i, r.o = r.view(), None
        elif op == 'swap':
            t = g.randrange(len(pool))
            ops[-1].append(t)
            N.note(inp)
            l.fl_conf_swap(c.p, pool[t][0].p)
            a = pool[t][1]
            r.i, r.o, a.i, a.o = a.i, a.o, r.i, r.o
        for n, (c2, r2) in enumerate(pool):
            compare(L, c2, r2, 'Config %d after %r' % (n, ops[-1]), inp)


CHECKS = {'config': c_config}
