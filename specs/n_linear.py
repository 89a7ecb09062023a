"""Bounded run-time contract checks of the Vector and TransferMatrix simulations, of traversal, lookup and reconfiguration."""
import math, ctypes as C
import native as N
from native import Fail, close, matclose
from n_moment import rnd, rand_source, rand_elem, TYPES
import n_state as NS
from n_state import full, same, BIG

LT = ['marker', 'drift', 'sbend', 'quadrupole', 'solenoid', 'generic']


def lin_elem(g, i, t=None):
    t = t or g.choice(LT)
    e = {'name': 'e%d' % i, 'type': t}
    if t != 'generic' or g.random() < 0.5:
        if g.random() < 0.85 or t == 'sbend':
            e['L'] = rnd(g, 0.05, 2)
    if t in ('quadrupole', 'solenoid', 'sbend') and g.random() < 0.85:
        e['K'] = g.choice((rnd(g, -4, 4), rnd(g, -4, 4), 0.0, rnd(g, -1e-6, 1e-6)))
    if t == 'sbend':
        e['phi'] = rnd(g, 0.05, 1.2) * g.choice((-1, 1))
        if g.random() < 0.15:
            e['K'] = -(e['phi'] / e['L']) ** 2 * g.choice((0.5, 1.5, 3.0))
    if t == 'generic':
        n = g.choice((36, 36, 36, 0, 6, 13))
        e['transfer'] = [rnd(g, -1.5, 1.5) for _ in range(n)]
    return e


def q2(L, K):
    if K > 0:
        k = math.sqrt(K)
        return [[math.cos(k * L), math.sin(k * L) / k], [-k * math.sin(k * L), math.cos(k * L)]]
    if K == 0:
        return [[1.0, L], [0.0, 1.0]]
    k = math.sqrt(-K)
    return [[math.cosh(k * L), math.sinh(k * L) / k], [k * math.sinh(k * L), math.cosh(k * L)]]


def lin_T(e):
    M = [[float(i == j) for j in range(6)] for i in range(6)]
    L = e.get('L', 0.0) * 1e3
    t = e['type']

    def put(i, B):
        for a in range(2):
            for b in range(2):
                M[i + a][i + b] = B[a][b]
    if t == 'drift':
        M[0][1] = M[2][3] = L
    elif t == 'quadrupole':
        K = e.get('K', 0.0) / 1e6
        put(0, q2(L, K))
        put(2, q2(L, -K))
    elif t == 'sbend':
        K = e.get('K', 0.0) / 1e6
        rho = L / e['phi']
        put(0, q2(L, K + 1 / rho ** 2))
        put(2, q2(L, -K))
    elif t == 'solenoid':
        K = e.get('K', 0.0) / 1e3
        c, s = math.cos(K * L), math.sin(K * L)
        a, b = (s * c / K, s * s / K) if K else (L, 0.0)
        B = [[c * c, a, s * c, b], [-K * s * c, c * c, -K * s * s, s * c], [-s * c, -b, c * c, a], [K * s * s, -s * c, -K * s * c, c * c]]
        for i in range(4):
            for j in range(4):
                M[i][j] = B[i][j]
    elif t == 'generic':
        for k, v in enumerate(e['transfer']):
            M[k // 6][k % 6] = v
    return M


def mm6(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(6)) for j in range(len(B[0]))] for i in range(6)]


def get(s, typ):
    v = s['state']
    return [[float(x)] for x in v] if typ == 'Vector' else [[float(x) for x in r] for r in v]


def c_linear(L, g, it):
    typ = ('Vector', 'TransferMatrix')[it % 2]
    k = 1 if typ == 'Vector' else 6
    n = 6 * k
    es = [lin_elem(g, i + 1, LT[(it // 2) % len(LT)] if i == 0 else None) for i in range(g.choice((1, 2, 4)))]
    src = {'name': 's', 'type': 'source'}
    ni = g.choice((n, n, n, 0, None, g.randrange(0, n + 1)))
    if ni is not None:
        src['initial'] = [rnd(g, -2, 2) for _ in range(ni)]
    bad = None
    b = g.random()
    if b < 0.04:
        bad, src['initial'] = "'initial' too long", [1.0] * (n + 1)
    elif b < 0.08:
        bad = "'transfer' too long"
        es[0] = {'name': 'x', 'type': 'generic', 'transfer': [0.5] * 37}
    elif b < 0.12:
        bad = "required parameter missing"
        es[0] = g.choice(({'name': 'x', 'type': 'generic'}, {'name': 'x', 'type': 'sbend', 'L': 1.0}))
    inp = {'sim_type': typ, 'lattice': [src] + es}
    N.note(inp)
    try:
        m = N.Machine(L, N.lattice(L, typ, [src] + es))
    except N.FlameError as x:
        if bad:
            return
        raise Fail('rejected: %s' % x, inp)
    if bad:
        raise Fail('accepted although %s' % bad, inp)
    s = m.state()
    if g.random() < 0.5:
        s['state'][...] = 3.0
        s['pos'][...] = 7.0
    m.propagate(s, 0, 1)
    flat = [0.0] * 6 if k == 1 else [float(i % 7 == 0) for i in range(36)]
    for i, v in enumerate(src.get('initial', [])):
        flat[i] = v
    S = [flat[k * i:k * i + k] for i in range(6)]
    pos = 0.0
    if get(s, typ) != S or float(s['pos']) != 0.0:
        raise Fail('state after the source %s at %r, contract %s' % (get(s, typ), float(s['pos']), S), inp)
    for i, e in enumerate(es):
        S = mm6(lin_T(e), get(s, typ))
        pos = float(s['pos']) + e.get('L', 0.0)
        m.propagate(s, i + 1, 1)
        matclose(get(s, typ), S, 1e-8, 'after element %d (%s)' % (i + 1, e['type']), inp)
        if not close(float(s['pos']), pos, 1e-12, 1e-9):
            raise Fail('position after element %d is %r, contract %r' % (i + 1, float(s['pos']), pos), inp)
    # same lattice again from the source: same result
    A = full(s, False)
    s2 = m.state()
    m.propagate(s2)
    same(full(s2, False), A, 'second propagation', inp)


def any_lattice(L, g, it, nel=None, dup=True):
    typ = ('MomentMatrix', 'Vector', 'TransferMatrix')[it % 3]
    nel = nel if nel is not None else g.choice((0, 1, 2, 3, 5, 8))
    if typ == 'MomentMatrix':
        es = [rand_source(g)] + [rand_elem(g, i + 1) for i in range(nel)]
    else:
        es = [{'name': 's', 'type': 'source', 'initial': [rnd(g, -2, 2) for _ in range(6 if typ == 'Vector' else 36)]}] + \
             [lin_elem(g, i + 1) for i in range(nel)]
    if dup:
        names = ['a', 'b', 'ab', 'A', 'a1', 'aa']
        for e in es:
            e['name'] = g.choice(names)
    return typ, es


def c_traverse(L, g, it):
    """elements visited, their order, stop position, observers"""
    typ, es = any_lattice(L, g, it)
    if typ == 'MomentMatrix':
        # elements which keep the energies, safe in both directions
        es = es[:1] + [{'name': 'x', 'type': g.choice(('drift', 'marker', 'bpm')), 'L': rnd(g, 0.1, 1)} for _ in es[1:]]
    n = len(es)
    inp = {'sim_type': typ, 'lattice': es}
    N.note(inp)
    m = N.Machine(L, N.lattice(L, typ, es))
    s = m.state()
    m.propagate(s, 0, 1)
    obs = [g.random() < 0.7 for _ in range(n)]
    for i, o in enumerate(obs):
        if o:
            L.l.fl_elem_observe(m.p, i, 1)
        if bool(L.l.fl_elem_observe(m.p, i, 0)) != o:
            raise Fail('observer of element %d: %r' % (i, not o), inp)
    steps = inp['steps'] = []
    for _ in range(4):
        start = g.choice((0, 0, n - 1, n, n + 1, g.randrange(0, n), 2 ** 63, 2 ** 64 - 1))
        mx = g.choice((BIG, 0, 1, 2, 3, n, n + 3))
        if typ == 'MomentMatrix' and g.random() < 0.45:
            mx = -mx
        steps.append((start, mx))
        N.note(inp)
        L.l.fl_seen_clear()
        L.l.fl_state_setnext(s.p, g.randrange(0, 9))
        tr = g.random() < 0.3
        tx = None
        if tr:
            r = L.l.fl_trace(m.p, s.p, start, mx)
            if r is None:
                raise N.FlameError(L.err())
            tx = r.decode('latin1')
        else:
            m.propagate(s, start, mx)
        # contract
        seq = []
        at, left = start, abs(mx)
        while at < n and left:
            seq.append(at)
            at = (at + (1 if mx >= 0 else -1)) % 2 ** 64
            left -= 1
        want = [i for i in seq if obs[i]]
        a, b, c = (C.c_long * 64)(), (C.c_long * 64)(), (C.c_double * 64)()
        k = L.l.fl_seen(a, b, c, 64)
        if list(a[:k]) != want:
            raise Fail('propagate(start=%d, max=%d) over %d elements: observed %s, contract %s' % (start, mx, n, list(a[:k]), want), inp)
        d = 1 if mx >= 0 else -1
        nx = [b[i] % 2 ** 64 for i in range(k)]
        if nx != [(i + d) % 2 ** 64 for i in want]:
            raise Fail('propagate(start=%d, max=%d): next element seen by the observers %s' % (start, mx, nx), inp)
        if L.l.fl_state_next(s.p) != at:
            raise Fail('propagate(start=%d, max=%d) over %d elements leaves next_elem=%d, contract %d' % (start, mx, n, L.l.fl_state_next(s.p), at), inp)
        if bool(L.l.fl_state_retreat(s.p, -1)) != (mx < 0):
            raise Fail('propagate(max=%d) leaves direction %d' % (mx, L.l.fl_state_retreat(s.p, -1)), inp)
        if tx is not None:
            got = [l.split()[1] for l in tx.split('\n') if l.startswith('After')]
            if got != ['[%d]' % i for i in seq]:
                raise Fail('trace of propagate(start=%d, max=%d): %s, contract %s' % (start, mx, got, seq), inp)


def c_split(L, g, it):
    """a run in pieces equals the run in one go"""
    typ, es = any_lattice(L, g, it, g.choice((2, 3, 5, 6)), False)
    n = len(es)
    inp = {'sim_type': typ, 'lattice': es}
    N.note(inp)
    m = N.Machine(L, N.lattice(L, typ, es))
    a, b = m.state(), m.state()
    m.propagate(a)
    cuts = sorted(g.sample(range(1, n), g.choice((1, 1, 2)) if n > 2 else 1))
    inp['cuts'] = cuts
    at = 0
    for c in cuts + [n]:
        if g.random() < 0.3:
            # a copy carries on
            b2 = b.clone()
            b = b2
        m.propagate(b, at, c - at)
        if L.l.fl_state_next(b.p) != c:
            raise Fail('propagate(%d, %d) stops before element %d' % (at, c - at, L.l.fl_state_next(b.p)), inp)
        at = c
    mom = typ == 'MomentMatrix'
    same(full(b, mom), full(a, mom), 'propagation in pieces %s' % cuts, inp)
    # element by element through the element interface
    c = m.state()
    for i in range(n):
        m.advance(c, i)
    same(full(c, mom), full(a, mom), 'element by element', inp)


def c_lookup(L, g, it):
    typ, es = any_lattice(L, g, it, g.choice((0, 1, 3, 6, 12)) if it % 15 else 150 if it % 45 else 480)
    n = len(es)
    if n > 300:
        for e in es[1:]:
            if g.random() < 0.8:
                e['name'] = 'a'
    inp = {'sim_type': typ, 'lattice': [(e['name'], e['type']) for e in es]}
    N.note(inp)
    m = N.Machine(L, N.lattice(L, typ, es))
    if len(m) != n:
        raise Fail('%d elements, contract %d' % (len(m), n), inp)
    if L.l.fl_machine_simtype(m.p).decode() != typ:
        raise Fail('simulation type %r' % L.l.fl_machine_simtype(m.p), inp)
    for i, e in enumerate(es):
        if L.l.fl_elem_name(m.p, i).decode() != e['name'] or L.l.fl_elem_type(m.p, i).decode() != e['type'] or L.l.fl_elem_index(m.p, i) != i:
            raise Fail('element %d is %r %r (index %d), contract %r %r' % (i, L.l.fl_elem_name(m.p, i), L.l.fl_elem_type(m.p, i), L.l.fl_elem_index(m.p, i), e['name'], e['type']), inp)
    out = (C.c_long * 512)()
    for nm in sorted({e['name'] for e in es} | {'', 'a', 'zz', 'ab', 'a ', 'b1'}):
        w = [i for i, e in enumerate(es) if e['name'] == nm]
        k = L.l.fl_range(m.p, nm.encode(), 0, out, 512)
        if list(out[:k]) != w:
            raise Fail('elements named %r: %s, contract %s' % (nm, list(out[:k]), w), inp)
        for j in range(len(w) + 2):
            r = L.l.fl_find(m.p, nm.encode(), j)
            if r != (w[j] if j < len(w) else -1):
                raise Fail('find(%r, %d) gives element %d, contract %s' % (nm, j, r, w), inp)
    for t in sorted({e['type'] for e in es} | {'drift', 'source', 'nosuch', 'quad', ''}):
        w = [i for i, e in enumerate(es) if e['type'] == t]
        k = L.l.fl_range(m.p, t.encode(), 1, out, 512)
        if list(out[:k]) != w:
            raise Fail('elements of type %r: %s, contract %s' % (t, list(out[:k]), w), inp)
    k = L.l.fl_range(m.p, b'', 2, out, 512)
    if sorted(out[:k]) != list(range(n)):
        raise Fail('all elements: %s' % list(out[:k]), inp)
    # errors name the culprit
    bad = [dict(e) for e in es]
    j = g.randrange(n)
    kind = g.choice(('type', 'sim', 'notype', 'noname'))
    c = None
    if kind == 'type':
        bad[j]['type'] = g.choice(('nosuch', 'Drift', 'generic' if typ == 'MomentMatrix' else 'stripper'))
    elif kind == 'notype':
        del bad[j]['type']
    elif kind == 'noname':
        del bad[j]['name']
    cf = N.lattice(L, 'nosim' if kind == 'sim' else typ, bad)
    p = L.l.fl_machine(cf.p)
    if p:
        L.l.fl_machine_free(p)
        raise Fail('machine accepted with %s' % (kind if kind == 'sim' else '%s of element %d: %s' % (kind, j, bad[j])), inp)


def mutate(g, e, typ):
    """another configuration of the same type"""
    if e['type'] == 'source':
        if typ == 'MomentMatrix':
            f = rand_source(g)
        else:
            n = 6 if typ == 'Vector' else 36
            f = {'type': 'source', 'initial': [rnd(g, -2, 2) for _ in range(n)]}
        return dict(f, name=e['name'])
    f = rand_elem(g, 1, e['type']) if typ == 'MomentMatrix' else lin_elem(g, 1, e['type'])
    return dict(f, name=e['name'])


def mk(L, typ, es):
    return N.Machine(L, N.lattice(L, typ, es))


def econf(L, e):
    c = N.Conf(L)
    for k, v in e.items():
        c[k] = v
    return c


def c_reconf(L, g, it):
    """reconfigure an element = build the machine with that element"""
    typ, es = any_lattice(L, g, it, g.choice((1, 2, 3, 4)), False)
    if typ == 'MomentMatrix' and it % 2:
        es[1] = rand_elem(g, 1, TYPES[(it // 6) % len(TYPES)])
    n = len(es)
    mom = typ == 'MomentMatrix'
    inp = {'sim_type': typ, 'lattice': [dict(e) for e in es], 'changes': []}
    N.note(inp)
    m = mk(L, typ, es)
    s = m.state()
    if g.random() < 0.7:
        m.propagate(s)          # fills the caches
    obs = [g.random() < 0.3 for _ in es]
    for i, o in enumerate(obs):
        if o:
            L.l.fl_elem_observe(m.p, i, 1)
    for _ in range(g.choice((1, 2, 3))):
        j = g.randrange(n) if not (mom and it % 2 and g.random() < 0.7) else 1
        e = mutate(g, es[j], typ)
        if g.random() < 0.3 and es[j]['type'] != 'source':
            # the current configuration with one parameter changed, as documented
            e = dict(es[j])
            ks = [k for k, v in e.items() if isinstance(v, float) and k not in ('step', 'ncurve', 'HdipoleFitMode')]
            if ks:
                e[g.choice(ks)] *= 1 + rnd(g, -0.1, 0.1)
        if g.random() < 0.25:
            e['name'] = g.choice(('zz', 'a', es[0]['name'], es[-1]['name']))
        inp['changes'].append((j, e))
        N.note(inp)
        m.reconfigure(j, econf(L, e))
        old, es[j] = es[j], e
        out = (C.c_long * 64)()
        for nm in (old['name'], e['name']):
            w = [i for i, x in enumerate(es) if x['name'] == nm]
            k = L.l.fl_range(m.p, nm.encode(), 0, out, 64)
            if list(out[:k]) != w:
                raise Fail('elements named %r after reconfigure: %s, contract %s' % (nm, list(out[:k]), w), inp)
        if L.l.fl_elem_index(m.p, j) != j or L.l.fl_elem_name(m.p, j).decode() != e['name'] or L.l.fl_elem_type(m.p, j).decode() != e['type']:
            raise Fail('element %d after reconfigure: index %d name %r type %r' % (j, L.l.fl_elem_index(m.p, j), L.l.fl_elem_name(m.p, j), L.l.fl_elem_type(m.p, j)), inp)
        c = m.conf(j)
        for k, v in e.items():
            got = c.s(k) if isinstance(v, str) else c.v(k) if isinstance(v, list) else c.d(k)
            if got != v:
                raise Fail('configuration of element %d after reconfigure: %s = %r, contract %r' % (j, k, got, v), inp)
        F = mk(L, typ, es)
        if L.l.fl_elem_length(m.p, j) != L.l.fl_elem_length(F.p, j):
            raise Fail('length of element %d after reconfigure %r, contract %r' % (j, L.l.fl_elem_length(m.p, j), L.l.fl_elem_length(F.p, j)), inp)
        a, b = m.state(), F.state()
        L.l.fl_seen_clear()
        m.propagate(a)
        oa, ob, oc = (C.c_long * 64)(), (C.c_long * 64)(), (C.c_double * 64)()
        k = L.l.fl_seen(oa, ob, oc, 64)
        if list(oa[:k]) != [i for i in range(n) if obs[i]]:
            raise Fail('observed after reconfigure of element %d: %s, contract %s' % (j, list(oa[:k]), [i for i in range(n) if obs[i]]), inp)
        F.propagate(b)
        same(full(a, mom), full(b, mom), 'after reconfigure of element %d (%s)' % (j, e['type']), inp)
        if mom and g.random() < 0.5 and all(x['type'] not in ('sextupole',) for x in es):
            try:
                m.propagate(a, n - 1, -(n - 1))
                F.propagate(b, n - 1, -(n - 1))
            except N.FlameError:
                break
            same(full(a, mom), full(b, mom), 'backward after reconfigure of element %d (%s)' % (j, e['type']), inp)
    # rejected changes leave the machine as it is
    kind = g.choice(('index', 'type', 'unknown', 'missing'))
    j = g.randrange(n)
    e = dict(es[j])
    idx = j
    if kind == 'index':
        idx = n + g.choice((0, 1, 100))
    elif kind == 'type':
        e = {'name': e['name'], 'type': 'marker' if e['type'] != 'marker' else 'drift'}
    elif kind == 'unknown':
        e['type'] = 'nosuch'
    else:
        e = {'name': e['name'], 'type': 'sbend'} if es[j]['type'] == 'sbend' and typ != 'MomentMatrix' else dict(e, type='nosuch')
    cf = econf(L, e)
    inp['changes'].append((kind, idx, e))
    N.note(inp)
    if L.l.fl_reconfigure(m.p, idx, cf.p) == 0:
        raise Fail('reconfigure accepted: %s' % kind, inp)
    F = mk(L, typ, es)
    a, b = m.state(), F.state()
    m.propagate(a)
    F.propagate(b)
    same(full(a, mom), full(b, mom), 'after a rejected reconfigure (%s)' % kind, inp)


CHECKS = {'linear': c_linear, 'traverse': c_traverse, 'split': c_split, 'lookup': c_lookup, 'reconf': c_reconf}
