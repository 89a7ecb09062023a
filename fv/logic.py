"""Path-condition reasoning (z3) and numeric evaluation (mpmath) of terms."""
import time
import z3
import mpmath
from terms import *
import terms as TM

stats = {'z3_queries': 0, 'z3_time': 0.0, 'z3_unknown': 0}

_z = {}


def zb(t):
    r = _z.get(t)
    if r is None:
        r = _zb(t)
        _z[t] = r
    return r


def _zb(t):
    op, a = t.op, t.args
    if op == 'bc':
        return z3.BoolVal(a[0])
    if op == 'bv':
        return z3.Bool('b!' + str(a[0]))
    if op == 'not':
        return z3.Not(zb(a[0]))
    if op == 'and':
        return z3.And(*[zb(x) for x in a])
    if op == 'or':
        return z3.Or(*[zb(x) for x in a])
    if op == 'ile':
        return zi(a[0]) <= 0
    if op == 'ieq':
        return zi(a[0]) == 0
    if op in ('rlt', 'rle', 'req'):
        d = rsub(a[0], a[1])
        try:
            e = zpoly(reduce_poly(nf(d)))
        except Unknown:
            return z3.Bool('opq!%d' % t.id)
        return {'rlt': e < 0, 'rle': e <= 0, 'req': e == 0}[op]
    return z3.Bool('opq!%d' % t.id)


def zi(t):
    if t.op == 'lin':
        r = z3.IntVal(t.args[1])
        for x, k in t.args[0]:
            r = r + k * zi(x)
        return r
    r = _z.get(t)
    if r is None:
        op, a = t.op, t.args
        if op == 'iv':
            r = z3.Int('i!' + str(a[0]))
        elif op == 'iite':
            r = z3.If(zb(a[0]), zi(a[1]), zi(a[2]))
        elif op == 'imul':
            r = zi(a[0]) * zi(a[1])
        elif op == 'idiv':
            r = zi(a[0]) / a[1]
        elif op == 'imod':
            r = zi(a[0]) % a[1]
        else:
            r = z3.Int('iat!%d' % t.id)
        _z[t] = r
    return r


_za = {}
_facts = {}


def zatom(i):
    r = _za.get(i)
    if r is None:
        kind, name, p = AT.by[i]
        if kind == 'leaf' and p.op == 'i2r':
            r = z3.ToReal(zi(p.args[0]))
        elif kind == 'leaf' and p.op == 'rite':
            r = z3.If(zb(p.args[0]), zpoly(nf(p.args[1])), zpoly(nf(p.args[2])))
        else:
            r = z3.Real('r!%d' % i)
        _za[i] = r
    return r


def atom_facts(i):
    """valid facts about an atom"""
    f = _facts.get(i)
    if f is None:
        f = []
        kind, name, p = AT.by[i]
        x = zatom(i)
        if kind == 'fn':
            if name in ('sqrt', 'fabs'):
                f.append(x >= 0)
                if name == 'fabs':
                    e = zpoly(p[0])
                    f.append(z3.Or(z3.And(e >= 0, x == e), z3.And(e <= 0, x == -e)))
                else:
                    e = zpoly(p[0])
                    f.append(z3.Implies(e > 0, x > 0))
            elif name in ('sin', 'cos'):
                f += [x >= -1, x <= 1]
            elif name == 'cosh':
                f.append(x >= 1)
            elif name == 'exp':
                f.append(x > 0)
        _facts[i] = f
    return f


_cur_atoms = None


def zpoly(p):
    terms = []
    for m, (c, g) in p.d.items():
        if abs(c) <= RTOL * g:
            continue
        q = Fraction(c).limit_denominator(10 ** 15) if abs(c) > 1e-3 else Fraction(c)
        e = z3.RealVal(str(q))
        for a, k in m:
            x = zatom(a)
            if k < 0:
                x = z3.Real('inv!%d_%d' % (a, k))
                k = 1
            for _ in range(k):
                e = e * x
        terms.append(e)
    if not terms:
        return z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def real_atoms(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op in ('rlt', 'rle', 'req'):
        try:
            p = nf(rsub(t.args[0], t.args[1]))
        except Unknown:
            return
        for m in p.d:
            for a, _ in m:
                acc.add(a)
        # and through ite leaves
    for x in targs(t):
        if x.sort in ('B',) or x.op in ('rite', 'iite'):
            real_atoms(x, acc, seen)


_sat_cache = {}


def sat(conds, timeout=3000):
    """'sat' | 'unsat' | 'unknown'"""
    key = frozenset(c.id for c in conds if c is not TRUE)
    r = _sat_cache.get(key)
    if r is not None:
        return r
    for c in conds:
        if c is FALSE or bnot(c).id in key:
            _sat_cache[key] = 'unsat'
            return 'unsat'
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    acc = set()
    seen = set()
    for c in conds:
        s.add(zb(c))
        real_atoms(c, acc, seen)
    for a in acc:
        for f in atom_facts(a):
            s.add(f)
    inst_all(conds, s)
    r = str(s.check())
    stats['z3_queries'] += 1
    stats['z3_time'] += time.time() - t0
    if r == 'unknown':
        stats['z3_unknown'] += 1
    _sat_cache[key] = r
    return r


def inst_all(conds, s):
    """instantiate bounded-forall atoms appearing positively at index terms occurring in the other conditions"""
    alls = []

    def top(c):
        if c.op == 'all':
            alls.append(c)
        elif c.op == 'and':
            for x in c.args:
                top(x)
    for c in conds:
        top(c)
    if not alls:
        return
    idx = set()
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op in ('relem', 'ielem', 'belem'):
            idx.add(t.args[1])
        if t.op == 'all':
            return
        for x in targs(t):
            go(x)
    for c in conds:
        go(c)
    for a in alls:
        lo, hi, body = a.args
        b = ivar('$b%d' % sumdepth(a))
        for i in list(idx)[:12]:
            s.add(zb(bor(bnot(band(ile(lo, i), ilt(i, hi))), subst(body, {b: i}))))


def feasible(pc):
    return sat(pc) != 'unsat'


def entails(pc, c):
    if c is TRUE:
        return True
    if c is FALSE:
        return sat(pc) == 'unsat'
    return sat(list(pc) + [bnot(c)]) == 'unsat'


# ------------------------------------------------------------------ numeric evaluation (mpmath)
mp = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
mp.dps = 50


class Env:
    """numeric interpretation of the input symbols"""

    def __init__(self, seed=0, vals=None, ints=None, dom=None):
        self.seed = seed
        self.vals = vals or {}
        self.ints = ints or {}
        self.dom = dom or (lambda kind, key, u: (u * 4 - 2))
        self.memo = {}

    def real(self, name):
        v = self.vals.get(name)
        if v is None:
            v = mp.mpf(self.dom('rv', name, h01(self.seed, 'rv', name)))
            self.vals[name] = v
        return v

    def elem(self, fam, idx, off):
        k = (fam, idx, off)
        v = self.vals.get(k)
        if v is None:
            v = mp.mpf(self.dom('el', k, h01(self.seed, 'el', str(fam), idx, off)))
            self.vals[k] = v
        return v

    def int(self, name):
        v = self.ints.get(name)
        if v is None:
            v = 1 + int(3 * h01(self.seed, 'iv', name))
            self.ints[name] = v
        return v


class NumFail(Exception):
    pass


def ev(t, env, loc=()):
    """numeric value of t; loc: tuple of (boundvar, value)"""
    memo = env.memo
    key = (t, loc) if loc else t
    if key in memo:
        return memo[key]
    op, a = t.op, t.args
    if op == 'lin':
        r = a[1]
        for x, k in a[0]:
            r += k * ev(x, env, loc)
    elif op == 'rc':
        r = mp.mpf(a[0].numerator) / a[0].denominator
    elif op == 'rv':
        r = env.real(a[0])
    elif op == 'iv':
        r = None
        for n, v in loc:
            if n == a[0]:
                r = v
        if r is None:
            r = env.int(a[0])
    elif op == 'bv':
        r = env.ints.get(('b', a[0]))
        if r is None:
            r = h01(env.seed, 'bv', a[0]) > 0.5
            env.ints[('b', a[0])] = r
    elif op == 'bc':
        r = a[0]
    elif op == '+':
        r = ev(a[0], env, loc) + ev(a[1], env, loc)
    elif op == '-':
        r = ev(a[0], env, loc) - ev(a[1], env, loc)
    elif op == '*':
        r = ev(a[0], env, loc) * ev(a[1], env, loc)
    elif op == '/':
        d = ev(a[1], env, loc)
        if d == 0:
            raise NumFail("division by zero")
        r = ev(a[0], env, loc) / d
    elif op == 'neg':
        r = -ev(a[0], env, loc)
    elif op == 'fn':
        xs = [ev(x, env, loc) for x in a[1:]]
        r = numfn(a[0], xs, env)
    elif op in ('rite', 'iite'):
        r = ev(a[1], env, loc) if ev(a[0], env, loc) else ev(a[2], env, loc)
    elif op == 'relem':
        r = env.elem(a[0], ev(a[1], env, loc), a[2])
    elif op == 'i2r':
        r = mp.mpf(ev(a[0], env, loc))
    elif op == 'sum':
        lo, hi = ev(a[0], env, loc), ev(a[1], env, loc)
        b = '$b%d' % sumdepth(t)
        r = mp.mpf(0)
        if hi - lo > 50:
            raise NumFail("long sum")
        for i in range(lo, hi):
            r += ev(a[2], env, loc + ((b, i),))
    elif op == 'all':
        lo, hi = ev(a[0], env, loc), ev(a[1], env, loc)
        b = '$b%d' % sumdepth(t)
        r = all(ev(a[2], env, loc + ((b, i),)) for i in range(lo, min(hi, lo + 50)))
    elif op == 'ile':
        r = ev(a[0], env, loc) <= 0
    elif op == 'ieq':
        r = ev(a[0], env, loc) == 0
    elif op == 'rlt':
        r = ev(a[0], env, loc) < ev(a[1], env, loc)
    elif op == 'rle':
        r = ev(a[0], env, loc) <= ev(a[1], env, loc)
    elif op == 'req':
        x, y = ev(a[0], env, loc), ev(a[1], env, loc)
        r = abs(x - y) <= mp.mpf(10) ** -30 * (abs(x) + abs(y))
    elif op == 'not':
        r = not ev(a[0], env, loc)
    elif op == 'and':
        r = all(ev(x, env, loc) for x in a)
    elif op == 'or':
        r = any(ev(x, env, loc) for x in a)
    elif op == 'imul':
        r = ev(a[0], env, loc) * ev(a[1], env, loc)
    elif op == 'idiv':
        r = ev(a[0], env, loc) // a[1]
    elif op == 'imod':
        r = ev(a[0], env, loc) % a[1]
    elif op == 'ielem':
        k = ('ie', str(a[0]), ev(a[1], env, loc), a[2])
        r = env.ints.get(k)
        if r is None:
            r = 1 + int(3 * h01(env.seed, k))
            env.ints[k] = r
    elif op == 'f2i':
        r = int(ev(a[0], env, loc))
    elif op == 'rspecial':
        raise NumFail("special value")
    elif t.sort == 'B':
        k = ('bfn',) + tuple(ev(x, env, loc) if isinstance(x, T) else x for x in a)
        r = env.ints.get(k)
        if r is None:
            r = h01(env.seed, repr(k)) > 0.5
            env.ints[k] = r
    elif t.sort == 'I':
        k = ('ifn', op) + tuple(ev(x, env, loc) if isinstance(x, T) else x for x in a)
        r = env.ints.get(k)
        if r is None:
            r = 1 + int(3 * h01(env.seed, repr(k)))
            env.ints[k] = r
    else:
        raise NumFail(op)
    memo[key] = r
    return r


DEFS = {}       # defined matrix-valued functions: prefix -> spec function (entries are fn(prefix + 'ij', args))


def unfold(t):
    """replace defined functions by their definitions; None if there are none"""
    memo = {}
    mats = {}
    hit = [False]

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        r = rebuild(x, go) if targs(x) else x
        if r.op == 'fn' and r.args[0][-2:].isdigit() and r.args[0][:-2] in DEFS and DEFS[r.args[0][:-2]].__dict__.get('terms', True):
            k = (r.args[0][:-2],) + r.args[1:]
            if k not in mats:
                mats[k] = DEFS[k[0]](*r.args[1:])
            hit[0] = True
            r = mats[k][int(r.args[0][-2])][int(r.args[0][-1])]
            r = r if isinstance(r, T) else R(r)
        memo[x] = r
        return r
    y = go(t)
    return y if hit[0] else None


def numfn(name, xs, env):
    try:
        if name in ('sin', 'cos', 'sinh', 'cosh', 'exp', 'tan', 'atan'):
            return getattr(mp, name)(xs[0])
        if name == 'sqrt':
            if xs[0] < 0:
                raise NumFail("sqrt of negative")
            return mp.sqrt(xs[0])
        if name == 'log':
            if xs[0] <= 0:
                raise NumFail("log")
            return mp.log(xs[0])
        if name in ('asin', 'acos'):
            if abs(xs[0]) > 1:
                raise NumFail(name)
            return getattr(mp, name)(xs[0])
        if name == 'fabs':
            return abs(xs[0])
        if name == 'pow':
            if xs[0] <= 0:
                raise NumFail("pow")
            return mp.power(xs[0], xs[1])
        if name == 'floor':
            return mp.floor(xs[0])
        if name == 'ceil':
            return mp.ceil(xs[0])
        if name == 'atan2':
            return mp.atan2(xs[0], xs[1])
        if name == 'fmod':
            return xs[0] - mp.mpf(int(xs[0] / xs[1])) * xs[1]
        if name == 'round':
            return mp.sign(xs[0]) * mp.floor(abs(xs[0]) + mp.mpf(1) / 2)
    except (OverflowError, ValueError, ZeroDivisionError) as e:
        raise NumFail(str(e))
    d = DEFS.get(name[:-2]) if name[-2:].isdigit() else None
    if d is not None:
        k = ('def', name[:-2]) + tuple(xs)
        M = env.memo.get(k)
        if M is None:
            try:
                M = d(*xs)
            except (OverflowError, ValueError, ZeroDivisionError) as e:
                raise NumFail(str(e))
            env.memo[k] = M
        return mp.mpf(M[int(name[-2])][int(name[-1])])
    # uninterpreted function: pseudo-random but functional
    k = tuple(mp.nstr(x, 18) for x in xs)
    return mp.mpf(0.5 + h01(env.seed, 'uf', name, k))
