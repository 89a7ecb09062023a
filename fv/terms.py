"""Hash-consed terms (Int, Real, Bool) and the equational prover for real terms.

Real arithmetic is mathematical (doubles are treated as reals); equality of two real terms is decided by
normalisation to (Laurent) polynomials over atoms with the ring relations of sin/cos, sinh/cosh, sqrt, |.|,
after clearing denominators.  Numeric coefficients are floats with a tracked magnitude: two coefficients are
identified when they differ by less than RTOL of the magnitude of the numbers they were computed from (this
absorbs compile-time constant folding, nothing else).
"""
import math, cmath, hashlib, itertools
from fractions import Fraction

RTOL = 2e-11
DROP = 1e-14


class Unknown(Exception):
    """the verifier cannot decide (tool limit)"""


class T:
    __slots__ = ('op', 'args', 'sort', 'id', '_fv', '_nf', '_sd', '_fp', '_ites')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_cnt = itertools.count(1)


def mk(op, sort, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.sort = sort
        t.args = args
        t.id = next(_cnt)
        t._fv = t._nf = t._sd = t._fp = t._ites = None
        _tab[k] = t
    return t


# ------------------------------------------------------------------ Bool
TRUE = mk('bc', 'B', True)
FALSE = mk('bc', 'B', False)


def bvar(n):
    return mk('bv', 'B', n)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ile':      # not (x <= 0)  ->  1-x <= 0
        return ile0(isub(ic(1), a.args[0]))
    if a.op == 'rle':
        return rlt(a.args[1], a.args[0])
    if a.op == 'rlt':
        return rle(a.args[1], a.args[0])
    return mk('not', 'B', a)


def _flat(op, xs, unit, zero):
    s = []
    seen = set()
    for x in xs:
        if x is unit:
            continue
        if x is zero:
            return None
        if x.op == op:
            for y in x.args:
                if y.id not in seen:
                    seen.add(y.id)
                    s.append(y)
        elif x.id not in seen:
            seen.add(x.id)
            s.append(x)
    for x in s:
        if bnot(x).id in seen:
            return None
    return s


def band(*xs):
    s = _flat('and', xs, TRUE, FALSE)
    if s is None:
        return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk('and', 'B', *sorted(s))


def bor(*xs):
    s = _flat('or', xs, FALSE, TRUE)
    if s is None:
        return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk('or', 'B', *sorted(s))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def beq(a, b):
    if a is b:
        return TRUE
    return bor(band(a, b), band(bnot(a), bnot(b)))


def pred(name, *args):
    """uninterpreted predicate over hashable / T arguments"""
    return mk('bfn', 'B', name, *args)


# ------------------------------------------------------------------ Int (linear forms over atoms)
def ic(n):
    return mk('lin', 'I', (), int(n))


def iatom(op, *args):
    return mk('lin', 'I', ((mk(op, 'I', *args), 1),), 0)


def ivar(n):
    return iatom('iv', n)


def islin(t):
    return t.op == 'lin'


def icst(t):
    """constant value or None"""
    if t.op == 'lin' and not t.args[0]:
        return t.args[1]
    return None


def _lin(d, c):
    return mk('lin', 'I', tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)), c)


def iadd(a, b):
    d = dict(a.args[0])
    for x, k in b.args[0]:
        d[x] = d.get(x, 0) + k
    return _lin(d, a.args[1] + b.args[1])


def iscale(a, k):
    if k == 0:
        return ic(0)
    return mk('lin', 'I', tuple((x, c * k) for x, c in a.args[0]), a.args[1] * k)


def isub(a, b):
    return iadd(a, iscale(b, -1))


def imul(a, b):
    ca, cb = icst(a), icst(b)
    if ca is not None:
        return iscale(b, ca)
    if cb is not None:
        return iscale(a, cb)
    if len(a.args[0]) + (a.args[1] != 0) > 1 or len(b.args[0]) + (b.args[1] != 0) > 1 or a.args[0][0][1] != 1 or b.args[0][0][1] != 1:
        # distribute, so that equal products of sums have one form
        r = iadd(iscale(b, a.args[1]), iscale(mk('lin', 'I', a.args[0], 0), b.args[1]))
        for x, c in a.args[0]:
            for y, d in b.args[0]:
                r = iadd(r, iscale(imul(mk('lin', 'I', ((x, 1),), 0), mk('lin', 'I', ((y, 1),), 0)), c * d))
        return r
    if b < a:
        a, b = b, a
    return iatom('imul', a, b)


def idiv(a, k):
    """division by a positive constant; exact when all coefficients divisible"""
    if all(c % k == 0 for _, c in a.args[0]) and a.args[1] % k == 0:
        return mk('lin', 'I', tuple((x, c // k) for x, c in a.args[0]), a.args[1] // k)
    return iatom('idiv', a, k)


def iite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return iatom('iite', c, a, b)


def ile0(x):
    """x <= 0"""
    c = icst(x)
    if c is not None:
        return TRUE if c <= 0 else FALSE
    # gcd normalise
    g = 0
    for _, k in x.args[0]:
        g = math.gcd(g, k)
    if g > 1:
        x = mk('lin', 'I', tuple((a, k // g) for a, k in x.args[0]), -((-x.args[1]) // g))
    # 0/1-valued ite: decide directly
    if len(x.args[0]) == 1 and x.args[0][0][0].op == 'iite':
        at, k = x.args[0][0]
        c, a, b = at.args
        r = ile0(iadd(iscale(a, k), ic(x.args[1])))
        s = ile0(iadd(iscale(b, k), ic(x.args[1])))
        return bite(c, r, s)
    return mk('ile', 'B', x)


def ile(a, b):
    return ile0(isub(a, b))


def ilt(a, b):
    return ile0(iadd(isub(a, b), ic(1)))


def ieq(a, b):
    x = isub(a, b)
    c = icst(x)
    if c is not None:
        return TRUE if c == 0 else FALSE
    g = 0
    for _, k in x.args[0]:
        g = math.gcd(g, k)
    if x.args[1] % g:
        return FALSE
    if len(x.args[0]) == 1 and x.args[0][0][0].op == 'iite':
        at, k = x.args[0][0]
        c, p, q = at.args
        return bite(c, ieq(iscale(p, k), ic(-x.args[1])), ieq(iscale(q, k), ic(-x.args[1])))
    if g > 1:
        x = mk('lin', 'I', tuple((a_, k // g) for a_, k in x.args[0]), x.args[1] // g)
    if x.args[0][0][1] < 0:
        x = iscale(x, -1)
    return mk('ieq', 'B', x)


# ------------------------------------------------------------------ Real
def rc(v):
    if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
        return mk('rspecial', 'R', 'nan' if math.isnan(v) else ('inf' if v > 0 else '-inf'))
    return mk('rc', 'R', Fraction(v))


R0 = rc(0)
R1 = rc(1)
R2 = rc(2)


def rvar(n):
    return mk('rv', 'R', n)


def R(x):
    if isinstance(x, T):
        return x if x.sort == 'R' else i2r(x)
    return rc(x)


def i2r(x):
    c = icst(x)
    if c is not None:
        return rc(c)
    if len(x.args[0]) == 1 and x.args[0][0][0].op == 'iite':
        at, k = x.args[0][0]
        c, p, q = at.args
        return rite(c, i2r(iadd(iscale(p, k), ic(x.args[1]))), i2r(iadd(iscale(q, k), ic(x.args[1]))))
    return mk('i2r', 'R', x)


def radd(a, b):
    if a is R0:
        return b
    if b is R0:
        return a
    if a.op == 'rc' and b.op == 'rc':
        return rc(a.args[0] + b.args[0])
    return mk('+', 'R', a, b)


def rneg(a):
    if a.op == 'rc':
        return rc(-a.args[0])
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', 'R', a)


def rsub(a, b):
    if b is R0:
        return a
    if a is R0:
        return rneg(b)
    if a is b:
        return R0
    if a.op == 'rc' and b.op == 'rc':
        return rc(a.args[0] - b.args[0])
    return mk('-', 'R', a, b)


def rmul(a, b):
    if a is R0 or b is R0:
        return R0
    if a is R1:
        return b
    if b is R1:
        return a
    if a.op == 'rc' and b.op == 'rc':
        return rc(a.args[0] * b.args[0])
    return mk('*', 'R', a, b)


def rdiv(a, b):
    if b is R1:
        return a
    if b.op == 'rc' and b.args[0] != 0:
        if a.op == 'rc':
            return rc(a.args[0] / b.args[0])
    if a is R0:
        return R0
    return mk('/', 'R', a, b)


def rite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk('rite', 'R', c, a, b)


def rpow(a, n):
    if n == 0:
        return R1
    if n < 0:
        return rdiv(R1, rpow(a, -n))
    r = a
    for _ in range(n - 1):
        r = rmul(r, a)
    return r


def fn(name, *args):
    if name == 'sqrt' and args[0].op == 'rc' and args[0].args[0] in (0, 1):
        return args[0]
    if name in ('sin', 'sinh', 'tan', 'asin', 'atan') and args[0] is R0:
        return R0
    if name in ('cos', 'cosh', 'exp') and args[0] is R0:
        return R1
    if name == 'pow':
        e = args[1]
        if e.op == 'rc' and e.args[0].denominator == 1 and abs(e.args[0]) <= 12:
            return rpow(args[0], int(e.args[0]))
        if e.op == 'rc' and e.args[0] == Fraction(1, 2):
            return fn('sqrt', args[0])
    if name == 'fabs' and args[0].op == 'rc':
        return rc(abs(args[0].args[0]))
    if name == 'tan':
        return rdiv(fn('sin', args[0]), fn('cos', args[0]))
    if name == 'tanh':
        return rdiv(fn('sinh', args[0]), fn('cosh', args[0]))
    return mk('fn', 'R', name, *args)


def relem(fam, idx, off):
    return mk('relem', 'R', fam, idx, off)


def rlt(a, b):
    if a.op == 'rc' and b.op == 'rc':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    return mk('rlt', 'B', a, b)


def rle(a, b):
    if a.op == 'rc' and b.op == 'rc':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    return mk('rle', 'B', a, b)


def req(a, b):
    if a is b:
        return TRUE
    if a.op == 'rc' and b.op == 'rc':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if b is R0:
        a, b = b, a
    if a is R0:
        b = peel(b)
        if b.op == 'rc':
            return TRUE if b.args[0] == 0 else FALSE
    if b < a:
        a, b = b, a
    return mk('req', 'B', a, b)


def peel(e):
    """e == 0  <=>  peel(e) == 0"""
    while True:
        if e.op == 'neg' or (e.op == 'fn' and e.args[0] in ('sqrt', 'fabs')):
            e = e.args[-1]
        elif e.op == '/' and e.args[1].op == 'rc':
            e = e.args[0]
        elif e.op == '*' and e.args[0].op == 'rc' and e.args[0] is not R0:
            e = e.args[1]
        elif e.op == '*' and e.args[1].op == 'rc' and e.args[1] is not R0:
            e = e.args[0]
        else:
            return e


def sumdepth(t):
    d = t._sd
    if d is None:
        d = 0
        for a in targs(t):
            d = max(d, sumdepth(a))
        if t.op in ('sum', 'all'):
            d += 1
        t._sd = d
    return d


def rsum(kvar, lo, hi, body):
    """sum of body over kvar in [lo,hi); kvar an ivar term"""
    if body is R0:
        return R0
    cl, ch = icst(lo), icst(hi)
    if cl is not None and ch is not None and ch - cl <= 64:
        r = R0
        for i in range(cl, ch):
            r = radd(r, subst(body, {kvar: ic(i)}))
        return r
    b = ivar('$b%d' % (sumdepth(body) + 1))
    return mk('sum', 'R', lo, hi, subst(body, {kvar: b}))


def ball(kvar, lo, hi, body):
    if body is TRUE:
        return TRUE
    cl, ch = icst(lo), icst(hi)
    if cl is not None and ch is not None and ch - cl <= 64:
        return band(*[subst(body, {kvar: ic(i)}) for i in range(cl, ch)])
    b = ivar('$b%d' % (sumdepth(body) + 1))
    return mk('all', 'B', lo, hi, subst(body, {kvar: b}))


# ------------------------------------------------------------------ traversal
def targs(t):
    if t.op == 'lin':
        return [a for a, _ in t.args[0]]
    return [a for a in t.args if isinstance(a, T)]


def rebuild(t, f):
    """rebuild t with f applied to T children, through the smart constructors"""
    op = t.op
    a = t.args
    if op == 'lin':
        r = ic(a[1])
        for x, k in a[0]:
            y = f(x)
            r = iadd(r, iscale(y if y.op == 'lin' else mk('lin', 'I', ((y, 1),), 0), k))
        return r
    if op in ('rc', 'rv', 'iv', 'bv', 'bc', 'rspecial'):
        return t
    n = [f(x) if isinstance(x, T) else x for x in a]
    if op == '+':
        return radd(*n)
    if op == '-':
        return rsub(*n)
    if op == '*':
        return rmul(*n)
    if op == '/':
        return rdiv(*n)
    if op == 'neg':
        return rneg(*n)
    if op == 'fn':
        return fn(*n)
    if op == 'rite':
        return rite(*n)
    if op == 'iite':
        return iite(*n)
    if op == 'i2r':
        return i2r(*n)
    if op == 'rlt':
        return rlt(*n)
    if op == 'rle':
        return rle(*n)
    if op == 'req':
        return req(*n)
    if op == 'ile':
        return ile0(*n)
    if op == 'ieq':
        return ieq(n[0], ic(0))
    if op == 'not':
        return bnot(*n)
    if op == 'and':
        return band(*n)
    if op == 'or':
        return bor(*n)
    if op == 'imul':
        return imul(*n)
    if op == 'idiv':
        return idiv(*n)
    if t.sort == 'I':
        return iatom(op, *n)
    if op == 'relem' and callable(getattr(n[0], 'inst', None)):
        return mk('relem', 'R', *n)
    return mk(op, t.sort, *n)


def subst(t, m, memo=None):
    """m: dict T->T (keys: variables or atoms; Int keys may be given as lin-wrapped variables)"""
    if memo is None:
        mm = {}
        for k, v in m.items():
            if k.op == 'lin':
                assert len(k.args[0]) == 1 and k.args[0][0][1] == 1 and k.args[1] == 0
                k = k.args[0][0][0]
            mm[k] = v
        m = mm
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not targs(x):
            r = x if x.op != 'iv' else mk('lin', 'I', ((x, 1),), 0)
        else:
            # iterative deepening is unnecessary: DAG depth is kept moderate by callers
            r = rebuild(x, go)
        memo[x] = r
        return r
    return deep(go, t)


import sys
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def deep(f, t):
    return f(t)


def fvars(t):
    """set of variable atoms (iv, rv, bv) occurring"""
    s = t._fv
    if s is None:
        if t.op in ('iv', 'rv', 'bv'):
            s = frozenset([t])
        else:
            acc = set()
            for a in targs(t):
                acc |= fvars(a)
            s = frozenset(acc)
        t._fv = s
    return s


def itecount(t):
    """list of distinct ite conditions below t (cached)"""
    s = t._ites
    if s is None:
        acc = {}
        for a in targs(t):
            for c in itecount(a):
                acc[c] = 1
        if t.op in ('rite', 'iite'):
            acc[t.args[0]] = 1
        s = tuple(acc)
        t._ites = s
    return s


def show(t, depth=6):
    if depth == 0:
        return '..'
    op, a = t.op, t.args
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else str(x)
    if op == 'lin':
        r = ['%s%s' % ('' if k == 1 else '%d*' % k, s(x)) for x, k in a[0]]
        if a[1] or not r:
            r.append(str(a[1]))
        return '+'.join(r)
    if op in ('iv', 'rv', 'bv'):
        return str(a[0])
    if op == 'rc':
        return repr(float(a[0]))
    if op == 'bc':
        return str(a[0])
    if op in '+-*/':
        return '(%s %s %s)' % (s(a[0]), op, s(a[1]))
    if op == 'neg':
        return '-%s' % s(a[0])
    if op == 'fn':
        return '%s(%s)' % (a[0], ','.join(s(x) for x in a[1:]))
    if op == 'relem':
        return '%s[%s]@%s' % (a[0], s(a[1]), a[2])
    if op == 'ile':
        return '%s<=0' % s(a[0])
    if op == 'ieq':
        return '%s==0' % s(a[0])
    if op == 'rlt':
        return '%s<%s' % (s(a[0]), s(a[1]))
    if op == 'rle':
        return '%s<=%s' % (s(a[0]), s(a[1]))
    if op == 'req':
        return '%s==%s' % (s(a[0]), s(a[1]))
    return '%s(%s)' % (op, ','.join(s(x) for x in a))


# ------------------------------------------------------------------ numeric evaluation
class NumError(Exception):
    pass


def h01(*key):
    """deterministic pseudo-random in (0,1)"""
    d = hashlib.md5(repr(key).encode()).digest()
    return (int.from_bytes(d[:7], 'big') + 0.5) / (1 << 56)


class CplxNum:
    """complex double arithmetic, for fingerprints"""
    @staticmethod
    def c(q):
        return complex(float(q))

    def fnc(self, name, args):
        try:
            if name in ('sin', 'cos', 'sinh', 'cosh', 'exp', 'sqrt', 'log', 'tan', 'asin', 'acos', 'atan'):
                z = getattr(cmath, name)(args[0])
                return z
            if name == 'pow':
                return args[0] ** args[1]
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
        return complex(h01(name, tuple(round(a.real, 6) for a in args)) + 0.5)


_fp_seed = 'fp'


def fingerprint(t):
    """complex value of a real term at a fixed pseudo-random point; ite conditions are random booleans"""
    v = t._fp
    if v is None:
        try:
            v = _fpv(t, {})
        except (OverflowError, ZeroDivisionError):
            v = complex(0.123)
        t._fp = v
    return v


def _fpv(t, env):
    if not env and t._fp is not None:
        return t._fp
    op, a = t.op, t.args
    g = lambda x: _fpv(x, env)
    if op == 'rc':
        r = complex(float(a[0]))
    elif op == 'rv':
        r = complex(0.5 + h01('rv', a[0]))
    elif op == '+':
        r = g(a[0]) + g(a[1])
    elif op == '-':
        r = g(a[0]) - g(a[1])
    elif op == '*':
        r = g(a[0]) * g(a[1])
    elif op == '/':
        d = g(a[1])
        r = g(a[0]) / d if abs(d) > 1e-200 else complex(0.777)
    elif op == 'neg':
        r = -g(a[0])
    elif op == 'fn':
        r = CplxNum().fnc(a[0], [g(x) for x in a[1:]])
    elif op == 'rite':
        r = g(a[1]) if h01('b', a[0].id) > 0.5 else g(a[2])
    elif op == 'relem':
        r = complex(0.5 + h01('el', str(a[0]), fpi(a[1], env), a[2]))
    elif op == 'i2r':
        r = complex(fpi(a[0], env))
    elif op == 'sum':
        b = '$b%d' % sumdepth(t)
        r = 0
        base = fpi(a[0], env)
        for i in range(3):
            e = dict(env)
            e[b] = base + i
            r = r + _fpv(a[2], e)
        r = r * (1 + h01('sum', fpi(a[1], env)))
    elif op == 'rspecial':
        r = complex(12345.678)
    else:
        r = complex(h01(op, tuple(str(x) if not isinstance(x, T) else x.id for x in a)))
    if not env:
        t._fp = r
    return r


def fpi(t, env):
    if t.op == 'lin':
        r = t.args[1]
        for x, k in t.args[0]:
            if x.op == 'iv':
                if x.args[0] in env:
                    v = env[x.args[0]]
                else:
                    v = 3 + int(1000 * h01('iv', x.args[0]))
            else:
                v = 3 + int(1000 * h01(x.op, tuple(fpi(y, env) if isinstance(y, T) and y.sort == 'I' else str(y) for y in x.args)))
            r += k * v
        return r
    return t.id


# ------------------------------------------------------------------ normal form
class Poly:
    """dict monomial -> [coef, mag]; monomial = tuple of (atomid, exp) sorted, exp may be negative"""
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    @staticmethod
    def const(c):
        c = float(c)
        return Poly({(): (c, abs(c))} if c else {})

    @staticmethod
    def atom(i, e=1):
        return Poly({((i, e),): (1.0, 1.0)})

    def add(self, o, s=1.0):
        if not o.d:
            return self
        if not self.d and s == 1.0:
            return o
        r = dict(self.d)
        for m, (c, g) in o.d.items():
            x = r.get(m)
            if x is None:
                r[m] = (s * c, g)
            else:
                nc = x[0] + s * c
                ng = x[1] + g
                r[m] = (nc, ng)
        return Poly({m: v for m, v in r.items() if abs(v[0]) > DROP * v[1]} if len(r) else r)

    def mul(self, o):
        if len(self.d) * len(o.d) > 400000:
            raise Unknown("polynomial too large (%d x %d)" % (len(self.d), len(o.d)))
        r = {}
        for m1, (c1, g1) in self.d.items():
            for m2, (c2, g2) in o.d.items():
                m = mmul(m1, m2)
                x = r.get(m)
                if x is None:
                    r[m] = (c1 * c2, g1 * g2)
                else:
                    r[m] = (x[0] + c1 * c2, x[1] + g1 * g2)
        return Poly({m: v for m, v in r.items() if abs(v[0]) > DROP * v[1]})

    def scale(self, k):
        return Poly({m: (c * k, g * abs(k)) for m, (c, g) in self.d.items()}) if k else Poly()

    def iszero(self):
        for c, g in self.d.values():
            if abs(c) > RTOL * g:
                return False
        return True


_mm = {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is None:
        d = dict(a)
        for x, e in b:
            n = d.get(x, 0) + e
            if n:
                d[x] = n
            else:
                del d[x]
        r = tuple(sorted(d.items()))
        if len(_mm) < 3000000:
            _mm[k] = r
    return r


class AtomTable:
    def __init__(self):
        self.by = []          # id -> (kind, name, payload)
        self.idx = {}
        self.fns = {}         # (kind,name) -> [(fp, id, [Poly])]

    def leaf(self, t):
        i = self.idx.get(t)
        if i is None:
            i = len(self.by)
            self.by.append(('leaf', None, t))
            self.idx[t] = i
        return i

    def func(self, kind, name, polys, fp):
        lst = self.fns.setdefault((kind, name), [])
        for f0, i, ps in lst:
            if len(f0) == len(fp) and all(abs(x - y) <= 1e-9 * (abs(x) + abs(y) + 1e-300) for x, y in zip(f0, fp)):
                if all(poly_equal(p, q) for p, q in zip(ps, polys)):
                    return i
        i = len(self.by)
        self.by.append((kind, name, polys))
        lst.append((fp, i, polys))
        return i


AT = AtomTable()
_fpa = {}


def fp_atom(i):
    v = _fpa.get(i)
    if v is None:
        kind, name, p = AT.by[i]
        if kind == 'leaf':
            v = fingerprint(p)
        elif kind == 'fn':
            v = CplxNum().fnc(name, [fp_poly(x) for x in p])
        elif kind == 'cut':
            v = fp_poly(p[0])
        elif kind == 'inv':
            d = fp_poly(p[0])
            v = 1 / d if abs(d) > 1e-200 else complex(0.777)
        elif kind == 'sum':
            v = complex(0.5 + h01('suma', i))
        else:
            v = complex(0.5 + h01('a', i))
        _fpa[i] = v
    return v


def fp_poly(p):
    r = 0j
    for m, (c, g) in p.d.items():
        x = complex(c)
        for a, e in m:
            try:
                x *= fp_atom(a) ** e
            except (OverflowError, ZeroDivisionError):
                x *= 0.777
        r += x
    return r


NFCUT = [0, {}]       # [limit, cache]: with a limit, factors with more monomials become one atom each (tasks with long matrix products)


def nfcut(limit):
    NFCUT[0] = limit
    NFCUT[1] = {}


def cut(p):
    if NFCUT[0] and len(p.d) > NFCUT[0]:
        p = simp(p)
        if len(p.d) > NFCUT[0]:
            return Poly.atom(AT.func('cut', '', [p], (fp_poly(p),)))
    return p


def nf(t):
    if NFCUT[0]:
        r = NFCUT[1].get(t)
        if r is None:
            r = NFCUT[1][t] = _nf(t)
        return r
    r = t._nf
    if r is None:
        r = _nf(t)
        t._nf = r
    return r


def _nf(t):
    op, a = t.op, t.args
    if op == 'rc':
        return Poly.const(a[0])
    if op == '+':
        return nf(a[0]).add(nf(a[1]))
    if op == '-':
        return nf(a[0]).add(nf(a[1]), -1.0)
    if op == 'neg':
        return nf(a[0]).scale(-1.0)
    if op == '*':
        return pmul(cut(nf(a[0])), cut(nf(a[1])))
    if op == '/':
        return pmul(cut(nf(a[0])), pinv(nf(a[1])))
    if op == 'fn':
        ps = [simp(nf(x)) for x in a[1:]]
        return fn_atom(a[0], ps)
    if op == 'sum':
        return nf_sum(t)
    if op == 'i2r':
        p = Poly.const(a[0].args[1])
        for x, k in a[0].args[0]:
            p = p.add(Poly.atom(AT.leaf(mk('i2r', 'R', mk('lin', 'I', ((x, 1),), 0)))).scale(float(k)))
        return p
    return Poly.atom(AT.leaf(t))


def fn_atom(name, ps):
    if name in ('sqrt',) and len(ps[0].d) == 1:
        (m, (c, g)), = ps[0].d.items()
        if not m and c >= 0:
            return Poly.const(math.sqrt(c))
    if all(len(p.d) == 0 or (len(p.d) == 1 and () in p.d) for p in ps):
        vals = [p.d[()][0] if p.d else 0.0 for p in ps]
        try:
            if name in ('sin', 'cos', 'sinh', 'cosh', 'exp', 'sqrt', 'log', 'asin', 'acos', 'atan'):
                return Poly.const(getattr(math, name)(*vals))
            if name == 'fabs':
                return Poly.const(abs(vals[0]))
            if name == 'pow':
                return Poly.const(math.pow(*vals))
        except (ValueError, OverflowError):
            pass
    fps = tuple(fp_poly(p) for p in ps)
    if name in ('sin', 'cos', 'sinh', 'cosh', 'fabs') and fps and (fps[0].real < 0 or (fps[0].real == 0 and fps[0].imag < 0)):
        # canonical sign of the argument
        q = ps[0].scale(-1.0)
        i = AT.func('fn', name, [q], (-fps[0],))
        r = Poly.atom(i)
        return r.scale(-1.0) if name in ('sin', 'sinh') else r
    return Poly.atom(AT.func('fn', name, ps, fps))


def pmul(p, q):
    r = p.mul(q)
    return reduce_poly(r)


def pinv(p):
    """1/p"""
    p = simp(p)
    if not p.d:
        return Poly.atom(AT.func('inv', 'zero', [p], (0j,)))
    if len(p.d) == 1:
        (m, (c, g)), = p.d.items()
        return reduce_poly(Poly({tuple((a, -e) for a, e in m): (1.0 / c, 1.0 / abs(c))}))
    # monomial content
    cont = None
    for m in p.d:
        dm = dict(m)
        if cont is None:
            cont = dm
        else:
            cont = {a: min(e, dm.get(a, 0)) for a, e in cont.items()}
            for a, e in dm.items():
                if a not in cont and e < 0:
                    cont[a] = e
    cont = {a: e for a, e in cont.items() if e}
    # re-check content against all
    for a in list(cont):
        cont[a] = min(dict(m).get(a, 0) for m in p.d)
    cont = {a: e for a, e in cont.items() if e}
    mc = tuple(sorted(cont.items()))
    inv_mc = tuple((a, -e) for a, e in mc)
    q = Poly({mmul(m, inv_mc): v for m, v in p.d.items()})
    # leading coefficient normalisation: smallest monomial has coefficient 1
    lm = min(q.d)
    lc = q.d[lm][0]
    q = q.scale(1.0 / lc)
    i = AT.func('inv', '', [q], (fp_poly(q),))
    return reduce_poly(Poly({mmul(((i, 1),), inv_mc): (1.0 / lc, 1.0 / abs(lc))}))


def reduce_poly(p):
    """apply sin^2 -> 1-cos^2, cosh^2 -> 1+sinh^2, sqrt(p)^2 -> p, |x|^2 -> x^2 on positive powers;
    negative even powers of sqrt likewise"""
    need = False
    by = AT.by
    for m in p.d:
        for a, e in m:
            if e >= 2 or e <= -1:
                k, n, _ = by[a]
                if k == 'fn' and (n in ('sqrt',) or (e >= 2 and n in ('sin', 'cosh', 'fabs')) or (e <= -2 and n == 'fabs')):
                    need = True
                    break
                if k == 'inv' and e < 0:
                    need = True
                    break
        if need:
            break
    if not need:
        return p
    out = Poly()
    for m, v in p.d.items():
        rest = []
        fac = None
        for a, e in m:
            k, n, pl = by[a]
            f = None
            if k == 'fn':
                if n == 'sqrt' and (e >= 2 or e <= -1):
                    q, r = divmod(e, 2)
                    if q > 0:
                        f = ppow(pl[0], q)
                    elif q < 0:
                        f = ppow(pinv(pl[0]), -q)
                    if r:
                        rest.append((a, 1))
                elif n == 'fabs' and (e >= 2 or e <= -2):
                    q, r = divmod(e, 2)
                    f = ppow(pl[0], 2 * q) if q > 0 else ppow(pinv(pl[0]), -2 * q)
                    if r:
                        rest.append((a, 1))
                elif n in ('sin', 'cosh') and e >= 2:
                    q, r = divmod(e, 2)
                    co = fn_atom('cos' if n == 'sin' else 'sinh', pl)
                    base = Poly.const(1).add(co.mul(co), -1.0 if n == 'sin' else 1.0)
                    f = base
                    for _ in range(q - 1):
                        f = f.mul(base)
                    if r:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            elif k == 'inv' and e < 0:
                f = ppow(pl[0], -e)
            else:
                rest.append((a, e))
            if f is not None:
                fac = f if fac is None else fac.mul(f)
        q = Poly({tuple(rest): v})
        if fac is not None:
            q = reduce_poly(q.mul(fac))
        out = out.add(q)
    return out


def ppow(p, n):
    r = p
    for _ in range(n - 1):
        r = pmul(r, p)
    return r


def clear_inv(p):
    """multiply by all denominators: returns a polynomial that is zero iff p is (denominators nonzero)"""
    for _ in range(40):
        # negative powers of leaf atoms
        low = {}
        invs = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
                if AT.by[a][0] == 'inv' and AT.by[a][1] == '' and e > 0:
                    invs[a] = max(invs.get(a, 0), e)
        if not low and not invs:
            return p
        if low:
            mm = tuple(sorted((a, -e) for a, e in low.items()))
            p = reduce_poly(Poly({mmul(m, mm): v for m, v in p.d.items()}))
            continue
        a = max(invs, key=lambda x: x)
        E = invs[a]
        q = AT.by[a][2][0]
        pw = [Poly.const(1)]
        for _ in range(E):
            pw.append(pw[-1].mul(q))
        out = Poly()
        for m, v in p.d.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            out = out.add(Poly({rest: v}).mul(pw[E - e]))
        p = reduce_poly(out)
        p = Poly({m: v for m, v in p.d.items() if abs(v[0]) > RTOL * v[1]})
        if len(p.d) > 200000:
            raise Unknown("denominator clearing blow-up")
    raise Unknown("denominator clearing does not terminate")


def simp(p):
    return Poly({m: v for m, v in p.d.items() if abs(v[0]) > RTOL * v[1]})


def poly_zero(p):
    p = simp(p)
    if not p.d:
        return True
    p = simp(reduce_poly(p))
    if not p.d:
        return True
    # cheap numeric refutation by fingerprint
    v = fp_poly(p)
    g = 0.0
    for m, (c, _) in p.d.items():
        x = abs(c)
        for a, e in m:
            try:
                x *= abs(fp_atom(a)) ** e
            except (OverflowError, ZeroDivisionError):
                pass
        g += x
    if abs(v) > 1e-7 * g:
        return False
    q = simp(clear_inv(p))
    return not q.d


def poly_equal(p, q):
    return poly_zero(p.add(q, -1.0))


def req_proved(a, b):
    if a is b:
        return True
    return poly_zero(nf(a).add(nf(b), -1.0))


def nf_sum(t):
    lo, hi, body = t.args
    b = mk('iv', 'I', '$b%d' % sumdepth(t))
    # canonical range: [0, hi) with hi free of a constant part (valid for hi >= lo, an invariant of every sum built)
    cl = icst(lo)
    c = hi.args[1] if hi.args[0] else 0
    if cl is not None and hi.args[0] and (c or cl):
        bl = mk('lin', 'I', ((b, 1),), 0)
        if c:
            body = subst(body, {b: iadd(bl, ic(c))})
            hi = isub(hi, ic(c))
            cl -= c
        full = nf(mk('sum', 'R', ic(0), hi, body))
        if abs(cl) > 8:
            raise Unknown("sum with shifted bounds")
        for i in range(0, cl):
            full = full.add(nf(subst(body, {b: ic(i)})), -1.0)
        for i in range(cl, 0):
            full = full.add(nf(subst(body, {b: ic(i)})))
        return full
    p = reduce_poly(nf(body))
    out = Poly()
    for m, v in p.d.items():
        dep = []
        free = []
        for a, e in m:
            if atom_dep(a, b):
                dep.append((a, e))
            else:
                free.append((a, e))
        dep = tuple(dep)
        i = sum_atom(dep, lo, hi, b)
        out = out.add(Poly({mmul(tuple(free), ((i, 1),)): v}) if i is not None else
                      Poly({tuple(free): v}).mul(nf(i2r(isub(hi, lo)))))
    return out


def sum_atom(dep, lo, hi, b):
    if not dep:
        return None
    key = ('S', dep, lo, hi, b)
    i = AT.idx.get(key)
    if i is None:
        i = len(AT.by)
        AT.by.append(('sum', b, (dep, lo, hi)))
        AT.idx[key] = i
    return i


_dep = {}


def atom_dep(a, b):
    k = (a, b)
    r = _dep.get(k)
    if r is None:
        kind, name, p = AT.by[a]
        if kind == 'leaf':
            r = b in fvars(p)
        elif kind in ('fn', 'inv', 'cut'):
            r = any(atom_dep(x, b) for q in p for m in q.d for x, _ in m)
        elif kind == 'sum':
            dep, lo, hi = p
            r = b in fvars(lo) or b in fvars(hi) or any(atom_dep(x, b) for x, _ in dep)
        _dep[k] = r
    return r


def assume_cond(t, c, val):
    """simplify ites on condition c"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x is c:
            r = TRUE if val else FALSE
        elif x is bnot(c):
            r = FALSE if val else TRUE
        elif not targs(x):
            r = x if x.op != 'iv' else mk('lin', 'I', ((x, 1),), 0)
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def rsub_pt(t, m):
    return subst(t, m)


# ------------------------------------------------------------------ operator sugar for real terms (spec functions)
def _w(f):
    return lambda a, b: f(R(a), R(b))


T.__add__ = _w(radd)
T.__radd__ = lambda a, b: radd(R(b), R(a))
T.__sub__ = _w(rsub)
T.__rsub__ = lambda a, b: rsub(R(b), R(a))
T.__mul__ = _w(rmul)
T.__rmul__ = lambda a, b: rmul(R(b), R(a))
T.__truediv__ = _w(rdiv)
T.__rtruediv__ = lambda a, b: rdiv(R(b), R(a))
T.__neg__ = lambda a: rneg(R(a))
T.__pow__ = lambda a, n: rpow(a, n)
