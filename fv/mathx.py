"""Polymorphic mathematics for specification functions: the same spec runs on symbolic terms and on floats."""
import math
from terms import *
import terms as _t
from logic import mp as _mp

C0 = 2.99792458e8
MtoMM = 1e3
MeVtoeV = 1e6
PI = math.pi


def _f1(name):
    g = getattr(math, name)

    def f(x):
        if isinstance(x, T):
            return fn(name, x)
        if hasattr(x, '_mpf_'):
            return getattr(_mp, name)(x)
        return g(x)
    return f


sin, cos, sinh, cosh, tan, exp, log, asin, acos = [_f1(n) for n in
                                                  ('sin', 'cos', 'sinh', 'cosh', 'tan', 'exp', 'log', 'asin', 'acos')]


def sqrt(x):
    if isinstance(x, T):
        return fn('sqrt', x)
    if hasattr(x, '_mpf_'):
        if x < 0:
            raise ValueError('sqrt of negative')
        return _mp.sqrt(x)
    return math.sqrt(x) if x >= 0 else float('nan')


def fabs(x):
    return fn('fabs', x) if isinstance(x, T) else abs(x)


def where(c, a, b):
    """a, b: values or thunks"""
    ev_ = lambda z: z() if callable(z) else z
    if isinstance(c, T):
        if c is TRUE:
            return ev_(a)
        if c is FALSE:
            return ev_(b)
        return rite(c, R(ev_(a)), R(ev_(b)))
    return ev_(a) if c else ev_(b)


def gt(a, b):
    return rlt(R(b), R(a)) if isinstance(a, T) or isinstance(b, T) else a > b


def lt(a, b):
    return gt(b, a)


def ge(a, b):
    return rle(R(b), R(a)) if isinstance(a, T) or isinstance(b, T) else a >= b


def eq(a, b):
    return req(R(a), R(b)) if isinstance(a, T) or isinstance(b, T) else a == b


def ne(a, b):
    return bnot(eq(a, b)) if isinstance(a, T) or isinstance(b, T) else a != b


def iszero(x):
    return x is R0 or (not isinstance(x, T) and x == 0)


def ident(n=7, one=1.0):
    return [[one if i == j else 0.0 for j in range(n)] for i in range(n)]


def mm(A, B):
    n, m, q = len(A), len(B), len(B[0])
    out = []
    for i in range(n):
        row = []
        for j in range(q):
            s = 0.0
            for k in range(m):
                a, b = A[i][k], B[k][j]
                if iszero(a) or iszero(b):
                    continue
                t = b if (a is R1 or (not isinstance(a, T) and a == 1)) else (a if (b is R1 or (not isinstance(b, T) and b == 1)) else a * b)
                s = t if (not isinstance(s, T) and s == 0) else s + t
            row.append(s)
        out.append(row)
    return out


def mv(A, v):
    return [r[0] for r in mm(A, [[x] for x in v])]


def tr(A):
    return [list(r) for r in zip(*A)]


def chain(*Ms):
    """product Ms[0] Ms[1] ..."""
    r = Ms[-1]
    for M in reversed(Ms[:-1]):
        r = mm(M, r)
    return r
