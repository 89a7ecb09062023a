"""ctypes binding of native/shim.cpp (the real library), random inputs, comparison helpers."""
import ctypes as C, os, sys, math, random, json
import numpy as np

D = C.POINTER(C.c_double)


class FlameError(Exception):
    pass


class Lib:
    def __init__(self, path):
        self.l = C.CDLL(path)
        l = self.l
        vp, cp, i, u, d, z = C.c_void_p, C.c_char_p, C.c_int, C.c_uint, C.c_double, C.c_size_t
        sig = {
            'fl_err': (cp, []), 'fl_init': (i, []), 'fl_cleanup': (i, []), 'fl_loglevel': (None, [i]),
            'fl_conf_new': (vp, []), 'fl_conf_parse': (vp, [cp, u]), 'fl_conf_parse_path': (vp, [cp, u, cp]),
            'fl_conf_parse_file': (vp, [cp, i]), 'fl_conf_parse_vars': (vp, [cp, u, cp, d]), 'fl_conf_copy': (vp, [vp]),
            'fl_conf_parse_conf': (vp, [cp, u, vp, cp, i]), 'fl_laststr': (cp, []),
            'fl_conf_scope': (vp, [vp]), 'fl_conf_assign': (i, [vp, vp]), 'fl_conf_pushscope': (i, [vp]), 'fl_conf_flatten': (i, [vp]),
            'fl_conf_free': (None, [vp]), 'fl_conf_setd': (i, [vp, cp, d]), 'fl_conf_sets': (i, [vp, cp, cp]),
            'fl_conf_setv': (i, [vp, cp, D, i]), 'fl_conf_swaps': (i, [vp, cp, cp]), 'fl_conf_swapv': (i, [vp, cp, D, i]), 'fl_conf_setcv': (i, [vp, cp, C.POINTER(vp), i]), 'fl_conf_has': (i, [vp, cp]), 'fl_conf_swap': (i, [vp, vp]),
            'fl_conf_getd': (i, [vp, cp, D]), 'fl_conf_getd_def': (i, [vp, cp, d, D]), 'fl_conf_trygetd': (i, [vp, cp, D]),
            'fl_conf_gets': (cp, [vp, cp]), 'fl_conf_gets_def': (cp, [vp, cp, cp]), 'fl_conf_getv': (i, [vp, cp, D, i]),
            'fl_conf_getcv_n': (i, [vp, cp]), 'fl_conf_getcv': (vp, [vp, cp, i]), 'fl_conf_keys': (cp, [vp]), 'fl_conf_print': (cp, [vp]), 'fl_conf_glps': (cp, [vp]),
            'fl_machine': (vp, [vp]), 'fl_machine_free': (None, [vp]), 'fl_machine_size': (i, [vp]), 'fl_machine_simtype': (cp, [vp]),
            'fl_state': (vp, [vp, vp]), 'fl_state_free': (None, [vp]), 'fl_state_clone': (vp, [vp]), 'fl_state_assign': (i, [vp, vp]),
            'fl_state_retreat': (i, [vp, i]), 'fl_state_next': (z, [vp]), 'fl_state_setnext': (None, [vp, z]), 'fl_state_pyptr': (vp, [vp, i, vp]),
            'fl_array': (i, [vp, u, C.POINTER(cp), C.POINTER(i), C.POINTER(vp), C.POINTER(u), C.POINTER(z), C.POINTER(z)]),
            'fl_propagate': (i, [vp, vp, z, i]), 'fl_advance': (i, [vp, vp, z]), 'fl_reconfigure': (i, [vp, z, vp]),
            'fl_elem_conf': (vp, [vp, z]), 'fl_elem_name': (cp, [vp, z]), 'fl_elem_type': (cp, [vp, z]), 'fl_elem_index': (C.c_long, [vp, z]),
            'fl_elem_length': (d, [vp, z]), 'fl_elem_observe': (i, [vp, z, i]), 'fl_seen': (i, [C.POINTER(C.c_long), C.POINTER(C.c_long), D, i]), 'fl_seen_clear': (None, []),
            'fl_trace': (cp, [vp, vp, z, i]), 'fl_find': (C.c_long, [vp, cp, z]), 'fl_range': (i, [vp, cp, i, C.POINTER(C.c_long), i]),
            'fl_elem_transfer': (i, [vp, z, z, D]), 'fl_elem_misalign': (i, [vp, z, vp, z, D, D]), 'fl_get_flag': (i, [vp, z, vp, cp, u, C.POINTER(u)]),
            'fl_elem_cachesize': (i, [vp, z]), 'fl_check_backward': (i, [vp, z, vp]), 'fl_calc_rms': (i, [vp]), 'fl_recalc': (i, [vp]), 'fl_brho': (d, [vp, i]),
            'fl_refp': (D, [vp]), 'fl_realp': (D, [vp, i]), 'fl_nreal': (i, [vp]), 'fl_peq': (i, [D, D, i]),
            'fl_moment_elem': (D, [vp, cp, z, z, z]), 'fl_inverse': (i, [D, D]), 'fl_rotmat': (None, [D, D]), 'fl_quad': (None, [d, d, u, D]), 'fl_sext': (None, [D, i, i, D]),
            'fl_edge': (None, [D, D]), 'fl_eedge': (None, [D, D]), 'fl_sol': (None, [D, D]), 'fl_sbend': (None, [D, D]), 'fl_ebend': (None, [D, D]),
            'fl_curvedata': (i, [vp, u, D, D, i, C.POINTER(i)]),
        }
        for n, (r, a) in sig.items():
            f = getattr(l, n, None)
            if f is None:
                continue
            f.restype, f.argtypes = r, a
        if l.fl_init():
            raise FlameError(self.err())

    def err(self):
        return self.l.fl_err().decode('latin1')

    def case(self, it):
        """every so often with all log output: logging must not change what is computed"""
        if hasattr(self.l, 'fl_loglevel'):
            self.l.fl_loglevel(0 if it % 9 == 4 else 30)

    # -- convenience
    def mat(self, f, *a, M=None):
        """call a matrix function"""
        m = (C.c_double * 49)(*(sum(M, []) if M is not None else [1.0 if k % 8 == 0 else 0.0 for k in range(49)]))
        getattr(self.l, f)(*a, m)
        return [[m[7 * i + j] for j in range(7)] for i in range(7)]


def darr(xs):
    return (C.c_double * max(1, len(xs)))(*xs)


def q(s):
    return s.encode('latin1')


class Conf:
    def __init__(self, L, p=None):
        self.L = L
        self.p = p if p is not None else L.l.fl_conf_new()
        if not self.p:
            raise FlameError(L.err())

    @classmethod
    def parse(cls, L, s):
        b = q(s)
        p = L.l.fl_conf_parse(b, len(b))
        if not p:
            raise FlameError(L.err())
        return cls(L, p)

    @classmethod
    def of(cls, L, d):
        c = cls(L)
        for k, v in d.items():
            c[k] = v
        return c

    def __setitem__(self, k, v):
        l = self.L.l
        if isinstance(v, str):
            l.fl_conf_sets(self.p, q(k), q(v))
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], Conf):
            l.fl_conf_setcv(self.p, q(k), (C.c_void_p * len(v))(*[x.p for x in v]), len(v))
        elif isinstance(v, (list, tuple)):
            v = [float(x) for x in v]
            l.fl_conf_setv(self.p, q(k), darr(v), len(v))
        else:
            l.fl_conf_setd(self.p, q(k), float(v))

    def d(self, k):
        v = C.c_double()
        if self.L.l.fl_conf_getd(self.p, q(k), C.byref(v)):
            raise FlameError(self.L.err())
        return v.value

    def s(self, k):
        r = self.L.l.fl_conf_gets(self.p, q(k))
        if r is None:
            raise FlameError(self.L.err())
        return r.decode('latin1')

    def v(self, k):
        a = (C.c_double * 4096)()
        n = self.L.l.fl_conf_getv(self.p, q(k), a, 4096)
        if n < 0:
            raise FlameError(self.L.err())
        return list(a[:n])

    def cv(self, k):
        n = self.L.l.fl_conf_getcv_n(self.p, q(k))
        if n < 0:
            raise FlameError(self.L.err())
        return [Conf(self.L, self.L.l.fl_conf_getcv(self.p, q(k), i)) for i in range(n)]

    def has(self, k):
        return self.L.l.fl_conf_has(self.p, q(k))

    def copy(self):
        return Conf(self.L, self.L.l.fl_conf_copy(self.p))

    def scope(self):
        return Conf(self.L, self.L.l.fl_conf_scope(self.p))

    def keys(self):
        return self.L.l.fl_conf_keys(self.p).decode('latin1').split()

    def __del__(self):
        try:
            if self.p:
                self.L.l.fl_conf_free(self.p)
        except Exception:
            pass


class Arr:
    def __init__(self, name, type, ptr, dim, stride):
        self.name, self.type, self.ptr, self.dim, self.stride = name, type, ptr, dim, stride

    def np(self):
        ct = C.c_double if self.type == 0 else C.c_size_t
        n = 1 + sum((d - 1) * s for d, s in zip(self.dim, self.stride)) // 8 if self.dim else 1
        if any(d == 0 for d in self.dim):
            return np.zeros(self.dim)
        buf = np.ctypeslib.as_array(C.cast(self.ptr, C.POINTER(ct)), (n,))
        return np.lib.stride_tricks.as_strided(buf, tuple(self.dim), tuple(self.stride))


class State:
    def __init__(self, L, p):
        self.L, self.p = L, p
        if not p:
            raise FlameError(L.err())

    def arrays(self):
        out = []
        i = 0
        while True:
            nm, ty, pt, nd = C.c_char_p(), C.c_int(), C.c_void_p(), C.c_uint()
            dim, st = (C.c_size_t * 3)(), (C.c_size_t * 3)()
            r = self.L.l.fl_array(self.p, i, C.byref(nm), C.byref(ty), C.byref(pt), C.byref(nd), dim, st)
            if r != 1:
                return out
            out.append(Arr(nm.value.decode(), ty.value, pt.value, list(dim[:nd.value]), list(st[:nd.value])))
            i += 1
            if i > 200:
                raise FlameError("array enumeration does not end")

    def __getitem__(self, name):
        for a in self.arrays():
            if a.name == name:
                return a.np()
        raise KeyError(name)

    def snapshot(self):
        return {a.name: a.np().copy() for a in self.arrays()}

    def clone(self):
        return State(self.L, self.L.l.fl_state_clone(self.p))

    def ref(self):
        return dict(zip(PF, self.L.l.fl_refp(self.p)[:12]))

    def real(self, k):
        return dict(zip(PF, self.L.l.fl_realp(self.p, k)[:12]))

    def n(self):
        return self.L.l.fl_nreal(self.p)

    def __del__(self):
        try:
            self.L.l.fl_state_free(self.p)
        except Exception:
            pass


PF = ['IonZ', 'IonQ', 'IonEs', 'IonW', 'gamma', 'beta', 'bg', 'SampleFreq', 'SampleLambda', 'SampleIonK', 'phis', 'IonEk']


class Machine:
    def __init__(self, L, conf):
        self.L = L
        self.p = L.l.fl_machine(conf.p)
        if not self.p:
            raise FlameError(L.err())

    def __len__(self):
        return self.L.l.fl_machine_size(self.p)

    def state(self, conf=None):
        return State(self.L, self.L.l.fl_state(self.p, conf.p if conf else None))

    def propagate(self, s, start=0, max=2147483647):
        if self.L.l.fl_propagate(self.p, s.p, start, max):
            raise FlameError(self.L.err())

    def advance(self, s, i):
        if self.L.l.fl_advance(self.p, s.p, i):
            raise FlameError(self.L.err())

    def reconfigure(self, i, c):
        if self.L.l.fl_reconfigure(self.p, i, c.p):
            raise FlameError(self.L.err())

    def conf(self, i):
        return Conf(self.L, self.L.l.fl_elem_conf(self.p, i))

    def transfer(self, i, k):
        m = (C.c_double * 49)()
        if self.L.l.fl_elem_transfer(self.p, i, k, m):
            raise FlameError('transfer')
        return [[m[7 * a + b] for b in range(7)] for a in range(7)]

    def __del__(self):
        try:
            self.L.l.fl_machine_free(self.p)
        except Exception:
            pass


def lattice(L, simtype, elements, glob=None):
    """elements: list of dicts with name/type/..."""
    c = Conf(L)
    c['sim_type'] = simtype
    for k, v in (glob or {}).items():
        c[k] = v
    es = []
    for e in elements:
        x = c.scope()
        for k, v in e.items():
            x[k] = v
        es.append(x)
    c['elements'] = es
    return c


def close(a, b, rtol=1e-9, scale=0.0):
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (math.isnan(a) and math.isnan(b)):
            return True
        return abs(a - b) <= rtol * (abs(a) + abs(b) + scale)
    return a == b


CUR = {}


def current(path, rec):
    """the case under way, kept on disk so that a crash can be attributed to it"""
    CUR.clear()
    CUR.update(rec)
    CUR['$path'] = path
    with open(path, 'w') as f:
        json.dump(rec, f, default=str)


def note(inp):
    """the input about to be given to the real code"""
    CUR['input'] = inp
    if '$path' in CUR:
        with open(CUR['$path'], 'w') as f:
            json.dump({k: v for k, v in CUR.items() if k != '$path'}, f, default=str)


class Skip(Exception):
    pass


FOUND = {}


def finding(key, fail):
    """a deviation which the contract names; suppressed only where known-findings.txt lists it"""
    FOUND.setdefault(key, {'what': fail.what, 'input': fail.inp})


class Fail(Exception):
    """a contract is violated by a concrete input"""

    def __init__(self, what, inp):
        Exception.__init__(self, what)
        self.what, self.inp = what, inp


def matclose(A, B, rtol=1e-8, what='', inp=None, scale=None):
    sc = max([abs(x) for r in B for x in r] + [0.0]) if scale is None else scale
    for i, (ra, rb) in enumerate(zip(A, B)):
        for j, (x, y) in enumerate(zip(ra, rb)):
            if not close(float(x), float(y), rtol, 1e-4 * sc):
                raise Fail('%s [%d,%d]: code %r, contract %r' % (what, i, j, float(x), float(y)), inp)
