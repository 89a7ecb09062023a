"""Symbolic executor / verification-condition generator over the extracted LLVM IR.

Function calls are replaced by contracts when one is registered, library calls by library contracts (lib.py), other
FLAME functions are entered.  Loops whose trip count is symbolic are replaced by an inferred and checked inductive
invariant (induction variables, point-wise array maps, sums, last values); a loop that fits none of the templates
raises Unknown: the obligation is then *not* discharged.
"""
import itertools
from ir import sizeof, PTR
from terms import *
import logic
from logic import feasible, entails


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.r == x.r and self.o is x.o

    def __hash__(self):
        return hash((self.r, self.o.id))

    def __repr__(self):
        return "&%s+%s" % (self.r, self.o)


I0 = ic(0)
I1 = ic(1)
NULL = Ptr(None, I0)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class NotPtr:
    """bitwise complement of an address"""
    def __init__(self, p):
        self.p = p


class Clobbered:
    def __init__(self, why):
        self.why = why


_rid = itertools.count(1)
_fresh = itertools.count(1)


def fresh(p='t'):
    return '%s#%d' % (p, next(_fresh))


class Region:
    """base: 'uninit' | 'zero' | 'sym'.   stride None: flat object with concrete cells;
    stride n: array of n-byte elements, contents = symbol family `fam` overlaid by `log`"""
    __slots__ = ('id', 'name', 'size', 'stride', 'cells', 'base', 'fam', 'log', 'layout', 'names', 'nullcond', 'dead',
                 'count', 'tag')

    def __init__(self, name, base='uninit', size=None, stride=None, fam=None, layout=None, names=None, count=None):
        self.id = next(_rid)
        self.name = name
        self.base = base
        self.size = size
        self.stride = stride
        self.fam = fam
        self.layout = layout    # dict off -> (size, kind)  kind in R I B or int constant
        self.names = names or {}
        self.cells = {}
        self.log = ()
        self.nullcond = None
        self.dead = False
        self.count = count
        self.tag = None

    def copy(self):
        r = Region.__new__(Region)
        for s in Region.__slots__:
            setattr(r, s, getattr(self, s))
        r.cells = dict(self.cells)
        return r


class Frame:
    __slots__ = ('fn', 'blk', 'ip', 'regs', 'loops', 'allocas', 'call')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.loops = dict(self.loops)
        f.allocas = list(self.allocas)
        f.call = self.call
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.own = set()
        self.pc = []
        self.trace = []
        self.reads = None
        self.exc = None
        self.caught = []
        self.ghost = {}

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.pc = list(self.pc)
        s.trace = list(self.trace)
        s.reads = list(self.reads) if self.reads is not None else None
        s.exc = self.exc
        s.caught = list(self.caught)
        s.ghost = dict(self.ghost)
        return s

    def add(self, reg):
        self.mem[reg.id] = reg
        self.own.add(reg.id)
        return reg

    def rw(self, rid):
        r = self.mem[rid]
        if rid not in self.own:
            r = r.copy()
            self.mem[rid] = r
            self.own.add(rid)
        return r

    def assume(self, c):
        if c is TRUE:
            return
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        if c not in self.pc:
            self.pc.append(c)


class Outcome:
    """kind: ret | throw | stop"""

    def __init__(self, kind, state, value=None, exc=None, info=None):
        self.kind, self.state, self.value, self.exc, self.info = kind, state, value, exc, info


class LoopRec:
    __slots__ = ('snap', 'header', 'body', 'iters', 'done', 'nosum')


MATHFN = {'sin', 'cos', 'sinh', 'cosh', 'exp', 'log', 'sqrt', 'tan', 'asin', 'acos', 'atan', 'fabs', 'pow', 'floor',
          'ceil', 'tanh', 'atan2', 'round', 'fmod', 'cbrt', 'log10', 'hypot', 'trunc', 'rint', 'nearbyint'}


def i2rs(t):
    """integer-valued subterms of a real term"""
    if t.op == 'i2r':
        return {t}
    return set().union(*[i2rs(a) for a in targs(t)]) if targs(t) else set()


class Exec:
    MAXUNROLL = 3000
    nosum = False                       # True: loops are unrolled (concrete trip counts), never summarised
    MAXPATHS = 4000

    def __init__(self, prog, lib, contracts=None):
        self.prog = prog
        self.lib = lib
        self.contracts = contracts or {}
        self.stats = {'instr': 0, 'paths': 0, 'loops': 0, 'contract_calls': 0, 'functions': set(), 'lib': set(),
                      'assumed': set()}
        self.trap_ok = False
        self.globals = {}
        self.notes = set()

    # ------------------------------------------------------------ memory
    def alloc(self, st, name, size=None, base='uninit', **kw):
        r = Region(name, base=base, size=size, **kw)
        st.add(r)
        return r

    def gptr(self, st, name, mod):
        q = self.prog.qualify(name, mod)
        if self.prog.find(name, mod) is not None or name in mod.decls and name not in mod.globals_src:
            return Ptr('fn:' + q, I0)
        rid = self.globals.get(q)
        if rid is None:
            gi = self.prog.global_init(q)
            reg = Region('@' + q)
            self.globals[q] = reg.id
            reg.tag = ('global', q)
            self._greg = getattr(self, '_greg', {})
            self._greg[reg.id] = reg
            if gi is None or gi[2] is None:
                reg.base = 'sym'
                if q.startswith('_ZTI'):      # std::type_info of another library: its name is some string
                    nm = Region('@name of ' + q)
                    nm.base = 'sym'
                    nm.cells[('g', 0)] = ('sym', 'name of ' + q)
                    self._greg[nm.id] = nm
                    reg.cells[8] = (8, Ptr(nm.id, I0))
            else:
                m, t, v = gi
                reg.size = sizeof(t)
                self.init_global(st, reg, 0, t, v, m)
                reg.cells.setdefault(('const',), True)
        rid = self.globals[q]
        if rid not in st.mem:
            st.mem[rid] = self._greg[rid]
            c = self._greg[rid].cells.get(8)
            if c is not None and isinstance(c[1], Ptr) and c[1].r in self._greg:
                st.mem.setdefault(c[1].r, self._greg[c[1].r])
        return Ptr(rid, I0)

    def init_global(self, st, reg, off, t, v, m):
        k = v[0]
        if k == 'zero':
            reg.base = 'zero' if reg.base == 'uninit' else reg.base
            self.zero_fill(reg, off, t)
        elif k == 'agg':
            from ir import offsets
            if t[0] == 's':
                of = offsets(t)
                for i, (et, ev) in enumerate(v[2]):
                    self.init_global(st, reg, off + of[i], et, ev, m)
            else:
                es = sizeof(t[2])
                for i, (et, ev) in enumerate(v[2]):
                    self.init_global(st, reg, off + i * es, et, ev, m)
        elif k == 'cstr':
            reg.cells[('cstr', off)] = v[1]
        elif k == 'undef':
            pass
        else:
            reg.cells[off] = (sizeof(t), self.const(st, v, t, m))

    def zero_fill(self, reg, off, t):
        from ir import offsets
        if t[0] == 's':
            of = offsets(t)
            for i, et in enumerate(t[1]):
                self.zero_fill(reg, off + of[i], et)
        elif t[0] == 'a':
            if t[2] == ('i', 8):
                reg.cells[('cstr', off)] = b'\0' * t[1]
                return
            es = sizeof(t[2])
            for i in range(min(t[1], 4096)):
                self.zero_fill(reg, off + i * es, t[2])
        else:
            reg.cells[off] = (sizeof(t), self.zero(t))

    def zero(self, t):
        k = t[0]
        if k == 'i':
            return FALSE if t[1] == 1 else I0
        if k == 'd':
            return R0
        if k == 'p':
            return NULL
        if k == 's':
            return [self.zero(x) for x in t[1]]
        if k == 'a':
            return [self.zero(t[2]) for _ in range(t[1])]
        raise Unknown("zero of %r" % (t,))

    def const(self, st, v, t, mod):
        k = v[0]
        if k == 'c':
            if t[0] == 'i' and t[1] == 1:
                return TRUE if v[2] else FALSE
            return ic(v[2])
        if k == 'd':
            return rc(v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gptr(st, v[1], mod)
        if k == 'undef':
            return [UNDEF] * len(t[1]) if t[0] == 's' else UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'gepc':
            from ir import compile_gep
            base, c, var = compile_gep(v[1], v[2], v[3])
            p = self.const(st, base, PTR, mod)
            return Ptr(p.r, iadd(p.o, ic(c)))
        if k == 'cast':
            x = self.const(st, v[2], v[3], mod)
            return x
        if k == 'agg':
            return [self.const(st, o, ot, mod) for ot, o in v[2]]
        raise Unknown("constant %r" % (v,))

    def idx(self, reg, o):
        """offset term -> (index term, byte offset) in a strided region"""
        s = reg.stride
        for a, c in o.args[0]:
            if c % s:
                raise Unknown("address %s not a multiple of the element size %d of %s" % (o, s, reg.name))
        q, r = divmod(o.args[1], s)
        return mk('lin', 'I', tuple((a, c // s) for a, c in o.args[0]), q), r

    def fresh_of(self, kind, name):
        if kind == 'R':
            return rvar(name)
        if kind == 'I':
            return ivar(name)
        if kind == 'B':
            return iite(bvar(name), I1, I0)
        if isinstance(kind, int):
            return ic(kind)
        raise Unknown("fresh %r" % (kind,))

    def tykind(self, t):
        if t[0] == 'd':
            return 'R'
        if t[0] == 'i':
            return 'B' if t[1] in (1, 8) else 'I'
        raise Unknown("symbolic value of type %r" % (t,))

    def load(self, st, p, t):
        if not isinstance(p, Ptr):
            raise Unknown("load through %r" % (p,))
        if p.r is None:
            raise Unknown("null dereference")
        if isinstance(p.r, str):
            raise Unknown("load from function")
        reg = st.mem.get(p.r)
        if reg is None:
            raise Unknown("load from unknown region %s" % p.r)
        if reg.dead:
            raise Unknown("use after free/lifetime of %s" % reg.name)
        if t[0] in ('s', 'a'):
            from ir import offsets
            if t[0] == 's':
                of = offsets(t)
                return [self.load(st, Ptr(p.r, iadd(p.o, ic(of[i]))), et) for i, et in enumerate(t[1])]
            es = sizeof(t[2])
            return [self.load(st, Ptr(p.r, iadd(p.o, ic(i * es))), t[2]) for i in range(t[1])]
        sz = sizeof(t)
        if reg.stride:
            i, off = self.idx(reg, p.o)
            if st.reads is not None:
                st.reads.append((p.r, i))
            self.bounds(st, reg, i)
            v = self.fam_read(st, reg, i, off, sz, t)
        else:
            o = icst(p.o)
            if o is None:
                v = self.load_symoff(st, reg, p.o, t, sz)
            else:
                v = self.flat_read(st, reg, o, sz, t)
        if isinstance(v, Clobbered):
            raise Unknown("value not determined by the loop invariant: " + v.why)
        return self.coerce(v, t)

    def coerce(self, v, t):
        if t[0] == 'i' and isinstance(v, T):
            if t[1] == 1 and v.sort == 'I':
                return self.tobool(v)
            if t[1] > 1 and v.sort == 'B':
                return iite(v, I1, I0)
        if t[0] == 'd' and isinstance(v, T) and v.sort == 'I' and icst(v) == 0:
            return R0
        if t[0] == 'p' and isinstance(v, T) and v.sort == 'I' and icst(v) == 0:
            return NULL
        return v

    def load_symoff(self, st, reg, o, t, sz):
        """flat region of uniform cells indexed symbolically: case split by ite over the cells in range"""
        offs = sorted(k for k in reg.cells if isinstance(k, int) and reg.cells[k][0] == sz)
        if not offs or len(offs) > 64 or reg.base == 'sym':
            raise Unknown("symbolic offset %s in %s" % (o, reg.name))
        vals = [(k, reg.cells[k][1]) for k in offs]
        if not all(isinstance(v, T) for _, v in vals):
            raise Unknown("symbolic offset %s in %s" % (o, reg.name))
        # the address must be one of the cells
        if not entails(st.pc, bor(*[ieq(o, ic(k)) for k, _ in vals])):
            raise Unknown("address %s of %s not proved in bounds" % (o, reg.name))
        r = vals[-1][1]
        for k, v in reversed(vals[:-1]):
            c = ieq(o, ic(k))
            r = rite(c, v, r) if v.sort == 'R' else iite(c, v, r)
        return r

    def bounds(self, st, reg, i):
        """spatial safety obligation: 0 <= i < count"""
        if reg.count is None:
            return
        if isinstance(reg.count, tuple):
            c = self.table_bounds(reg.count, i)
        else:
            c = band(ile(I0, i), ilt(i, reg.count))
        self.nbounds = getattr(self, 'nbounds', 0) + 1
        if not entails(st.pc, c):
            if st.ghost.get('nobounds'):
                self.nbfail = getattr(self, 'nbfail', 0) + 1
                return
            self.oob(st, reg, i)

    def table_bounds(self, count, i):
        """row-major table of n rows and w columns: i = row*w + column with both in range"""
        n, w = count
        cw = icst(w)
        if cw is not None:
            return band(ile(I0, i), ilt(i, imul(n, w)))
        wa = w.args[0][0][0]
        row, col = I0, ic(i.args[1])
        for a, c in i.args[0]:
            x = iscale(mk('lin', 'I', ((a, 1),), 0), c)
            if a is wa:
                row = iadd(row, ic(c))
            elif a.op == 'imul' and w in a.args:
                row = iadd(row, iscale(a.args[1] if a.args[0] is w else a.args[0], c))
            else:
                col = iadd(col, x)
        return band(ile(I0, row), ilt(row, n), ile(I0, col), ilt(col, w))

    def oob(self, st, reg, i):
        raise Unknown("element index %s of %s not proved within [0,%s)" % (i, reg.name, reg.count))

    def flat_read(self, st, reg, o, sz, t):
        c = reg.cells.get(o)
        if c is not None and (c[0] == sz or (c[0] == 1 and sz == 1)):
            return c[1]
        if c is not None and isinstance(c[1], T) and c[1].sort == 'I' and sz < c[0]:
            return c[1]     # low part of a small integer
        if ('cstr', o) in reg.cells and sz == 1:
            return ic(reg.cells[('cstr', o)][0])
        if sz == 1:
            for k in reg.cells:
                if isinstance(k, tuple) and k[0] == 'cstr' and k[1] <= o < k[1] + len(reg.cells[k]):
                    return ic(reg.cells[k][o - k[1]])
        if reg.base == 'zero':
            return self.zero(t)
        if reg.base == 'sym':
            ov = [k for k in reg.cells if isinstance(k, int) and k < o + sz and o < k + reg.cells[k][0]]
            if ov:
                raise Unknown("partial read of %s+%d" % (reg.name, o))
            kind = None
            if reg.layout and o in reg.layout:
                kind = reg.layout[o][1]
            if t[0] == 'p':
                raise Unknown("unspecified pointer at %s+%d (%s)" % (reg.name, o, reg.names.get(o)))
            if kind is None:
                kind = self.tykind(t)
            v = self.fresh_of(kind, reg.names.get(o, "%s+%d" % (reg.name, o)))
            # deterministic lazy initialisation: the name determines the value, no need to store
            return v
        if c is not None:
            raise Unknown("partial read of %s+%d" % (reg.name, o))
        return UNDEF

    def fam_read(self, st, reg, i, off, sz, t, start=None):
        n = len(reg.log) if start is None else start
        while n > 0:
            n -= 1
            e = reg.log[n]
            if e[0] == 'pt':
                if e[2] != off:
                    if e[2] < off + sz and off < e[2] + e[3] and ieq(e[1], i) is not FALSE:
                        raise Unknown("partial read in %s" % reg.name)
                    continue
                c = ieq(e[1], i)
                if c is TRUE:
                    return e[4]
                if c is FALSE:
                    continue
                if entails(st.pc, c):
                    return e[4]
                if entails(st.pc, bnot(c)):
                    continue
                return self.ite(c, e[4], self.fam_read(st, reg, i, off, sz, t, n))
            if e[0] == 'map':
                _, kv, lo, hi, m = e
                if off not in m:
                    continue
                v = m[off][1]
                c = band(ile(lo, i), ilt(i, hi))
                if c is FALSE:
                    continue
                val = subst(v, {kv: i}) if isinstance(v, T) else v
                if c is TRUE or entails(st.pc, c):
                    return val
                if entails(st.pc, bnot(c)):
                    continue
                return self.fite(st, c, val, self.fam_read(st, reg, i, off, sz, t, n))
            if e[0] == 'copy':
                _, lo, cnt, src, slo = e
                c = band(ile(lo, i), ilt(i, iadd(lo, cnt)))
                if c is FALSE:
                    continue
                si = iadd(isub(i, lo), slo)
                if c is TRUE or entails(st.pc, c):
                    return self.fam_read(st, src, si, off, sz, t)
                if entails(st.pc, bnot(c)):
                    continue
                return self.fite(st, c, self.fam_read(st, src, si, off, sz, t), self.fam_read(st, reg, i, off, sz, t, n))
        if reg.layout and off in reg.layout and isinstance(reg.layout[off][1], int):
            return ic(reg.layout[off][1])
        if reg.base == 'zero':
            return self.zero(t)
        if reg.base == 'sym':
            kind = reg.layout[off][1] if reg.layout and off in reg.layout else self.tykind(t)
            if t[0] == 'p':
                if callable(reg.fam):
                    return reg.fam(self, st, reg, i, off)
                raise Unknown("pointer element of %s" % reg.name)
            if kind == 'R':
                return relem(reg.fam, i, off)
            if kind == 'B':
                return iite(mk('belem', 'B', reg.fam, i, off), I1, I0)
            return iatom('ielem', reg.fam, i, off)
        return UNDEF

    def fite(self, st, c, a, b):
        """conditional array contents; during loop discovery (no bounds known) prefer the initialised part"""
        if st.ghost.get('nobounds') and (a is UNDEF or b is UNDEF):
            self.nbfail = getattr(self, 'nbfail', 0) + 1
            return b if a is UNDEF else a
        return self.ite(c, a, b)

    def ite(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == 'R' and b.sort == 'R':
                return rite(c, a, b)
            if a.sort == 'I' and b.sort == 'I':
                return iite(c, a, b)
            if a.sort == 'B' and b.sort == 'B':
                return bite(c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
            return a
        if a is UNDEF or b is UNDEF:
            return Clobbered("conditionally uninitialised")
        raise Unknown("conditional value of %r / %r" % (a, b))

    def store(self, st, p, v, t):
        if not isinstance(p, Ptr) or p.r is None or isinstance(p.r, str):
            raise Unknown("store through %r" % (p,))
        if st.mem[p.r].dead:
            raise Unknown("store to dead %s" % st.mem[p.r].name)
        if t[0] in ('s', 'a'):
            from ir import offsets
            if t[0] == 's':
                of = offsets(t)
                for i, et in enumerate(t[1]):
                    self.store(st, Ptr(p.r, iadd(p.o, ic(of[i]))), v[i], et)
            else:
                es = sizeof(t[2])
                for i in range(t[1]):
                    self.store(st, Ptr(p.r, iadd(p.o, ic(i * es))), v[i], t[2])
            return
        if t[0] == 'i' and t[1] == 1 and isinstance(v, T) and v.sort == 'B':
            v = iite(v, I1, I0)
        self.store_raw(st, p, v, sizeof(t))

    def store_raw(self, st, p, v, sz):
        reg = st.rw(p.r)
        if reg.stride:
            i, off = self.idx(reg, p.o)
            self.bounds(st, reg, i)
            self.fam_write(st, reg, i, off, sz, v)
        else:
            o = icst(p.o)
            if o is None:
                raise Unknown("store at symbolic offset of %s" % reg.name)
            self.flat_write(reg, o, sz, v)

    def flat_write(self, reg, o, sz, v):
        c = reg.cells.get(o)
        if c is None or c[0] != sz:
            for k in [k for k in reg.cells if isinstance(k, int) and k < o + sz and o < k + reg.cells[k][0]]:
                del reg.cells[k]
        reg.cells[o] = (sz, v)
        if ('g', o) in reg.cells:
            del reg.cells[('g', o)]

    def fam_write(self, st, reg, i, off, sz, v):
        log = reg.log
        # overwrite an earlier write to the same place when nothing in between can alias
        n = len(log)
        while n > 0 and n > len(log) - 600:
            n -= 1
            e = log[n]
            if e[0] != 'pt':
                break
            if e[2] == off:
                c = ieq(e[1], i)
                if c is TRUE:
                    reg.log = log[:n] + (('pt', i, off, sz, v),) + log[n + 1:]
                    return
                if c is not FALSE:
                    break
        reg.log = log + (('pt', i, off, sz, v),)

    # ------------------------------------------------------------ bulk copies
    def elem_offsets(self, reg):
        """(off,size) cells that make up one element of a strided region"""
        if reg.layout:
            return [(o, s) for o, (s, k) in sorted(reg.layout.items())]
        return [(o, 8) for o in range(0, reg.stride, 8)]

    TY = {8: ('i', 64), 4: ('i', 32), 1: ('i', 8)}

    def kind_ty(self, kind, size):
        if kind == 'R':
            return ('d',)
        if kind == 'P':
            return PTR
        return self.TY[size]

    def memcpy(self, st, dst, src, n):
        cn = icst(n)
        if cn == 0:
            return
        if dst.r is None or src.r is None:
            if entails(st.pc, ieq(n, I0)):
                return
            raise Unknown("memcpy null")
        sr, dr = st.mem[src.r], st.mem[dst.r]
        if cn is not None:
            cells = self.collect(st, sr, src.o, cn)
            for d, (sz, v) in cells:
                self.store_raw(st, Ptr(dst.r, iadd(dst.o, ic(d))), v, sz)
            if not dr.stride and not sr.stride:
                self.copy_ghosts(st, dst, src, cn)
            return
        if sr.stride and dr.stride and sr.stride == dr.stride:
            si, so = self.idx(sr, src.o)
            di, do = self.idx(dr, dst.o)
            if so or do:
                raise Unknown("unaligned block copy")
            for a, c in n.args[0]:
                if c % sr.stride:
                    raise Unknown("block copy of %s bytes" % n)
            if n.args[1] % sr.stride:
                raise Unknown("block copy of %s bytes" % n)
            cnt = mk('lin', 'I', tuple((a, c // sr.stride) for a, c in n.args[0]), n.args[1] // sr.stride)
            if dr.count is not None and not entails(st.pc, ile(iadd(di, cnt), dr.count)):
                self.oob(st, dr, iadd(di, cnt))
            if sr.count is not None and not entails(st.pc, ile(iadd(si, cnt), sr.count)):
                self.oob(st, sr, iadd(si, cnt))
            st.own.discard(src.r)
            if st.reads is not None:
                st.reads.append((src.r, fresh('range')))
            dr = st.rw(dst.r)
            if di is I0 and dr.count is cnt:
                dr.log = ()
            dr.log = dr.log + (('copy', di, cnt, sr, si),)
            return
        raise Unknown("memcpy of symbolic size %s (%s -> %s)" % (n, sr.name, dr.name))

    def collect(self, st, sr, o, n):
        """cells in [o,o+n) of region sr relative to o"""
        out = []
        if sr.stride:
            i, off = self.idx(sr, o)
            self.bounds(st, sr, i)
            if st.reads is not None:
                st.reads.append((sr.id, i))
            d = 0
            eo = self.elem_offsets(sr)
            while d < n:
                for (x, s) in eo:
                    pos = d + x - off if d == 0 else d + x
                    # element-relative scan
                j = 0
                for (x, s) in eo:
                    rel = x - off
                    if 0 <= rel < n:
                        out.append((rel, (s, self.fam_read(st, sr, i, x, s, self.kind_ty(sr.layout[x][1] if sr.layout and not isinstance(sr.layout[x][1], int) else ('R' if not sr.layout else 'I'), s)))))
                d = sr.stride - off
                if d < n:
                    # further whole elements
                    rest = n - d
                    if rest % sr.stride and rest > sr.stride:
                        raise Unknown("block copy across elements")
                    e = 1
                    while d < n:
                        for (x, s) in eo:
                            if d + x < n:
                                out.append((d + x, (s, self.fam_read(st, sr, iadd(i, ic(e)), x, s, self.kind_ty(sr.layout[x][1] if sr.layout and not isinstance(sr.layout[x][1], int) else ('R' if not sr.layout else 'I'), s)))))
                        d += sr.stride
                        e += 1
                break
            return out
        c0 = icst(o)
        if c0 is None:
            raise Unknown("block copy at symbolic offset")
        if sr.base in ('sym', 'zero'):
            lay = sr.layout
            if lay is None and sr.base == 'sym':
                lay = {x: (8, 'R') for x in range(c0 - c0 % 8, c0 + n, 8)}
            if lay is not None:
                for x, (s, kind) in lay.items():
                    if c0 <= x and x + s <= c0 + n and x not in sr.cells:
                        if kind == 'P':
                            continue
                        out.append((x - c0, (s, self.flat_read(st, sr, x, s, self.kind_ty(kind if not isinstance(kind, int) else 'I', s)))))
            elif sr.base == 'zero':
                for x in range(c0, c0 + n, 8):
                    if x not in sr.cells:
                        out.append((x - c0, (8, I0)))
        for x, c in sr.cells.items():
            if isinstance(x, int) and c0 <= x and x + c[0] <= c0 + n:
                out.append((x - c0, c))
            elif isinstance(x, int) and x < c0 + n and c0 < x + c[0]:
                raise Unknown("partial cell in block copy of %s" % sr.name)
        return out

    def copy_ghosts(self, st, dst, src, n):
        sr = st.mem[src.r]
        s0, d0 = icst(src.o), icst(dst.o)
        for k, v in list(sr.cells.items()):
            if isinstance(k, tuple) and k[0] in ('g',) and s0 <= k[1] < s0 + n:
                st.rw(dst.r).cells[('g', k[1] - s0 + d0)] = v
            if isinstance(k, tuple) and k[0] == 'cstr' and s0 <= k[1] < s0 + n:
                st.rw(dst.r).cells[('cstr', k[1] - s0 + d0)] = v

    def memset(self, st, dst, v, n):
        cn = icst(n)
        if icst(v) != 0:
            raise Unknown("memset nonzero")
        reg = st.rw(dst.r)
        if cn is None:
            if reg.stride:
                i, off = self.idx(reg, dst.o)
                cnt = idiv(n, reg.stride)
                reg.log = reg.log + (('map', ivar('$z'), i, iadd(i, cnt), {o: (s, R0 if not reg.layout or reg.layout[o][1] == 'R' else I0) for o, s in self.elem_offsets(reg)}),)
                return
            raise Unknown("memset of symbolic size")
        if reg.stride:
            i, off = self.idx(reg, dst.o)
            for o, s in self.elem_offsets(reg):
                if off <= o < off + cn:
                    self.fam_write(st, reg, i, o, s, R0 if not reg.layout or reg.layout[o][1] == 'R' else I0)
            return
        o = icst(dst.o)
        if cn % 8 == 0 and cn <= 65536:
            for x in range(o, o + cn, 8):
                self.flat_write(reg, x, 8, I0)
        else:
            for x in range(o, o + cn):
                self.flat_write(reg, x, 1, I0)

    # ------------------------------------------------------------ scalars
    def tobool(self, x):
        """integer (0/1) -> Bool"""
        if x is UNDEF:
            raise Unknown("undefined boolean")
        if x.sort == 'B':
            return x
        return bnot(ieq(x, I0))

    def op(self, fr, st, v, t):
        k = v[0]
        if k == 'l':
            return fr.regs[v[1]]
        return self.const(st, v, t, fr.fn.mod)

    def ibin(self, op, a, b, t, fl, st):
        if isinstance(a, NotPtr) or isinstance(b, NotPtr):
            # end + ~begin = end - begin - 1
            x, y = (a, b) if isinstance(b, NotPtr) else (b, a)
            if op == 'add' and isinstance(x, Ptr) and x.r == y.p.r:
                return isub(isub(x.o, y.p.o), I1)
            raise Unknown("integer op %s on a complemented address" % op)
        if op == 'xor' and isinstance(a, Ptr) and isinstance(b, T) and icst(b) in (-1, 2 ** 64 - 1):
            return NotPtr(a)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # pointer difference / integer arithmetic on addresses
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    return isub(a.o, b.o)
                raise Unknown("difference of pointers into %s and %s" % (a, b))
            if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, T):
                return Ptr(a.r, iadd(a.o, b) if op == 'add' else isub(a.o, b))
            if op == 'add' and isinstance(b, Ptr):
                return Ptr(b.r, iadd(b.o, a))
            raise Unknown("integer op %s on address" % op)
        if a is UNDEF or b is UNDEF:
            raise Unknown("arithmetic on undefined value")
        if t == ('i', 1):
            if op == 'and' or op == 'mul':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                return bnot(beq(a, b))
            raise Unknown("i1 " + op)
        if a.sort != 'I' or b.sort != 'I':
            raise Unknown("integer op on non-integer")
        ca, cb = icst(a), icst(b)
        if op == 'add':
            return iadd(a, b)
        if op == 'sub':
            return isub(a, b)
        if op == 'mul':
            return imul(a, b)
        if op == 'shl' and cb is not None:
            return iscale(a, 1 << cb)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr') and cb is not None:
            d = cb if 'div' in op else 1 << cb
            if d > 0:
                if ca is not None:
                    q = abs(ca) // d
                    return ic(q if ca >= 0 else -q) if op == 'sdiv' else ic(ca // d)
                if op == 'sdiv' and 'exact' not in fl and not entails(st.pc, ile(I0, a)):
                    raise Unknown("sdiv of possibly negative")
                if op in ('udiv', 'lshr') and t[0] == 'i':
                    u = self.unsig(a, t[1], st)
                    if u is not a and op == 'lshr' and cb == t[1] - 1:
                        return iite(ile(I0, a), I0, I1) if not entails(st.pc, ilt(a, I0)) else I1
                    a = u
                return idiv(a, d)
        if op in ('srem', 'urem') and cb is not None and cb > 0:
            if ca is not None:
                return ic(ca - cb * int(ca / cb))
            if t[0] == 'i' and entails(st.pc, ile(I0, a)):
                return isub(a, iscale(idiv(a, cb), cb))
            return iatom('imod', a, cb)
        if op == 'and':
            if ca is not None and cb is not None:
                return ic(ca & cb)
            if cb == 1:
                if len(a.args[0]) == 1 and a.args[0][0][0].op == 'iite' and a.args[0][0][1] == 1 and a.args[1] == 0:
                    return a
                return iatom('imod', a, 2)
            if a is b:
                return a
            if cb in (0xffffffff, 0x7fffffff):
                return a        # trunc to 32 bits and back: value preserving (stated assumption)
        if op == 'or':
            if ca is not None and cb is not None:
                return ic(ca | cb)
            if 'disjoint' in fl:
                return iadd(a, b)
            if ca == 0:
                return b
            if cb == 0:
                return a
        if op == 'xor':
            if ca is not None and cb is not None:
                return ic(ca ^ cb)
            if cb == -1:
                return isub(ic(-1), a)
            if cb == 1 and len(a.args[0]) == 1 and a.args[0][0][0].op == 'iite':
                return isub(I1, a)
        if op in ('sdiv', 'udiv', 'srem', 'urem') and ca is not None and cb:
            q = abs(ca) // abs(cb)
            q = q if (ca >= 0) == (cb > 0) else -q
            return ic(q) if 'div' in op else ic(ca - q * cb)
        return iatom('ibin_' + op, a, b)

    def icmp(self, pred_, a, b, t, st):
        if a is UNDEF or b is UNDEF:
            raise Unknown("comparison of undefined value")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, T):
                a = NULL if icst(a) == 0 else a
            if isinstance(b, T):
                b = NULL if icst(b) == 0 else b
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                raise Unknown("pointer/integer comparison")
            if a.r == b.r:
                if pred_ == 'eq':
                    return ieq(a.o, b.o)
                if pred_ == 'ne':
                    return bnot(ieq(a.o, b.o))
                x, y = a.o, b.o
                return {'ult': ilt(x, y), 'ule': ile(x, y), 'ugt': ilt(y, x), 'uge': ile(y, x),
                        'slt': ilt(x, y), 'sle': ile(x, y), 'sgt': ilt(y, x), 'sge': ile(y, x)}[pred_]
            if pred_ in ('eq', 'ne'):
                c = FALSE
                if a.r is None or b.r is None:
                    q = b if a.r is None else a
                    if not isinstance(q.r, str):
                        nc = st.mem[q.r].nullcond
                        if nc is not None:
                            c = nc
                return c if pred_ == 'eq' else bnot(c)
            raise Unknown("ordering of pointers into different objects")
        if t == ('i', 1):
            if pred_ == 'eq':
                return beq(a, b)
            if pred_ == 'ne':
                return bnot(beq(a, b))
            raise Unknown("i1 icmp")
        if a.sort == 'B':
            a = iite(a, I1, I0)
        if b.sort == 'B':
            b = iite(b, I1, I0)
        if a.sort == 'R' or b.sort == 'R':
            raise Unknown("integer comparison of reals")
        if pred_ == 'eq':
            return ieq(a, b)
        if pred_ == 'ne':
            return bnot(ieq(a, b))
        if pred_[0] == 'u':
            bits = t[1]
            ca, cb = icst(a), icst(b)
            if ca is not None and ca < 0:
                a = ic(ca + (1 << bits))
            if cb is not None and cb < 0:
                b = ic(cb + (1 << bits))
            a, b = self.unsig(a, bits, st), self.unsig(b, bits, st)
        x = {'lt': ilt(a, b), 'le': ile(a, b), 'gt': ilt(b, a), 'ge': ile(b, a)}[pred_[1:]]
        return x

    def unsig(self, a, bits, st):
        if icst(a) is not None:
            return a
        if all(k > 0 for _, k in a.args[0]) and a.args[1] >= 0 and all(self.nonneg_atom(x) for x, _ in a.args[0]):
            return a
        c = ile(I0, a)
        if entails(st.pc, c):
            return a
        if entails(st.pc, bnot(c)):
            return iadd(a, ic(1 << bits))
        return iite(c, a, iadd(a, ic(1 << bits)))

    def nonneg_atom(self, x):
        return x.op in ('imod',) or (x.op == 'iv' and x.args[0] in self.nonneg)

    nonneg = set()

    def fcmp(self, p, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unknown("comparison of undefined value")
        if p == 'ord':
            return TRUE
        if p == 'uno':
            return FALSE
        if p == 'true':
            return TRUE
        if p == 'false':
            return FALSE
        q = p[1:]
        if getattr(self, 'track_finite', False) and p in ('ueq', 'one') and b.op == 'rspecial' and float(b.args[0]) == float('inf') and a.op != 'rspecial':
            c = pred('finite', a)          # isfinite(): |x| neither infinite nor NaN
            return bnot(c) if p == 'ueq' else c
        if a.op == 'rspecial' or b.op == 'rspecial':
            if a.op == 'rspecial' and a.args[0] == 'nan' or b.op == 'rspecial' and b.args[0] == 'nan':
                return TRUE if p[0] == 'u' else FALSE
            if a.op == 'rspecial' and b.op == 'rspecial':
                va, vb = float(a.args[0]), float(b.args[0])
            else:
                va = float(a.args[0]) if a.op == 'rspecial' else 0.0
                vb = float(b.args[0]) if b.op == 'rspecial' else 0.0
            r = {'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'le': va <= vb, 'gt': va > vb, 'ge': va >= vb}[q]
            return TRUE if r else FALSE
        if q == 'eq':
            return req(a, b)
        if q == 'ne':
            return bnot(req(a, b))
        return {'lt': rlt(a, b), 'le': rle(a, b), 'gt': rlt(b, a), 'ge': rle(b, a)}[q]

    # ------------------------------------------------------------ control
    def push(self, st, fn, args, call=None):
        f = Frame()
        f.fn = fn
        f.blk = fn.blocks[fn.entry]
        f.ip = 0
        f.regs = {}
        f.loops = {}
        f.allocas = []
        f.call = call
        for (t, n), a in zip(fn.params, args):
            f.regs[n] = a
        st.frames.append(f)
        if len(st.frames) > 60:
            raise Unknown("call depth")
        self.stats['functions'].add(fn.name)
        return f

    def call(self, st, name, args, mod=None):
        """run function `name` to completion from st -> list of Outcome"""
        fn = self.prog.find(name, mod)
        if fn is None:
            raise Unknown("no definition of " + name)
        base = len(st.frames)
        self.push(st, fn, args)
        return self.run([st], base)

    def run(self, work, base, loopctx=None):
        """run states until frame depth drops to base, or (loopctx) the loop is left / a back edge is taken"""
        out = []
        work = list(work)
        while work:
            st = work.pop()
            r = self.step_path(st, work, base, loopctx)
            if r is not None:
                out.append(r)
                self.stats['paths'] += 1
                if len(out) > self.MAXPATHS:
                    raise Unknown("too many paths")
        return out

    def step_path(self, st, work, base, loopctx):
        while True:
            fr = st.frames[-1]
            ins = fr.blk.instrs[fr.ip]
            self.stats['instr'] += 1
            op = ins.op
            try:
                r = getattr(self, 'x_' + op)(st, fr, ins, work, base, loopctx)
            except Unknown as e:
                if not getattr(e, 'where', None):
                    e.where = "%s: %s" % (fr.fn.name, ins.text.strip()[:160])
                raise
            if r is None:
                continue
            if r is DROP_:
                return None
            return r

    def goto(self, st, target, loopctx=None, depth=None):
        """transfer control in the top frame; returns Outcome 'stop' when the loop context says so"""
        fr = st.frames[-1]
        prev = fr.blk.name
        blk = fr.fn.blocks[target]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                v = ph.a[prev]
                vals.append((ph.res, self.op(fr, st, v, ph.ty)))
            for n, v in vals:
                fr.regs[n] = v
        fr.blk = blk
        fr.ip = 0
        if loopctx is not None and len(st.frames) == loopctx[0]:
            _, header, body = loopctx
            if target == header:
                return Outcome('stop', st, info=('back', target, prev))
            if target not in body:
                return Outcome('stop', st, info=('exit', target, prev))
        # loop bookkeeping
        if fr.loops:
            for h in [h for h, rec in fr.loops.items() if target not in rec.body]:
                del fr.loops[h]
        if target in fr.fn.loops:
            rec = fr.loops.get(target)
            if rec is None or prev not in rec.body:
                rec = LoopRec()
                rec.header = target
                rec.body = fr.fn.loops[target]
                rec.iters = 0
                rec.done = False
                rec.nosum = self.nosum
                rec.snap = None
                fr.loops[target] = rec
                rec.snap = st.clone()
            else:
                n = LoopRec()
                n.header, n.body, n.snap, n.done, n.nosum = rec.header, rec.body, rec.snap, rec.done, rec.nosum
                n.iters = rec.iters + 1
                fr.loops[target] = n
                if n.iters > self.MAXUNROLL:
                    raise Unknown("loop %s of %s unrolled more than %d times" % (target, fr.fn.name, self.MAXUNROLL))
        return None

    def x_jmp(self, st, fr, ins, work, base, lc):
        return self.goto(st, ins.a, lc)

    def decide(self, st, c):
        """True/False/None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        pcs = st.pc
        if c in pcs:
            return True
        n = bnot(c)
        if n in pcs:
            return False
        if entails(pcs, c):
            return True
        if entails(pcs, n):
            return False
        return None

    def is_int_cond(self, c):
        if c.op in ('ile', 'ieq'):
            return not any(x.op == 'f2i' for x, _ in c.args[0].args[0])
        if c.op in ('not', 'and', 'or'):
            return all(self.is_int_cond(x) for x in c.args)
        return False

    def x_br(self, st, fr, ins, work, base, lc):
        c = self.op(fr, st, ins.a[0], ('i', 1))
        if c is UNDEF:
            raise Unknown("branch on undefined value")
        c = self.tobool(c)
        d = self.decide(st, c)
        if d is True:
            return self.goto(st, ins.a[1], lc)
        if d is False:
            return self.goto(st, ins.a[2], lc)
        # undecided: loop exit?
        if fr.loops and self.is_int_cond(c):
            b = fr.blk.name
            best = None
            for h, rec in fr.loops.items():
                if b in rec.body and (ins.a[1] not in rec.body or ins.a[2] not in rec.body):
                    if best is None or len(rec.body) < len(best.body):
                        best = rec
            if best is not None and not best.nosum and not (lc is not None and lc[0] == len(st.frames) and lc[1] == best.header):
                if best.done:
                    return DROP_
                res = self.summarise(st, best, len(st.frames), lc)
                work.extend(res)
                return DROP_
        s2 = st.clone()
        st.assume(c)
        s2.assume(bnot(c))
        r2 = self.goto(s2, ins.a[2], lc)
        if r2 is not None:
            self.pending_out(work, r2)
        else:
            work.append(s2)
        return self.goto(st, ins.a[1], lc)

    def pending_out(self, work, outcome):
        # an outcome produced while forking: wrap as a finished state
        work.append(_Done(outcome))

    def x_switch(self, st, fr, ins, work, base, lc):
        v = self.op(fr, st, ins.a[0], ins.ty)
        if v is UNDEF:
            raise Unknown("switch on undefined value")
        if v.sort == 'B':
            v = iite(v, I1, I0)
        live = []
        rest = []
        for cv, tgt in ins.a[2]:
            c = ieq(v, ic(cv))
            d = self.decide(st, c)
            if d is True:
                return self.goto(st, tgt, lc)
            if d is None:
                live.append((c, tgt))
                rest.append(bnot(c))
        for c, tgt in live:
            s2 = st.clone()
            s2.assume(c)
            if not feasible(s2.pc):
                continue
            r = self.goto(s2, tgt, lc)
            work.append(_Done(r) if r is not None else s2)
        for x in rest:
            st.assume(x)
        if live and not feasible(st.pc):
            return DROP_
        return self.goto(st, ins.a[1], lc)

    def x_ret(self, st, fr, ins, work, base, lc):
        v = None
        if ins.a is not None:
            v = self.op(fr, st, ins.a, ins.ty)
        return self.do_ret(st, v, work, base, lc)

    def do_ret(self, st, v, work, base, lc):
        fr = st.frames[-1]
        if lc is not None and len(st.frames) == lc[0]:
            return Outcome('stop', st, value=v, info=('ret', None, None))
        for a in fr.allocas:
            r = st.rw(a)
            r.dead = True
            r.cells = {}
        st.frames.pop()
        if len(st.frames) == base:
            return Outcome('ret', st, value=v)
        return self.after_call(st, v, lc)

    def after_call(self, st, v, lc):
        fr = st.frames[-1]
        ins = fr.blk.instrs[fr.ip]
        if ins.res is not None:
            fr.regs[ins.res] = v
        if ins.op == 'invoke':
            return self.goto(st, ins.a[2], lc)
        fr.ip += 1
        return None

    def x_unreachable(self, st, fr, ins, work, base, lc):
        raise Unknown("unreachable instruction reached")

    # ---- exceptions
    def throw(self, st, exc, base, lc):
        """unwind with exc=(typeinfo, Ptr); the top frame is the one whose current instruction raised"""
        st.exc = exc
        while True:
            fr = st.frames[-1]
            ins = fr.blk.instrs[fr.ip]
            if ins.op == 'invoke':
                lp = fr.fn.blocks[ins.a[3]].instrs[0]
                assert lp.op == 'landingpad'
                cleanup, clauses = lp.a
                hit = None
                for k, cl in clauses:
                    if k != 'catch':
                        hit = ('filter', None)
                        break
                    if cl[0] == 'null' or self.catches(cl[1], exc[0]):
                        hit = cl
                        break
                if hit is not None or cleanup:
                    sel = 0 if hit is None else (1 if hit[0] == 'null' else self.typeid(hit[1]))
                    st.ghost['sel'] = (exc, sel)
                    return self.goto(st, ins.a[3], lc)
            if lc is not None and len(st.frames) == lc[0]:
                return Outcome('stop', st, exc=exc, info=('throw', None, None))
            for a in fr.allocas:
                r = st.rw(a)
                r.dead = True
                r.cells = {}
            st.frames.pop()
            if len(st.frames) == base:
                return Outcome('throw', st, exc=exc)

    _tid = {}

    def typeid(self, n):
        return self._tid.setdefault(n, len(self._tid) + 2)

    def catches(self, clause, thrown):
        x = thrown
        for _ in range(12):
            if x == clause:
                return True
            x = self.lib.exc_base(self, x)
            if x is None:
                return False
        return False

    def x_landingpad(self, st, fr, ins, work, base, lc):
        exc, sel = st.ghost['sel']
        fr.regs[ins.res] = [Ptr('exc', I0) if exc[1] is None else exc[1], ic(sel)]
        st.exc = exc
        fr.ip += 1

    def x_resume(self, st, fr, ins, work, base, lc):
        if lc is not None and len(st.frames) == lc[0]:
            return Outcome('stop', st, exc=st.exc, info=('throw', None, None))
        for a in fr.allocas:
            r = st.rw(a)
            r.dead = True
            r.cells = {}
        st.frames.pop()
        if len(st.frames) == base:
            return Outcome('throw', st, exc=st.exc)
        return self.throw(st, st.exc, base, lc)

    # ---- simple instructions
    def x_alloca(self, st, fr, ins, work, base, lc):
        if ins.a is not None:
            n = icst(self.op(fr, st, ins.a[1], ins.a[0]))
            if n is None:
                raise Unknown("variable length array")
        else:
            n = 1
        r = self.alloc(st, "%s.%s" % (fr.fn.name[:40], ins.res), size=sizeof(ins.ty) * n)
        fr.allocas.append(r.id)
        fr.regs[ins.res] = Ptr(r.id, I0)
        fr.ip += 1

    def x_load(self, st, fr, ins, work, base, lc):
        p = self.op(fr, st, ins.a, PTR)
        fr.regs[ins.res] = self.load(st, p, ins.ty)
        fr.ip += 1

    def x_store(self, st, fr, ins, work, base, lc):
        v = self.op(fr, st, ins.a[0], ins.ty)
        p = self.op(fr, st, ins.a[1], PTR)
        self.store(st, p, v, ins.ty)
        fr.ip += 1

    def x_getelementptr(self, st, fr, ins, work, base, lc):
        b, c, var = ins.a
        p = self.op(fr, st, b, PTR)
        if isinstance(p, T) and p.sort == 'I' and len(var) == 1 and var[0][0] == 1 and isinstance(self.op(fr, st, var[0][1], var[0][2]), Ptr):
            q = self.op(fr, st, var[0][1], var[0][2])       # constant + address
            fr.regs[ins.res] = Ptr(q.r, iadd(iadd(q.o, p), ic(c)))
            fr.ip += 1
            return
        if not isinstance(p, Ptr):
            raise Unknown("gep on %r" % (p,))
        o = p.o if c == 0 else iadd(p.o, ic(c))
        for sc, v, t in var:
            x = self.op(fr, st, v, t)
            if not isinstance(x, T) or x.sort != 'I':
                raise Unknown("gep index %r" % (x,))
            o = iadd(o, iscale(x, sc))
        fr.regs[ins.res] = Ptr(p.r, o)
        fr.ip += 1

    def x_ibin(self, st, fr, ins, work, base, lc):
        op, a, b, fl = ins.a
        fr.regs[ins.res] = self.ibin(op, self.op(fr, st, a, ins.ty), self.op(fr, st, b, ins.ty), ins.ty, fl, st)
        fr.ip += 1

    def x_fbin(self, st, fr, ins, work, base, lc):
        op, a, b = ins.a
        x = self.op(fr, st, a, ins.ty)
        y = self.op(fr, st, b, ins.ty) if b is not None else None
        fr.regs[ins.res] = self.fbin(op, x, y)
        fr.ip += 1

    def fbin(self, op, x, y):
        for v in (x, y):
            if v is None:
                continue
            if v is UNDEF or isinstance(v, Clobbered):
                raise Unknown("arithmetic on undefined value")
            if v.op == 'rspecial':
                if v.args[0] == 'nan':
                    return v
                raise Unknown("arithmetic on infinity")
        if op == 'fadd':
            return radd(x, y)
        if op == 'fsub':
            return rsub(x, y)
        if op == 'fmul':
            return rmul(x, y)
        if op == 'fdiv':
            return rdiv(x, y)
        if op == 'fneg':
            return rneg(x)
        if op == 'frem':
            return fn('fmod', x, y)
        raise Unknown(op)

    def x_icmp(self, st, fr, ins, work, base, lc):
        p, t, a, b = ins.a
        fr.regs[ins.res] = self.icmp(p, self.op(fr, st, a, t), self.op(fr, st, b, t), t, st)
        fr.ip += 1

    def x_fcmp(self, st, fr, ins, work, base, lc):
        p, t, a, b = ins.a
        fr.regs[ins.res] = self.fcmp(p, self.op(fr, st, a, t), self.op(fr, st, b, t))
        fr.ip += 1

    def x_select(self, st, fr, ins, work, base, lc):
        c = self.op(fr, st, ins.a[0], ('i', 1))
        a = self.op(fr, st, ins.a[1], ins.ty)
        b = self.op(fr, st, ins.a[2], ins.ty)
        if c is UNDEF:
            raise Unknown("select on undefined")
        d = self.decide(st, c) if c.op != 'bc' else c is TRUE
        if d is not None:
            fr.regs[ins.res] = a if d else b
            fr.ip += 1
            return
        if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort:
            fr.regs[ins.res] = self.ite(c, a, b)
            fr.ip += 1
            return
        s2 = st.clone()
        st.assume(c)
        fr.regs[ins.res] = a
        fr.ip += 1
        s2.assume(bnot(c))
        f2 = s2.frames[-1]
        f2.regs[ins.res] = b
        f2.ip += 1
        work.append(s2)

    def x_cast(self, st, fr, ins, work, base, lc):
        op, ft, v = ins.a
        x = self.op(fr, st, v, ft)
        fr.regs[ins.res] = self.cast(op, ft, ins.ty, x, st)
        fr.ip += 1

    def cast(self, op, ft, tt, x, st):
        if x is UNDEF:
            return UNDEF
        if op in ('zext', 'sext'):
            if isinstance(x, T) and x.sort == 'B':
                return iite(x, I1 if op == 'zext' else ic(-1), I0)
            if isinstance(x, T) and op == 'zext' and icst(x) is not None and icst(x) < 0:
                return ic(icst(x) + (1 << ft[1]))
            return x
        if op == 'trunc':
            if tt == ('i', 1):
                if isinstance(x, T) and icst(x) is not None:
                    return TRUE if icst(x) & 1 else FALSE
                if isinstance(x, T) and x.sort == 'I':
                    return self.tobool(iatom('imod', x, 2)) if not self.is01(x) else self.tobool(x)
            if isinstance(x, T) and icst(x) is not None:
                n = icst(x) & ((1 << tt[1]) - 1)
                if n >> (tt[1] - 1):
                    n -= 1 << tt[1]
                return ic(n)
            return x
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'inttoptr' and isinstance(x, T) and icst(x) == 0:
                return NULL
            return x
        if op in ('sitofp', 'uitofp'):
            if isinstance(x, T) and x.sort == 'B':
                return rite(x, R1, R0)
            return i2r(x)
        if op in ('fptosi', 'fptoui'):
            if x.op == 'rc':
                return ic(int(x.args[0]))
            if x.op == 'i2r':
                return x.args[0]
            if x.op == 'fn' and x.args[0] == 'round':
                # round(a/2), half away from zero, of an integer a >= 0
                at = list(i2rs(x.args[1]))
                if len(at) == 1 and x.args[1] is at[0] * 0.5 and entails(st.pc, ile(I0, at[0].args[0])):
                    return idiv(iadd(at[0].args[0], I1), 2)
            return iatom('f2i', x)
        if op in ('fpext', 'fptrunc'):
            return x
        raise Unknown("cast " + op)

    def is01(self, x):
        return len(x.args[0]) == 1 and x.args[0][0][0].op == 'iite' and x.args[0][0][1] == 1 and x.args[1] == 0 and \
            icst(x.args[0][0][0].args[1]) in (0, 1) and icst(x.args[0][0][0].args[2]) in (0, 1)

    def x_extractvalue(self, st, fr, ins, work, base, lc):
        v = self.op(fr, st, ins.a[0], ins.ty)
        for i in ins.a[1]:
            v = v[i]
        fr.regs[ins.res] = v
        fr.ip += 1

    def x_insertvalue(self, st, fr, ins, work, base, lc):
        v = self.op(fr, st, ins.a[0], ins.ty)
        t = ins.ty
        b = self.op(fr, st, ins.a[1], PTR) if ins.a[1][0] in ('l', 'null') else None
        if b is None:
            et = t
            for i in ins.a[2]:
                et = et[1][i] if et[0] == 's' else et[2]
            b = self.const(st, ins.a[1], et, fr.fn.mod)

        def ins_(v, idx):
            if not idx:
                return b
            if v is UNDEF:
                v = [UNDEF] * 2
            w = list(v)
            w[idx[0]] = ins_(w[idx[0]], idx[1:])
            return w
        fr.regs[ins.res] = ins_(v, ins.a[2])
        fr.ip += 1

    def x_freeze(self, st, fr, ins, work, base, lc):
        fr.regs[ins.res] = self.op(fr, st, ins.a, ins.ty)
        fr.ip += 1

    def x_fence(self, st, fr, ins, work, base, lc):
        fr.ip += 1

    def x_asm(self, st, fr, ins, work, base, lc):
        raise Unknown("inline assembly")

    def x_atomicrmw(self, st, fr, ins, work, base, lc):
        k, a, v = ins.a
        p = self.op(fr, st, a, PTR)
        x = self.load(st, p, ins.ty)
        y = self.op(fr, st, v, ins.ty)
        if k == 'add':
            n = iadd(x, y)
        elif k == 'sub':
            n = isub(x, y)
        elif k == 'xchg':
            n = y
        else:
            raise Unknown("atomicrmw " + k)
        self.store(st, p, n, ins.ty)
        fr.regs[ins.res] = x
        fr.ip += 1

    # ---- calls
    def x_invoke(self, st, fr, ins, work, base, lc):
        return self.do_call(st, fr, ins, work, base, lc)

    def x_call(self, st, fr, ins, work, base, lc):
        return self.do_call(st, fr, ins, work, base, lc)

    def do_call(self, st, fr, ins, work, base, lc):
        callee, cargs = ins.a[0], ins.a[1]
        if callee[0] == 'g':
            name = callee[1]
            mod = fr.fn.mod
        else:
            p = self.op(fr, st, callee, PTR)
            if not isinstance(p, Ptr) or not isinstance(p.r, str):
                raise Unknown("indirect call through %r" % (p,))
            name = p.r[3:]
            mod = fr.fn.mod
            if ':' in name:
                tu, name = name.split(':', 1)
                mod = self.prog.mods[tu]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.experimental') or name.startswith('llvm.invariant') \
                or name.startswith('llvm.dbg'):
            if name.startswith('llvm.lifetime'):
                p = self.op(fr, st, cargs[1][1], PTR)
                if isinstance(p, Ptr) and isinstance(p.r, int):
                    r = st.rw(p.r)
                    r.cells = {}
            fr.ip += 1
            return None
        args = [self.op(fr, st, v, t) for t, v in cargs]
        return self.invoke(st, name, mod, args, ins, work, base, lc)

    def invoke(self, st, name, mod, args, ins, work, base, lc):
        """dispatch: contract, intrinsic/library contract, FLAME definition"""
        h = self.contracts.get(name)
        if h is None and mod is not None:
            h = self.contracts.get(mod.name + ':' + name)
        if h is not None:
            self.stats['contract_calls'] += 1
            return self.finish_hook(st, h(self, st, args, name), ins, work, base, lc)
        if name.startswith('llvm.'):
            v = self.intrinsic(st, name, args)
            return self.after_call(st, v, lc)
        h = self.lib.lookup(name, mod)
        if h is not None:
            self.stats['lib'].add(name)
            return self.finish_hook(st, h(self, st, args, name), ins, work, base, lc)
        fn = self.prog.find(name, mod)
        if fn is None:
            raise Unknown("external function without contract: " + self.lib.dem(name))
        self.push(st, fn, args)
        return None

    def finish_hook(self, st, r, ins, work, base, lc):
        """hook result: value | Throw | Fork[list of (state,value|Throw)]"""
        if isinstance(r, Throw):
            return self.throw(st, (r.ti, r.obj), base, lc)
        if isinstance(r, Fork):
            for s2, v in r.alts:
                if isinstance(v, Throw):
                    o = self.throw(s2, (v.ti, v.obj), base, lc)
                else:
                    o = self.after_call(s2, v, lc)
                work.append(_Done(o) if o is not None else s2)
            return DROP_
        if isinstance(r, Enter):
            self.push(st, r.fn, r.args)
            return None
        return self.after_call(st, r, lc)

    def intrinsic(self, st, name, args):
        p = name.split('.')
        k = p[1]
        if k in ('sqrt', 'sin', 'cos', 'pow', 'fabs', 'exp', 'log', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'log10'):
            return self.math(k, args)
        if k == 'powi':
            n = icst(args[1])
            if n is None:
                raise Unknown("powi")
            return rpow(args[0], n)
        if k == 'copysign':
            a = fn('fabs', args[0])
            if args[1].op == 'rc':
                return a if args[1].args[0] >= 0 else rneg(a)
            return rite(rle(R0, args[1]), a, rneg(a))
        if k == 'maxnum':
            return rite(rle(args[1], args[0]), args[0], args[1])
        if k == 'minnum':
            return rite(rle(args[0], args[1]), args[0], args[1])
        if k in ('umax', 'smax'):
            return iite(ile(args[1], args[0]), args[0], args[1])
        if k in ('umin', 'smin'):
            return iite(ile(args[0], args[1]), args[0], args[1])
        if k == 'abs':
            return iite(ile(I0, args[0]), args[0], iscale(args[0], -1))
        if k == 'expect':
            return args[0]
        if k == 'assume':
            if args[0] is not UNDEF and args[0] is not TRUE:
                st.assume(args[0])
            return None
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if k == 'memset':
            self.memset(st, args[0], args[1], args[2])
            return None
        if k == 'eh':
            if isinstance(args[0], Ptr) and args[0].r is None:
                return ic(1)
            n = args[0].r
            if isinstance(n, int):
                n = st.mem[n].tag[1]
            elif isinstance(n, str):
                n = n[3:]
            return ic(self.typeid(n))
        if k in ('minnum', 'maxnum'):
            c = rle(args[0], args[1])
            return rite(c, args[0], args[1]) if k == 'minnum' else rite(c, args[1], args[0])
        if k in ('fmuladd', 'fma'):
            return radd(rmul(args[0], args[1]), args[2])
        if k == 'trap':
            raise Unknown("trap reached")
        raise Unknown("intrinsic " + name)

    def math(self, k, args):
        for a in args:
            if not isinstance(a, T):
                raise Unknown("math on %r" % (a,))
            if a.op == 'rspecial':
                if a.args[0] == 'nan':
                    return a
                raise Unknown("math on inf")
        return fn(k, *args)

    # ------------------------------------------------------------ loop invariants
    def locs_of_phis(self, st, header):
        return [ph.res for ph in st.frames[-1].fn.blocks[header].phis]

    def summarise(self, st_now, rec, depth, outer_lc):
        """replace the loop by its inductive summary; returns continuation states"""
        self.stats['loops'] += 1
        rec.done = True
        S0 = rec.snap
        fn_ = S0.frames[-1].fn
        header, body = rec.header, rec.body
        phis = self.locs_of_phis(S0, header)
        init = {('reg', n): S0.frames[-1].regs[n] for n in phis}
        k = ivar(fresh('k'))
        self.nonneg = self.nonneg | {k.args[0][0][0].args[0]}
        cells = set()         # (rid, off) flat cells modified by the body
        lc = (depth, header, body)

        def start(closed, kterm, fams):
            s = S0.clone()
            s.frames[-1].loops = {h: r for h, r in s.frames[-1].loops.items() if h != header}
            s.reads = []
            for (kind, *rest), v in closed.items():
                if kind == 'reg':
                    s.frames[-1].regs[rest[0]] = v
                else:
                    rid, off = rest
                    reg = s.rw(rid)
                    old = reg.cells.get(off)
                    if isinstance(off, tuple):
                        reg.cells[off] = v
                    else:
                        reg.cells[off] = (old[0] if old else 8, v)
            for rid, (kv, e0, m, down) in fams.items():
                reg = s.rw(rid)
                lo, hi = (iadd(isub(e0, kterm), I1), iadd(e0, I1)) if down else (e0, iadd(e0, kterm))
                reg.log = reg.log + (('map', kv, lo, hi, m),)
            return s

        def havoc(loc, v):
            if isinstance(v, Ptr):
                if isinstance(v.r, int) and S0.mem[v.r].stride:
                    return Ptr(v.r, iadd(v.o, iscale(ivar(fresh('hp')), S0.mem[v.r].stride)))
                return Ptr(v.r, ivar(fresh('hp')))
            if isinstance(v, T):
                if v.sort == 'R':
                    return rvar(fresh('hr'))
                if v.sort == 'I':
                    return ivar(fresh('hi'))
                return bvar(fresh('hb'))
            if v is None or v is UNDEF or isinstance(v, Clobbered):
                return Clobbered("loop-carried uninitialised value")
            return Clobbered("loop-carried object")

        cellinit = {}
        # ---- pass 1: discover modified cells and induction steps
        steps = None
        for attempt in range(12):
            cur = {}
            for l, v in init.items():
                cur[l] = havoc(l, v)
            for rc_ in cells:
                cur[('cell',) + rc_] = havoc(rc_, cellinit[rc_])
            s = start(cur, None, {})
            s.ghost['nobounds'] = True
            s.assume(ile(I0, k))
            res = self.run([s], depth - 1, lc)
            backs = [r for r in res if r.info and r.info[0] == 'back']
            grew = False
            for b in backs:
                for rid, reg in b.state.mem.items():
                    r0 = S0.mem.get(rid)
                    if r0 is None or reg is r0:
                        continue
                    rs = s.mem  # not usable (consumed); compare with S0/cur
                    for off, c in reg.cells.items():
                        if off == ('const',):
                            continue
                        key = (rid, off)
                        if key in cells:
                            continue
                        o = r0.cells.get(off)
                        if o is c or (o is not None and o == c):
                            continue
                        if o is not None and isinstance(off, int) and o[0] == c[0] and same(o[1], c[1]):
                            continue
                        if o is None and isinstance(off, int) and r0.base in ('sym', 'zero') and isinstance(c[1], T):
                            try:
                                ov = self.flat_read(S0, r0, off, c[0], self.kind_ty('R' if c[1].sort == 'R' else 'I', c[0]))
                            except Unknown:
                                ov = None
                            if ov is c[1]:
                                continue
                            cellinit[key] = ov
                        else:
                            cellinit[key] = o[1] if (o is not None and isinstance(off, int)) else (o if o is not None else UNDEF)
                        cells.add(key)
                        grew = True
                    for off in r0.cells:
                        if off not in reg.cells and (rid, off) not in cells:
                            cells.add((rid, off))
                            o = r0.cells[off]
                            cellinit[(rid, off)] = o[1] if isinstance(off, int) else o
                            grew = True
            if grew:
                continue
            steps = {}
            ok = True
            for l, h in cur.items():
                news = [self.loc_get(b.state, l) for b in backs]
                d = self.const_step(h, news)
                if d is not None:
                    steps[l] = d
            break
        else:
            raise Unknown("loop frame does not stabilise")
        if not backs:
            # body never loops back: plain fork instead
            rec2 = S0.clone()
            rec2.frames[-1].loops[header].nosum = True
            return [rec2]
        allinit = dict(init)
        for key in cells:
            allinit[('cell',) + key] = cellinit[key]
        # ---- pass 2: generic iteration with induction variables in closed form
        cur = {}
        hv = {}
        for l, v in allinit.items():
            if l in steps:
                d = steps[l]
                if isinstance(v, Ptr):
                    cur[l] = Ptr(v.r, iadd(v.o, imul(d, k)))
                else:
                    cur[l] = iadd(v, imul(d, k))
            else:
                cur[l] = havoc(l, v)
                hv[l] = cur[l]
        kv = k.args[0][0][0]

        def extra(o):
            return o.state.pc[npc:]
        bound = None
        for phase in (1, 2):
            s = start(cur, None, {})
            s.assume(ile(I0, k))
            if bound is not None:
                s.assume(ile(k, bound))
            else:
                s.ghost['nobounds'] = True
            npc = len(s.pc)
            base_log = {rid: len(r.log) for rid, r in s.mem.items()}
            ntrace = len(s.trace)
            startstate = s.clone()
            fails = getattr(self, 'nbfail', 0)
            res = self.run([s], depth - 1, lc)
            backs = [r for r in res if r.info and r.info[0] == 'back']
            others = [r for r in res if not (r.info and r.info[0] == 'back')]
            # continue condition common to all back paths, linear in k, whose negation alone makes an exit path
            common = [c for c in extra(backs[0]) if all(c in extra(b) for b in backs[1:])]
            cont = n = None
            primary = None
            for c in common:
                nb = self.trip(c, kv, S0.pc)
                if nb is None or any(v in fvars(c) for v in self.havoc_vars(hv)):
                    continue
                for o in others:
                    ex = extra(o)
                    if bnot(c) in ex and o.info[0] == 'exit':
                        cont, n, primary = c, nb, o
                        break
                if cont is not None:
                    break
            if cont is None:
                raise Unknown("loop in %s: no counted exit condition (%s)" % (fn_.name, '; '.join(map(str, common))[:300]))
            if cont.op == 'not' and not entails(S0.pc, ile(I0, n)):
                raise Unknown("loop in %s: i != n exit with n not known non-negative" % fn_.name)
            if getattr(self, 'nbfail', 0) == fails or S0.ghost.get('nobounds'):
                break
            # k <= n is inductive (0 <= n, and the body is only repeated when k != n or k < n): use it for bounds
            if phase == 1:
                if not entails(S0.pc, ile(I0, n)):
                    raise Unknown("array index not proved in bounds in a loop of %s" % fn_.name)
                bound = n
        # ---- closed forms of the carried values
        conds = [band(*[c for c in extra(b) if c is not cont]) for b in backs]
        values = {}
        for l in hv:
            vs = [self.loc_get(b.state, l) for b in backs]
            v = vs[-1]
            try:
                for c, w in zip(reversed(conds[:-1]), reversed(vs[:-1])):
                    v = v if same(v, w) else self.ite(c, w, v)
            except Unknown:
                v = Clobbered("merged object")
            values[l] = v
        closed = {}           # loc -> function kterm -> value
        for l, d in steps.items():
            closed[l] = (lambda v, d: (lambda kt: Ptr(v.r, iadd(v.o, imul(d, kt))) if isinstance(v, Ptr) else iadd(v, imul(d, kt))))(allinit[l], d)
        pend = dict(values)
        hsym = {}
        for l, h in hv.items():
            if isinstance(h, T):
                hsym[l] = h.args[0][0][0] if h.op == 'lin' else h
        resolved = {}         # hsym -> generic closed form at k
        progress = True
        while pend and progress:
            progress = False
            for l in list(pend):
                v = pend[l]
                i0 = allinit[l]
                if isinstance(v, Clobbered) or not isinstance(v, T):
                    if isinstance(v, Ptr) and isinstance(i0, Ptr) and v == i0:
                        closed[l] = (lambda i0: lambda kt: i0)(i0)
                    else:
                        closed[l] = (lambda v: lambda kt: Clobbered("loop-carried object"))(v)
                    del pend[l]
                    progress = True
                    continue
                h = hsym.get(l)
                deps = [x for x in hsym.values() if x in fvars(v)]
                if h is not None and v is hv[l]:
                    closed[l] = (lambda i0: lambda kt: i0)(i0)
                    resolved[h] = i0
                    del pend[l]
                    progress = True
                    continue
                un = [x for x in deps if x is not h and x not in resolved]
                if un:
                    continue
                v = subst(v, {x: resolved[x] for x in deps if x is not h}) if deps else v
                if h is not None and h in deps:
                    if v.sort == 'R' and isinstance(i0, T):
                        t0 = subst(v, {h: R0})
                        if h not in fvars(t0) and req_proved(v, radd(hv[l], t0)):
                            closed[l] = (lambda i0, t0: lambda kt: radd(i0, rsum(k, I0, kt, t0)))(i0, t0)
                            resolved[h] = closed[l](k)
                            del pend[l]
                            progress = True
                            continue
                        k0 = ieq(k, I0)
                        if k0 in itecount(v):
                            va = subst(assume_cond(v, k0, True), {k: I0})
                            vb = assume_cond(v, k0, False)
                            t0 = subst(vb, {h: R0})
                            if h not in fvars(va) and h not in fvars(t0) and req_proved(vb, radd(hv[l], t0)):
                                closed[l] = (lambda i0, va, t0: lambda kt: rite(ile(I1, kt), radd(va, rsum(k, I1, kt, t0)), i0))(i0, va, t0)
                                resolved[h] = closed[l](k)
                                del pend[l]
                                progress = True
                                continue
                    closed[l] = (lambda l: lambda kt: Clobbered("recurrence outside the invariant templates"))(l)
                    del pend[l]
                    progress = True
                    continue
                # last value
                if isinstance(i0, T) and i0.sort == v.sort:
                    closed[l] = (lambda i0, v: lambda kt: self.ite(ile(I1, kt), subst(v, {k: isub(kt, I1)}), i0))(i0, v)
                    if h is not None:
                        resolved[h] = closed[l](k)
                else:
                    closed[l] = (lambda v: lambda kt: subst(v, {k: isub(kt, I1)}) if icst(kt) != 0 else UNDEF)(v)
                del pend[l]
                progress = True
        for l in pend:
            closed[l] = lambda kt: Clobbered("mutually dependent recurrence")
        badsyms = [x for l, x in hsym.items() if x not in resolved]

        def fix(v):
            """replace havoc symbols by their closed form at k"""
            if isinstance(v, T):
                fv = fvars(v)
                if any(x in fv for x in badsyms):
                    return Clobbered("depends on a value outside the invariant templates")
                m = {x: resolved[x] for x in resolved if x in fv}
                return subst(v, m) if m else v
            return v
        # ---- array effects
        fams = {}
        written = {}
        for bi, b in enumerate(backs):
            for rid, reg in b.state.mem.items():
                if rid not in base_log or not reg.stride:
                    continue
                n0 = base_log[rid]
                if reg.log is S0.mem[rid].log or reg.log == S0.mem[rid].log:
                    continue
                if reg.log[:n0] != S0.mem[rid].log:
                    # an earlier entry was overwritten in place: only acceptable if loop-invariant index
                    raise Unknown("loop rewrites earlier array entries of %s" % reg.name)
                for e in reg.log[n0:]:
                    if e[0] != 'pt':
                        raise Unknown("nested array range update in loop (%s)" % reg.name)
                    written.setdefault(rid, {}).setdefault(bi, []).append(e)
        for rid, per in written.items():
            reg = S0.mem[rid]
            i0 = None
            m = {}
            for bi, es in per.items():
                for e in es:
                    if i0 is None:
                        i0 = e[1]
                    if e[1] is not i0:
                        raise Unknown("loop writes several elements of %s per iteration" % reg.name)
                    m.setdefault(e[2], {})[bi] = (e[3], e[4])
            bad = lambda x: kv in fvars(x) or any(v in fvars(x) for v in self.havoc_vars(hv))
            e0, down = isub(i0, k), False
            if bad(e0):
                e0, down = iadd(i0, k), True
            if bad(e0):
                raise Unknown("loop writes %s at index %s (not base + iteration)" % (reg.name, i0))
            mm = {}
            for off, pv in m.items():
                sz = next(iter(pv.values()))[0]
                v = None
                for bi in reversed(range(len(backs))):
                    if bi in pv:
                        w = fix(pv[bi][1])
                    else:
                        ty = self.kind_ty(reg.layout[off][1] if reg.layout and off in reg.layout and not isinstance(reg.layout[off][1], int) else 'R', sz)
                        w = self.fam_read(startstate, reg, i0, off, sz, ty)
                    v = w if v is None else (v if same(v, w) else self.ite(fix_c(fix, conds[bi]), w, v))
                if isinstance(v, Clobbered):
                    raise Unknown("array %s written with a value outside the templates" % reg.name)
                # express through the element index
                kk = ivar('$m%d' % next(_fresh))
                mm[off] = (sz, subst(v, {k: isub(e0, kk) if down else isub(kk, e0)}) if isinstance(v, T) else v, kk)
            kk = ivar('$m%d' % next(_fresh))
            fams[rid] = (kk, e0, {o: (sz, subst(v, {q: kk}) if isinstance(v, T) else v) for o, (sz, v, q) in mm.items()}, down)
            # reads of this array inside the body must be of the own element or of untouched ones
            for o in res:
                for r, i in (o.state.reads or []):
                    if r != rid:
                        continue
                    if isinstance(i, str):
                        raise Unknown("loop copies a block out of the array it writes")
                    if i is i0:
                        continue
                    d = isub(i0, i) if down else isub(i, i0)
                    pcx = S0.pc + [ile(I0, k)]
                    if entails(pcx, ile(I0, d)) or entails(pcx, ilt(e0, i) if down else ilt(i, e0)):
                        continue
                    # reads belong to the path that makes them
                    if all(entails(list(b.state.pc) + [ile(I0, k)], ile(I0, d)) for b in res if feasible(b.state.pc) and any(x is i and y == rid for y, x in (b.state.reads or []))):
                        continue
                    raise Unknown("loop reads %s at %s while writing at %s" % (reg.name, i, i0))
        # ---- events
        evs = None
        tr = [b.state.trace[ntrace:] for b in backs]
        if any(tr):
            if len(backs) != 1:
                raise Unknown("events on several loop paths")
            evs = tr[0]
        # ---- quantified continue condition (only when there are early exits)
        early = [o for o in others if o is not primary and not (o.info[0] == 'exit' and bnot(cont) in extra(o) and len(extra(o)) == 1)]
        allc = TRUE
        if early:
            cc = fix_c(fix, bor(*conds))
            if isinstance(cc, Clobbered):
                raise Unknown("early exit depends on a value outside the templates")
            allc = cc
        outstates = []

        pos = ile(I1, n)

        def at(kt):
            r = {l: f(kt) for l, f in closed.items()}
            if kt is n:
                r = {l: assume_cond(v, pos, True) if isinstance(v, T) and pos in itecount(v) else v for l, v in r.items()}
            return r
        # exit through the counted condition, after n >= 1 back edges
        if entails(S0.pc, pos) or not entails(S0.pc, bnot(pos)):
            f = start(at(n), n, fams)
            f.reads = list(S0.reads) if S0.reads is not None else None
            if f.reads is not None:
                for o in res:
                    f.reads.extend((r, i if isinstance(i, str) or kv not in fvars(i) else fresh('range')) for r, i in o.state.reads)
            f.assume(pos)
            if allc is not TRUE:
                for c in (allc.args if allc.op == 'and' else [allc]):
                    if kv not in fvars(c):      # the same in every iteration, and there is one
                        f.assume(c)
                f.assume(ball(k, I0, n, allc))
            if evs:
                f.trace.append(('loop', k, I0, n, evs))
            r = LoopRec()
            r.header, r.body, r.iters, r.done, r.nosum, r.snap = header, body, 0, False, True, None
            f.frames[-1].loops[header] = r
            # the invariant is exact at k = n: the exit condition is decided there
            outstates.append(f)
        if not entails(S0.pc, pos):
            f = S0.clone()
            f.assume(bnot(pos))
            if feasible(f.pc):
                r = LoopRec()
                r.header, r.body, r.iters, r.done, r.nosum, r.snap = header, body, 0, False, True, None
                f.frames[-1].loops[header] = r
                outstates.append(f)
        if early:
            kt = k
            s = start(at(k), k, fams)
            s.reads = list(S0.reads) if S0.reads is not None else None
            s.assume(ile(I0, k))
            if entails(S0.pc, ile(I0, n)):
                s.assume(ile(k, n))
            s.assume(cont)
            if allc is not TRUE:
                s.assume(ball(k2 := ivar(fresh('j')), I0, k, subst(allc, {k: k2})))
            if evs:
                j = ivar(fresh('j'))
                s.trace.append(('loop', k, I0, k, evs))
            rs = self.run([s], depth - 1, lc)
            for o in rs:
                if o.info[0] == 'back':
                    continue
                if not feasible(o.state.pc):
                    continue
                st2 = o.state
                # resume in the surrounding context
                if o.info[0] == 'exit':
                    outstates.append(self.resume_exit(st2, outer_lc))
                elif o.info[0] == 'ret':
                    outstates.append(_Resume(st2, 'ret', o.value))
                elif o.info[0] == 'throw':
                    outstates.append(_Resume(st2, 'throw', o.exc))
        return outstates

    def resume_exit(self, st, outer_lc):
        """state already positioned in the exit block (phis done); re-apply the outer loop bookkeeping"""
        return _Resume(st, 'exit', None)

    def havoc_vars(self, hv):
        out = set()
        for v in hv.values():
            if isinstance(v, T):
                out |= fvars(v)
            elif isinstance(v, Ptr):
                out |= fvars(v.o)
        return out

    def loc_get(self, st, l):
        if l[0] == 'reg':
            return st.frames[-1].regs.get(l[1])
        _, rid, off = l
        c = st.mem[rid].cells.get(off)
        if c is None:
            return UNDEF
        return c[1] if isinstance(off, int) else c

    def const_step(self, h, news):
        if isinstance(h, Ptr):
            ds = set()
            for n in news:
                if not isinstance(n, Ptr) or n.r != h.r:
                    return None
                ds.add(isub(n.o, h.o))
        elif isinstance(h, T) and h.sort == 'I':
            ds = set()
            for n in news:
                if not isinstance(n, T) or n.sort != 'I':
                    return None
                ds.add(isub(n, h))
        else:
            return None
        if len(ds) == 1:
            d = ds.pop()
            if icst(d) is not None:
                return d if icst(d) != 0 else None
            if all(v.op == 'iv' and '#' not in str(v.args[0]) for v in fvars(d)):
                return d          # a step fixed outside of the loop
        return None

    def trip(self, c, kv, pc=()):
        """number of back edges n such that (c holds at iterations 0..n-1, fails at n), or None"""
        if c.op == 'ile':
            x = c.args[0]
            co = dict(x.args[0]).get(kv)
            if co == 1:
                rest = isub(x, mk('lin', 'I', ((kv, 1),), 0))
                if kv in fvars(rest):
                    return None
                return isub(I1, rest)       # k + rest <= 0  <=>  k < 1 - rest
            return None
        if c.op == 'not' and c.args[0].op == 'ieq':
            x = c.args[0].args[0]
            if any(a.op == 'imul' and kv in fvars(a) for a, _ in x.args[0]):
                x = self.common_factor(x, pc)
            co = dict(x.args[0]).get(kv)
            if co in (1, -1):
                rest = isub(x, mk('lin', 'I', ((kv, co),), 0))
                if kv in fvars(rest):
                    return None
                return iscale(rest, -co)
        return None


    def common_factor(self, x, pc):
        """x = w*y with a non-zero w common to all terms -> y (same zeros)"""
        if x.args[1]:
            return x
        for w in {f for a, _ in x.args[0] if a.op == 'imul' for f in a.args}:
            y = I0
            for a, c in x.args[0]:
                if a.op == 'imul' and w in a.args:
                    y = iadd(y, iscale(a.args[1] if a.args[0] is w else a.args[0], c))
                elif w.args[0] == ((a, 1),) and not w.args[1]:
                    y = iadd(y, ic(c))
                else:
                    break
            else:
                if entails(pc, bnot(ieq(w, I0))):
                    return y
        return x


def fix_c(fix, c):
    return fix(c)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a == b
    if isinstance(a, T) or isinstance(b, T):
        return False
    try:
        return a == b
    except Exception:
        return False


class _Drop:
    pass


DROP_ = _Drop()


class Throw:
    def __init__(self, ti, obj=None):
        self.ti, self.obj = ti, obj


class Fork:
    def __init__(self, alts):
        self.alts = alts


class Enter:
    def __init__(self, fn, args):
        self.fn, self.args = fn, args


class _Done:
    """an already finished outcome queued on the work list"""

    def __init__(self, o):
        self.o = o


class _Resume:
    def __init__(self, st, kind, v):
        self.st, self.kind, self.v = st, kind, v


_orig_step = Exec.step_path


def _step_path(self, st, work, base, lc):
    if isinstance(st, _Done):
        return st.o
    if isinstance(st, _Resume):
        s = st.st
        if st.kind == 'exit':
            fr = s.frames[-1]
            if lc is not None and len(s.frames) == lc[0]:
                if fr.blk.name == lc[1]:
                    return Outcome('stop', s, info=('back', fr.blk.name, None))
                if fr.blk.name not in lc[2]:
                    return Outcome('stop', s, info=('exit', fr.blk.name, None))
            for h in [h for h, rec in fr.loops.items() if fr.blk.name not in rec.body]:
                del fr.loops[h]
            if fr.blk.name in fr.fn.loops and fr.blk.name in fr.loops:
                pass
            st = s
        elif st.kind == 'ret':
            r = self.do_ret(s, st.v, work, base, lc)
            if r is not None:
                return r
            st = s
        else:
            r = self.throw_from_top(s, st.v, base, lc)
            if r is not None:
                return r
            st = s
    return _orig_step(self, st, work, base, lc)


def _throw_from_top(self, st, exc, base, lc):
    """the exception has already left the handlers of the top frame"""
    if lc is not None and len(st.frames) == lc[0]:
        return Outcome('stop', st, exc=exc, info=('throw', None, None))
    fr = st.frames[-1]
    for a in fr.allocas:
        r = st.rw(a)
        r.dead = True
        r.cells = {}
    st.frames.pop()
    if len(st.frames) == base:
        return Outcome('throw', st, exc=exc)
    return self.throw(st, exc, base, lc)


Exec.step_path = _step_path
Exec.throw_from_top = _throw_from_top
