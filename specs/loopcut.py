"""Cutting a loop of the function under proof at its header.

The loop-carried scalars (phis and memory cells) are found by executing the body from a havocked header state; those that
advance by the same constant on every path become base + step*k for iteration k, everything else written by the body is
unknown at the header.  Ghost values are the caller's business (they carry the loop invariant)."""
from verify import *


def havoc(v, s=None):
    if isinstance(v, Ptr) and s is not None and not isinstance(v.r, str) and s.mem[v.r].stride:
        return Ptr(v.r, iadd(v.o, imul(ivar(fresh('hp')), ic(s.mem[v.r].stride))))
    return Ptr(v.r, ivar(fresh('hp'))) if isinstance(v, Ptr) else ivar(fresh('hi'))


def scal(v):
    return isinstance(v, Ptr) and not isinstance(v.r, str) or isinstance(v, T) and v.sort == 'I'


class Cut:
    def __init__(self, ex, s0, base, fn_, h, ghostp=None):
        self.ex, self.s0, self.base, self.h = ex, s0, base, h
        self.lc = (len(s0.frames), h, fn_.loops[h])
        init = {('reg', ph.res): s0.frames[-1].regs[ph.res] for ph in fn_.blocks[h].phis}
        scratch = set()
        for _ in range(6):
            s = self.fresh_state()
            hv = {l: havoc(v) for l, v in init.items()}
            self.put(s, hv)
            self.drop(s, scratch)
            s.ghost['nobounds'] = True
            backs = [b.state for b in ex.run([s], base, self.lc) if b.kind == 'stop' and b.info[0] == 'back' and feasible(b.state.pc)]
            new = set()
            for b in backs:
                for rid, reg in b.mem.items():
                    r0 = s.mem.get(rid)
                    if r0 is None or r0.cells is reg.cells:
                        continue
                    for k in set(reg.cells) | set(r0.cells):
                        if isinstance(k, tuple) or k == 'g':
                            continue
                        l = ('mem', rid, k)
                        if l not in init and l not in scratch and reg.cells.get(k) != r0.cells.get(k):
                            new.add(l)
            self.backs, self.step = backs, {}
            for l, v in hv.items():
                d = ex.const_step(v, [self.val(b, l) for b in backs]) if backs else None
                if d is None and all(self.val(b, l) == v for b in backs):
                    d = I0
                self.step[l] = d
            bad = {l for l in init if self.step[l] is None}
            if any(l[0] == 'reg' for l in bad):
                raise Unknown("loop-carried value without a constant step")
            if not new and not bad:
                break
            scratch |= bad
            for l in bad:
                del init[l]
            for l in new:
                c = s0.mem[l[1]].cells.get(l[2])
                if c is not None and scal(c[1]):
                    init[l] = c[1]
                else:
                    scratch.add(l)
        else:
            raise Unknown("loop-carried memory")
        self.init, self.scratch = init, scratch

    def fresh_state(self):
        s = self.s0.clone()
        s.frames[-1].loops = {}
        return s

    def drop(self, s, ls):
        for l in ls:
            reg = s.rw(l[1])
            if reg.base != 'uninit':
                raise Unknown("loop writes %s" % reg.name)
            reg.cells.pop(l[2], None)

    def put(self, s, vals):
        for l, v in vals.items():
            if l[0] == 'reg':
                s.frames[-1].regs[l[1]] = v
            else:
                s.rw(l[1]).cells[l[2]] = (self.s0.mem[l[1]].cells[l[2]][0], v)

    def val(self, s, l):
        if l[0] == 'reg':
            return s.frames[-1].regs[l[1]]
        c = s.mem[l[1]].cells.get(l[2])
        return c and c[1]

    def at(self, k):
        """state at the header in iteration k"""
        s = self.fresh_state()
        self.put(s, {l: Ptr(v.r, iadd(v.o, imul(self.step[l], k))) if isinstance(v, Ptr) else iadd(v, imul(self.step[l], k)) for l, v in self.init.items()})
        self.drop(s, self.scratch)
        return s

    def run(self, s):
        return self.ex.run([s], self.base, self.lc)


class RCut:
    """As Cut, for loops carrying real-valued state: every real location the body writes (header phis, memory cells, array
    elements at an index fixed during the loop) is an arbitrary real at the header - the caller proves that one iteration maps
    it as the specified step function and that the entry values are the specified initial ones.  Array elements written at the
    index base + iteration ('own' arrays) keep their entry value at the header of the iteration that owns them."""

    def __init__(self, ex, s0, base, fn_, h, body=None, pre=None):
        self.ex, self.s0, self.base, self.h = ex, s0, base, h
        self.lc = (len(s0.frames), h, fn_.loops[h])
        self.body = body or (lambda s: ex.run([s], base, self.lc))
        self.init, self.real, self.arr, self.scratch, self.own = {}, {}, {}, set(), {}
        for ph in fn_.blocks[h].phis:
            v = s0.frames[-1].regs[ph.res]
            l = ('reg', ph.res)
            if isinstance(v, T) and v.sort == 'R':
                self.real[l] = rvar(fresh('hv'))
            elif isinstance(v, T) and v.sort == 'B':
                self.real[l] = pred(fresh('hb'))
            else:
                self.init[l] = v
        for _ in range(8):
            hv = {l: havoc(v, s0) for l, v in self.init.items()}
            s = self._state(hv)
            s.ghost['nobounds'] = True
            if pre:      # range of the loop counters (in which the body is executed)
                pre(s, hv)
            s.reads = []
            backs = [b.state for b in self.body(s.clone()) if b.kind == 'stop' and b.info[0] == 'back' and feasible(b.state.pc)]
            if not backs:
                raise Unknown("loop body never repeats")
            self.step = {}
            for l, v in hv.items():
                d = ex.const_step(v, [self.val(b, l) for b in backs])
                if d is None and all(self.val(b, l) == v for b in backs):
                    d = I0
                self.step[l] = d
            changed = False
            for l in [l for l in self.init if self.step[l] is None]:
                if l[0] == 'reg' and isinstance(self.init[l], Ptr):
                    raise Unknown("loop-carried pointer without a constant step")
                v = self.init.pop(l)
                if l[0] == 'reg':
                    self.real[l] = ivar(fresh('hi'))      # any integer
                else:
                    self.scratch.add(l)
                changed = True
            ctr = {x: l for l, v in hv.items() for x in (fvars(v.o) if isinstance(v, Ptr) else fvars(v)) if self.step.get(l) is not None and self.step[l] is not I0}
            for b in backs:
                for rid, reg in b.mem.items():
                    r0 = s.mem.get(rid)
                    if r0 is None:
                        continue
                    if r0.cells is not reg.cells:
                        for k in set(reg.cells) | set(r0.cells):
                            l = ('mem', rid, k)
                            if l in self.init or l in self.real or l in self.scratch or reg.cells.get(k) == r0.cells.get(k):
                                continue
                            if isinstance(k, tuple) or k == 'g':
                                if r0.base != 'uninit':
                                    raise Unknown("loop changes an object (%s)" % r0.name)
                                continue
                            changed = True
                            c, c0 = reg.cells.get(k), self.s0.mem[rid].cells.get(k)
                            if c is not None and c[0] == 8 and isinstance(c[1], T) and c[1].sort == 'R' and (c0 is None or isinstance(c0[1], T) and c0[1].sort == 'R'):
                                self.real[l] = rvar(fresh('hv'))
                            elif c0 is not None and scal(c0[1]):
                                self.init[l] = c0[1]
                            elif r0.base == 'uninit':
                                self.scratch.add(l)
                            elif c is not None and isinstance(c[1], T) and c[1].sort == 'I':
                                self.real[l] = (c[0], ivar(fresh('hi')))
                            else:
                                raise Unknown("loop writes %s+%s" % (r0.name, k))
                    if reg.log is not r0.log and reg.log != r0.log:
                        old = {id(e) for e in r0.log}
                        for e in reg.log:
                            if id(e) in old:
                                continue
                            if e[0] != 'pt':
                                raise Unknown("block write of %s in the loop" % reg.name)
                            iv = [x for x in fvars(e[1]) if x in ctr]
                            if iv:
                                self.own.setdefault(rid, set()).add(e[2])
                                continue
                            l = ('arr', rid, e[1], e[2])
                            if l in self.arr:
                                continue
                            if not (isinstance(e[4], T) and e[4].sort == 'R'):
                                if isinstance(e[4], T) and e[4].sort == 'I' and ex.fam_read(s, r0, e[1], e[2], e[3], ('i', 8 * e[3])) == e[4]:
                                    continue
                                raise Unknown("loop writes %s" % reg.name)
                            self.arr[l] = rvar(fresh('hv'))
                            changed = True
            if not changed:
                break
        else:
            raise Unknown("loop-carried memory")

    def _state(self, vals):
        s = self.s0.clone()
        s.frames[-1].loops = {}
        for l, v in vals.items():
            if l[0] == 'reg':
                s.frames[-1].regs[l[1]] = v
            else:
                s.rw(l[1]).cells[l[2]] = (self.s0.mem[l[1]].cells[l[2]][0], v)
        for l, v in self.real.items():
            if l[0] == 'reg':
                s.frames[-1].regs[l[1]] = v
            else:
                s.rw(l[1]).cells[l[2]] = v if isinstance(v, tuple) else (8, v)
        for l in self.scratch:
            reg = s.rw(l[1])
            if reg.base != 'uninit':
                raise Unknown("loop writes %s" % reg.name)
            reg.cells.pop(l[2], None)
        for (_, rid, i, off), v in self.arr.items():
            self.ex.fam_write(s, s.rw(rid), i, off, 8, v)
        return s

    def val(self, s, l):
        if l[0] == 'reg':
            return s.frames[-1].regs[l[1]]
        c = s.mem[l[1]].cells.get(l[2])
        return c and c[1]

    def at(self, k):
        return self._state({l: Ptr(v.r, iadd(v.o, imul(self.step[l], k))) if isinstance(v, Ptr) else iadd(v, imul(self.step[l], k)) for l, v in self.init.items()})

    def run(self, s):
        return self.body(s)
