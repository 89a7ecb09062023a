"""Parser for the textual LLVM 18 IR produced by build.py (opaque pointers)."""
import re, struct

TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"[^"]*"|[-\w.$]+))
  | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
  | (?P<md>!(?:[-\w.$]+)?)
  | (?P<attr>\#\d+)
  | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|0x[KLMHR][0-9A-Fa-f]+|-?\d+)
  | (?P<dots>\.\.\.)
  | (?P<word>[A-Za-z_][\w.$]*)
  | (?P<p>[][(){}<>,=*:|])
  )''', re.X)


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# int: ('i',n)  double: ('d',)  float ('f',) ptr: ('p',)  void: ('v',)  array: ('a',n,t)  struct: ('s',(fields..),packed)
PTR = ('p',)
DBL = ('d',)
VOID = ('v',)


class Module:
    def __init__(self, name, text):
        self.name = name
        self.types = {}      # name -> unparsed text
        self._tcache = {}
        self.fn_src = {}     # linkage name -> (header, [body lines])
        self.globals_src = {}
        self.decls = {}
        self.internal = set()
        self.aliases = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                nm = fname(l)
                if " internal " in l[:40] or " private " in l[:40]:
                    self.internal.add(nm)
                self.fn_src[nm] = (l, lines[i + 1:j])
                i = j
            elif l.startswith("declare "):
                nm = fname(l)
                self.decls[nm] = l
            elif l.startswith("%"):
                k, v = l.split(" = type ", 1)
                self.types[k] = v
            elif l.startswith("@"):
                k, v = l.split(" = ", 1)
                k = k[1:].strip('"')
                if re.match(r'(\w+ )*alias ', v) or " alias " in v[:80]:
                    m = re.search(r'@("[^"]*"|[-\w.$]+)\s*$', v)
                    self.aliases[k] = m.group(1).strip('"')
                else:
                    self.globals_src[k] = v
                if " internal " in " " + v[:60] or " private " in " " + v[:60]:
                    self.internal.add(k)
            i += 1

    # ---- types
    def named(self, n):
        t = self._tcache.get(n)
        if t is None:
            if self.types[n].strip() == "opaque":
                t = ('s', (), False)
            else:
                self._tcache[n] = None
                p = P(self, self.types[n])
                t = p.type()
            self._tcache[n] = t
        return t


def fname(l):
    m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
    return m.group(1).strip('"')


_sz = {}


def sizeof(t):
    r = _sz.get(t)
    if r is None:
        r = _sizeof(t)
        _sz[t] = r
    return r


def _sizeof(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        # round to power of two
        s = 1
        while s < n:
            s *= 2
        return s
    if k == 'd' or k == 'p':
        return 8
    if k == 'f':
        return 4
    if k == 'x':
        return 16
    if k == 'a':
        return t[1] * sizeof(t[2])
    if k == 's':
        o = offsets(t)
        return o[-1]
    if k == 'v':
        return 0
    raise IRError("sizeof " + repr(t))


_al = {}


def alignof(t):
    r = _al.get(t)
    if r is None:
        k = t[0]
        if k == 'a':
            r = alignof(t[2])
        elif k == 's':
            r = 1 if t[2] else max([alignof(f) for f in t[1]] or [1])
        else:
            r = sizeof(t)
        _al[t] = r
    return r


_of = {}


def offsets(t):
    r = _of.get(t)
    if r is None:
        o = 0
        r = []
        for f in t[1]:
            a = 1 if t[2] else alignof(f)
            o = (o + a - 1) // a * a
            r.append(o)
            o += sizeof(f)
        a = 1 if t[2] else alignof(t)
        o = (o + a - 1) // a * a
        r.append(o)
        r = tuple(r)
        _of[t] = r
    return r


# ---------------------------------------------------------------- operand representation
# ('l', name) local ; ('c', type, value) const int ; ('d', float) ; ('g', name) global ; ('null',) ; ('undef', t)
# ('zero', t) ; ('agg', t, [ops]) ; ('gepc', basety, ptr, idxs) ; ('cast', op, operand, fromty, toty) ; ('cstr', bytes)

class P:
    def __init__(self, mod, s):
        self.m = mod
        self.s = s
        self.i = 0
        self.peeked = None

    def peek(self):
        if self.peeked is None:
            m = TOK.match(self.s, self.i)
            if not m or m.end() == self.i:
                self.peeked = (None, None, len(self.s))
            else:
                k = m.lastgroup
                self.peeked = (k, m.group(k), m.end())
        return self.peeked[:2]

    def next(self):
        self.peek()
        k, v, e = self.peeked
        self.i = e
        self.peeked = None
        return k, v

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('p', 'word', 'dots'):
            self.next()
            return True
        return False

    def exp(self, v):
        k, x = self.next()
        if x != v:
            raise IRError("expected %r got %r in %s" % (v, x, self.s[:200]))

    def type(self):
        k, v = self.next()
        t = None
        if k == 'loc':
            t = self.m.named(v)
        elif k == 'word':
            if v == 'ptr':
                t = PTR
            elif v == 'double':
                t = DBL
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = ('f',)
            elif v == 'x86_fp80':
                t = ('x',)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('md',)
            elif v == 'token':
                t = ('tok',)
            elif v == 'opaque':
                t = ('s', (), False)
            elif re.match(r'i\d+$', v):
                t = ('i', int(v[1:]))
        elif k == 'p':
            if v == '[':
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp(']')
                t = ('a', n, e)
            elif v == '{':
                fs = []
                if not self.acc('}'):
                    while True:
                        fs.append(self.type())
                        if self.acc('}'):
                            break
                        self.exp(',')
                t = ('s', tuple(fs), False)
            elif v == '<':
                if self.acc('{'):
                    fs = []
                    if not self.acc('}'):
                        while True:
                            fs.append(self.type())
                            if self.acc('}'):
                                break
                            self.exp(',')
                    self.exp('>')
                    t = ('s', tuple(fs), True)
                else:
                    n = int(self.next()[1])
                    self.exp('x')
                    e = self.type()
                    self.exp('>')
                    t = ('vec', n, e)
        if t is None:
            raise IRError("type? %r in %s" % (v, self.s[:200]))
        while self.peek() == ('p', '('):
            # function type
            self.next()
            while not self.acc(')'):
                if self.acc('...'):
                    continue
                if self.acc(','):
                    continue
                self.type()
            t = ('fn', t)
        return t

    ATTRS = set("noundef nonnull signext zeroext inreg noalias nocapture readonly readnone writeonly returned immarg "
                "nofree swiftself nest noreturn nounwind writable dead_on_unwind allocptr allocalign".split())

    def pattrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in self.ATTRS:
                self.next()
            elif k == 'word' and v in ('align',):
                self.next()
                if self.acc('('):
                    self.next()
                    self.exp(')')
                else:
                    self.next()
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype',
                                       'range', 'initializes', 'memory', 'nofpclass', 'byref', 'preallocated', 'inalloca'):
                self.next()
                self.exp('(')
                d = 1
                while d:
                    k, v = self.next()
                    if v == '(':
                        d += 1
                    elif v == ')':
                        d -= 1
            else:
                return

    def value(self, t):
        k, v = self.next()
        if k == 'loc':
            return ('l', v)
        if k == 'glob':
            return ('g', v[1:].strip('"'))
        if k == 'num':
            if t[0] == 'd' or t[0] == 'f':
                if v.startswith('0x'):
                    return ('d', struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
                return ('d', float(v))
            if t[0] == 'i':
                return ('c', t, int(v))
            return ('other', v)
        if k == 'str' and v.startswith('c"'):
            return ('cstr', unesc(v[2:-1]))
        if k == 'word':
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef', t)
            if v == 'zeroinitializer':
                return ('zero', t)
            if v == 'true':
                return ('c', t, 1)
            if v == 'false':
                return ('c', t, 0)
            if v == 'none':
                return ('undef', t)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    self.next()
                self.exp('(')
                bt = self.type()
                self.exp(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.acc(','):
                    while self.peek()[1] == 'inrange':
                        self.next()
                        if self.acc('('):
                            while not self.acc(')'):
                                self.next()
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.exp(')')
                return ('gepc', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.exp('(')
                ft = self.type()
                x = self.value(ft)
                self.exp('to')
                tt = self.type()
                self.exp(')')
                return ('cast', v, x, ft, tt)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.exp('(')
                ft = self.type()
                x = self.value(ft)
                self.exp(',')
                ft2 = self.type()
                y = self.value(ft2)
                self.exp(')')
                return ('binc', v, ft, x, y)
        if k == 'p':
            if v == '{' or v == '[' or v == '<':
                end = {'{': '}', '[': ']', '<': '>'}[v]
                packed = False
                if v == '<' and self.acc('{'):
                    packed = True
                    end = '}'
                ops = []
                if not self.acc(end):
                    while True:
                        it = self.type()
                        ops.append((it, self.value(it)))
                        if self.acc(end):
                            break
                        self.exp(',')
                if packed:
                    self.exp('>')
                return ('agg', t, ops)
        raise IRError("value? %r (type %r) in %s" % (v, t, self.s[:300]))

    def tv(self):
        t = self.type()
        self.pattrs()
        return t, self.value(t)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode('latin1', 'replace')
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text

    def __repr__(self):
        return self.text.strip()


class Block:
    __slots__ = ('name', 'instrs', 'phis', 'succ')


class Function:
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name
        hdr, body = mod.fn_src[name]
        self.params = []
        self._parse_header(hdr)
        self.blocks = {}
        self.order = []
        self._parse_body(body)
        self._cfg()

    def _parse_header(self, hdr):
        k = hdr.index('@')
        m = re.match(r'@("[^"]*"|[-\w.$]+)\(', hdr[k:])
        pre = hdr[len("define "):k]
        p = P(self.mod, hdr[k + m.end():])
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    p.exp(')')
                    break
                t = p.type()
                p.pattrs()
                kk, v = p.next()
                self.params.append((t, v))
                if p.acc(')'):
                    break
                p.exp(',')
        # return type: last type in pre
        pp = P(self.mod, pre)
        words = {'internal', 'private', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'dso_local', 'hidden', 'protected',
                 'available_externally', 'fastcc', 'ccc', 'coldcc', 'unnamed_addr', 'local_unnamed_addr', 'external',
                 'default', 'extern_weak', 'comdat'}
        while pp.peek()[1] in words or (pp.peek()[0] == 'word' and pp.peek()[1] in P.ATTRS) or \
                pp.peek()[1] in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
            if pp.peek()[1] in words:
                pp.next()
            else:
                pp.pattrs()
        self.retty = pp.type()

    def _parse_body(self, lines):
        # join multi-line constructs (switch, invoke, landingpad)
        cur = None
        if not re.match(r'^("[^"]*"|[-\w.$]+):', lines[0]):
            cur = Block()
            cur.name = '%entry!'
            cur.instrs = []
            cur.phis = []
            self.blocks[cur.name] = cur
            self.order.append(cur.name)
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if not l:
                i += 1
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = Block()
                cur.name = '%' + m.group(1)
                cur.instrs = []
                cur.phis = []
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                i += 1
                continue
            if l.startswith("  ") and not l.startswith("    "):
                t = l
                j = i + 1
                if re.match(r'  switch .*\[$', l):
                    while not lines[j].startswith("  ]"):
                        t += " " + lines[j].strip()
                        j += 1
                    t += " ]"
                    j += 1
                while j < n and (lines[j].startswith("          ")):
                    t += " " + lines[j].strip()
                    j += 1
                i = j
                if t.lstrip().startswith(";"):
                    continue
                ins = self._instr(t)
                if ins.op == 'phi':
                    cur.phis.append(ins)
                else:
                    cur.instrs.append(ins)
                continue
            i += 1

    def _instr(self, t):
        m = re.match(r'  (%(?:"[^"]*"|[-\w.$]+)) = ', t)
        res = None
        s = t
        if m:
            res = m.group(1)
            s = t[m.end():]
        else:
            s = t.strip()
        w = re.match(r'([a-z_]+)\s*', s)
        op = w.group(1)
        p = P(self.mod, s[w.end():])
        mod = self.mod
        if op in ('tail', 'musttail', 'notail'):
            w = re.match(r'([a-z_]+) ', s[w.end():])
            op = 'call'
            p = P(mod, s[s.index('call ') + 5:])
        if op == 'alloca':
            ty = p.type()
            cnt = None
            if p.acc(','):
                if p.peek()[1] != 'align':
                    cnt = p.tv()
            return Instr(op, res, ty, cnt, t)
        if op == 'load':
            while p.peek()[1] in ('volatile', 'atomic'):
                p.next()
            ty = p.type()
            p.exp(',')
            _, a = p.tv()
            return Instr(op, res, ty, a, t)
        if op == 'store':
            while p.peek()[1] in ('volatile', 'atomic'):
                p.next()
            ty, v = p.tv()
            p.exp(',')
            _, a = p.tv()
            return Instr(op, None, ty, (v, a), t)
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.exp(',')
            _, base = p.tv()
            idx = []
            while p.acc(','):
                if p.peek()[0] == 'md':
                    break
                idx.append(p.tv())
            return Instr(op, res, PTR, compile_gep(bt, base, idx), t)
        if op == 'phi':
            ty = p.type()
            inc = {}
            while True:
                p.exp('[')
                v = p.value(ty)
                p.exp(',')
                b = p.next()[1]
                p.exp(']')
                inc[b] = v
                if not p.acc(','):
                    break
                if p.peek()[0] == 'md':
                    break
            return Instr(op, res, ty, inc, t)
        if op == 'br':
            ty = p.type()
            if ty[0] == 'label':
                return Instr('jmp', None, None, p.next()[1], t)
            c = p.value(ty)
            p.exp(',')
            p.exp('label')
            a = p.next()[1]
            p.exp(',')
            p.exp('label')
            b = p.next()[1]
            return Instr('br', None, None, (c, a, b), t)
        if op == 'switch':
            ty, v = p.tv()
            p.exp(',')
            p.exp('label')
            d = p.next()[1]
            p.exp('[')
            cases = []
            while not p.acc(']'):
                ct, cv = p.tv()
                p.exp(',')
                p.exp('label')
                cases.append((cv[2], p.next()[1]))
            return Instr(op, None, ty, (v, d, cases), t)
        if op in ('call', 'invoke'):
            while p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'nnan', 'ninf', 'nsz', 'contract', 'afn', 'reassoc', 'fast', 'arcp'):
                p.next()
            p.pattrs()
            ty = p.type()
            if ty[0] == 'fn':
                ty = ty[1]
            if p.peek() == ('word', 'asm'):
                return Instr('asm', res, ty, None, t)
            callee = p.value(PTR)
            p.exp('(')
            args = []
            if not p.acc(')'):
                while True:
                    at = p.type()
                    if at[0] == 'md':
                        # metadata argument: skip
                        p.next()
                        av = ('undef', at)
                    else:
                        p.pattrs()
                        av = p.value(at)
                    args.append((at, av))
                    if p.acc(')'):
                        break
                    p.exp(',')
            nd = ud = None
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.next()
                p.exp('to')
                p.exp('label')
                nd = p.next()[1]
                p.exp('unwind')
                p.exp('label')
                ud = p.next()[1]
            return Instr(op, res, ty, (callee, args, nd, ud), t)
        if op == 'ret':
            ty = p.type()
            if ty[0] == 'v':
                return Instr(op, None, ty, None, t)
            return Instr(op, None, ty, p.value(ty), t)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
                fl.add(p.next()[1])
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return Instr('ibin', res, ty, (op, a, b, fl), t)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            while p.peek()[1] in ('nnan', 'ninf', 'nsz', 'contract', 'afn', 'reassoc', 'fast', 'arcp'):
                p.next()
            ty = p.type()
            a = p.value(ty)
            b = None
            if op != 'fneg':
                p.exp(',')
                b = p.value(ty)
            return Instr('fbin', res, ty, (op, a, b), t)
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('nnan', 'ninf', 'nsz', 'samesign'):
                p.next()
            pred = p.next()[1]
            ty = p.type()
            a = p.value(ty)
            p.exp(',')
            b = p.value(ty)
            return Instr(op, res, ('i', 1), (pred, ty, a, b), t)
        if op == 'select':
            while p.peek()[1] in ('nnan', 'ninf', 'nsz'):
                p.next()
            ct, c = p.tv()
            p.exp(',')
            at, a = p.tv()
            p.exp(',')
            bt, b = p.tv()
            return Instr(op, res, at, (c, a, b), t)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            ft, v = p.tv()
            p.exp('to')
            tt = p.type()
            return Instr('cast', res, tt, (op, ft, v), t)
        if op == 'extractvalue':
            at, v = p.tv()
            idx = []
            while p.acc(','):
                if p.peek()[0] == 'md':
                    break
                idx.append(int(p.next()[1]))
            return Instr(op, res, at, (v, idx), t)
        if op == 'insertvalue':
            at, v = p.tv()
            p.exp(',')
            bt, b = p.tv()
            idx = []
            while p.acc(','):
                if p.peek()[0] == 'md':
                    break
                idx.append(int(p.next()[1]))
            return Instr(op, res, at, (v, b, idx), t)
        if op == 'freeze':
            ty, v = p.tv()
            return Instr(op, res, ty, v, t)
        if op == 'landingpad':
            ty = p.type()
            cl = []
            cleanup = False
            while True:
                k, v = p.peek()
                if v == 'cleanup':
                    p.next()
                    cleanup = True
                elif v == 'catch':
                    p.next()
                    cl.append(('catch', p.tv()[1]))
                elif v == 'filter':
                    p.next()
                    cl.append(('filter', p.tv()[1]))
                else:
                    break
            return Instr(op, res, ty, (cleanup, cl), t)
        if op == 'resume':
            ty, v = p.tv()
            return Instr(op, None, ty, v, t)
        if op == 'unreachable':
            return Instr(op, None, None, None, t)
        if op == 'atomicrmw':
            while p.peek()[1] in ('volatile',):
                p.next()
            k = p.next()[1]
            _, a = p.tv()
            p.exp(',')
            ty, v = p.tv()
            return Instr(op, res, ty, (k, a, v), t)
        if op == 'fence':
            return Instr(op, None, None, None, t)
        if op == 'cmpxchg':
            return Instr('unsupported', res, None, None, t)
        return Instr('unsupported', res, None, None, t)

    def _cfg(self):
        for b in self.blocks.values():
            last = b.instrs[-1]
            if last.op == 'jmp':
                b.succ = [last.a]
            elif last.op == 'br':
                b.succ = [last.a[1], last.a[2]]
            elif last.op == 'switch':
                b.succ = [last.a[1]] + [x[1] for x in last.a[2]]
            elif last.op == 'invoke':
                b.succ = [last.a[2], last.a[3]]
            else:
                b.succ = []
        # entry block may be referenced by number in phis: fix the name
        ent = self.order[0]
        if ent == '%entry!':
            nm = '%' + str(len(self.params))
            # unnamed entry label has the next number after unnamed params
            k = 0
            for t, v in self.params:
                if re.match(r'%\d+$', v):
                    k += 1
            nm = '%' + str(k)
            b = self.blocks.pop(ent)
            b.name = nm
            self.blocks[nm] = b
            self.order[0] = nm
        self.entry = self.order[0]
        self._loops()

    def _loops(self):
        """natural loops: header -> set(blocks)"""
        preds = {n: [] for n in self.blocks}
        for b in self.blocks.values():
            for s in b.succ:
                preds[s].append(b.name)
        self.preds = preds
        # dominators (iterative, RPO)
        rpo = []
        seen = set()
        stack = [(self.entry, 0)]
        seen.add(self.entry)
        while stack:
            n, k = stack[-1]
            sc = self.blocks[n].succ
            if k < len(sc):
                stack[-1] = (n, k + 1)
                if sc[k] not in seen:
                    seen.add(sc[k])
                    stack.append((sc[k], 0))
            else:
                rpo.append(n)
                stack.pop()
        rpo.reverse()
        num = {n: i for i, n in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True

        def inter(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = idom[a]
                while num[b] > num[a]:
                    b = idom[b]
            return a
        while ch:
            ch = False
            for n in rpo[1:]:
                new = None
                for q in preds[n]:
                    if q in idom:
                        new = q if new is None else inter(new, q)
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.loops = {}
        for n in rpo:
            for s in self.blocks[n].succ:
                if dom(s, n):
                    body = self.loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += [q for q in preds[x] if q in num]


def compile_gep(bt, base, idx):
    """-> (base, const_offset, [(scale, operand, type)])"""
    const = 0
    var = []
    t = bt
    for k, (it, iv) in enumerate(idx):
        if k == 0:
            sc = sizeof(bt)
            if iv[0] == 'c':
                const += sc * iv[2]
            else:
                var.append((sc, iv, it))
        else:
            if t[0] == 's':
                const += offsets(t)[iv[2]]
                t = t[1][iv[2]]
            elif t[0] == 'a' or t[0] == 'vec':
                sc = sizeof(t[2])
                if iv[0] == 'c':
                    const += sc * iv[2]
                else:
                    var.append((sc, iv, it))
                t = t[2]
            else:
                raise IRError("gep into %r" % (t,))
    return (base, const, var)


class Program:
    """all modules linked by name"""

    def __init__(self, paths):
        self.mods = {}
        self.fns = {}
        self._parsed = {}
        self.gl = {}
        for tu, path in paths.items():
            m = Module(tu, open(path).read())
            self.mods[tu] = m
            for n in m.fn_src:
                if n in m.internal:
                    continue
                self.fns.setdefault(n, m)
            for n, src in m.globals_src.items():
                if n in m.internal:
                    continue
                if re.match(r'(\w+ )*external ', src) or src.startswith("external"):
                    continue
                self.gl.setdefault(n, m)

    def resolve_alias(self, name, mod=None):
        for _ in range(4):
            if mod is not None and name in mod.aliases:
                name = mod.aliases[name]
                continue
            for m in self.mods.values():
                if name in m.aliases:
                    name = m.aliases[name]
                    break
            else:
                break
        return name

    def find(self, name, mod=None):
        """-> Function or None.  name may be 'tu:name' for internal functions"""
        if ':' in name:
            tu, n = name.split(':', 1)
            m = self.mods[tu]
        else:
            n = name
            if mod is not None and n in mod.internal and n in mod.fn_src:
                m = mod
            else:
                m = self.fns.get(n)
                if m is None:
                    n2 = self.resolve_alias(n, mod)
                    if n2 != n:
                        return self.find(n2, mod)
                    return None
        key = (m.name, n)
        f = self._parsed.get(key)
        if f is None:
            if n not in m.fn_src:
                return None
            f = Function(m, n)
            self._parsed[key] = f
        return f

    def qualify(self, name, mod):
        """unique key for a global symbol referenced in mod"""
        if name in mod.internal:
            return mod.name + ":" + name
        return name

    def global_init(self, qname):
        """-> (module, type, init operand or None)"""
        if ':' in qname:
            tu, n = qname.split(':', 1)
            m = self.mods[tu]
        else:
            n = qname
            m = self.gl.get(n)
            if m is None:
                return None
        src = m.globals_src[n]
        mm = re.search(r'\b(global|constant) ', src)
        p = P(m, src[mm.end():])
        t = p.type()
        if re.search(r'\bexternal\b', src[:mm.start()]):
            return (m, t, None)
        try:
            v = p.value(t)
        except IRError:
            v = None
        return (m, t, v)


if __name__ == "__main__":
    import sys, glob, os, time
    t = time.time()
    pr = Program({os.path.basename(f)[:-3]: f for f in glob.glob(sys.argv[1] + "/*.ll")})
    print(time.time() - t)
    n = 0
    un = {}
    for m in pr.mods.values():
        for f in m.fn_src:
            fn = Function(m, f)
            n += 1
            for b in fn.blocks.values():
                for ins in b.instrs:
                    if ins.op == 'unsupported':
                        un[ins.text.split()[0]] = ins.text
        for g in m.globals_src:
            pr.global_init(m.name + ":" + g)
    print(n, un, time.time() - t)
